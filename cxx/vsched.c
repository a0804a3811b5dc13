/* StarPU scheduling policy used by the checks.
 *
 * - picks a seeded pseudo-random ready task (every linear extension of the
 *   declared dependency graph can be produced),
 * - optionally delays tasks at random on multi-worker runs,
 * - wraps every CPU codelet the first time it is seen, and around each
 *   executed task checks that read-only buffers are left bitwise unchanged and
 *   fills write-only and scratch buffers with a NaN pattern beforehand.
 */
#define _GNU_SOURCE
#include <starpu.h>
#include <starpu_scheduler.h>
#include <pthread.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <sys/syscall.h>

#define MAXREADY (1 << 20)
static struct starpu_task *ready[MAXREADY];
static unsigned nready;
static pthread_mutex_t qmx = PTHREAD_MUTEX_INITIALIZER;
static uint64_t rng = 88172645463325252ULL;
static int policy;              /* 0 fifo, 1 random, 2 lifo; +4 one kernel at a time; +8 interrupt kernels */
static int monitor;             /* 1: check R, 2: poison W and scratch */
static int delay_us;
static unsigned long n_tasks, n_picks_nonfifo, n_multi, max_ready, n_rchk, n_wpoison;
static char errbuf[4096];
static int nerr;
static pthread_mutex_t emx = PTHREAD_MUTEX_INITIALIZER;
static void (*user_hook)(const char*, int);

static uint64_t rnd(void)
{
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return rng * 2685821657736338717ULL;
}

void vs_seed(uint64_t s)
{
    pthread_mutex_lock(&qmx);
    rng = s * 0x9E3779B97F4A7C15ULL + 0x1234567ULL;
    if(!rng) rng = 1;
    for(int i = 0; i < 8; ++i) rnd();
    pthread_mutex_unlock(&qmx);
}
void vs_config(int policy_, int monitor_, int delay_)
{ policy = policy_; monitor = monitor_; delay_us = delay_; }
int vs_errors(void) { return nerr; }
const char *vs_errmsg(void) { return errbuf; }
void vs_clear(void)
{ pthread_mutex_lock(&emx); nerr = 0; errbuf[0] = 0; pthread_mutex_unlock(&emx); }
void vs_stats(unsigned long *out)
{
    out[0]=n_tasks; out[1]=n_picks_nonfifo; out[2]=n_multi; out[3]=max_ready;
    out[4]=n_rchk; out[5]=n_wpoison;
}

/* ---- codelet wrapping ---- */
#define MAXCL 512
static struct { struct starpu_codelet *cl; starpu_cpu_func_t f; } cls[MAXCL];
static int ncls;
static pthread_mutex_t smx = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t cmx = PTHREAD_MUTEX_INITIALIZER;

static void report(struct starpu_codelet *cl, const char *what, int buf)
{
    pthread_mutex_lock(&emx);
    if(nerr == 0)
        snprintf(errbuf, sizeof errbuf, "task %s: %s (buffer %d)",
                cl->name ? cl->name : "?", what, buf);
    ++nerr;
    pthread_mutex_unlock(&emx);
}

/* policy 8: a kernel is interrupted for a while at a random moment, so that
 * others run in between */
static uint64_t dur[MAXCL];
static __thread timer_t tick;
static __thread int has_tick;
static unsigned long n_ticks;
static void on_tick(int sig)
{
    (void)sig;
    int e = errno;
    struct timespec ts = {0, 100000};
    nanosleep(&ts, NULL);
    __atomic_add_fetch(&n_ticks, 1, __ATOMIC_RELAXED);
    errno = e;
}
unsigned long vs_ticks(void) { return n_ticks; }
static uint64_t now_ns(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000000000ull + t.tv_nsec;
}
static void interrupted(int slot, starpu_cpu_func_t f, void *buffers[], void *cl_arg)
{
    static __thread uint64_t r;
    if(!has_tick)
    {
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = on_tick;
        sa.sa_flags = SA_RESTART;
        sigaction(SIGRTMIN+3, &sa, NULL);
        struct sigevent ev;
        memset(&ev, 0, sizeof ev);
        ev.sigev_notify = SIGEV_THREAD_ID;
        ev.sigev_signo = SIGRTMIN+3;
        ev._sigev_un._tid = syscall(SYS_gettid);
        has_tick = timer_create(CLOCK_MONOTONIC, &ev, &tick) == 0 ? 1 : -1;
        r = (uintptr_t)&r | 1;
    }
    r ^= r << 13; r ^= r >> 7; r ^= r << 17;
    uint64_t d = dur[slot];
    struct itimerspec its;
    memset(&its, 0, sizeof its);
    if(has_tick > 0 && d > 0)
    {
        its.it_value.tv_nsec = 1 + (r >> 8) % (d > 50000000 ? 50000000 : d);
        timer_settime(tick, 0, &its, NULL);
    }
    uint64_t t0 = now_ns();
    f(buffers, cl_arg);
    uint64_t t1 = now_ns() - t0;
    if(has_tick > 0 && d > 0)
    {
        memset(&its, 0, sizeof its);
        timer_settime(tick, 0, &its, NULL);
    }
    /* shortest of the last runs, as others were interrupted */
    dur[slot] = d == 0 || t1 < d ? t1 : d + d/8;
}

/* every wrapped codelet gets an entry point of its own, because the runtime
 * calls initialisation codelets of reductions without any task */
static void wrapper(int slot, void *buffers[], void *cl_arg)
{
    struct starpu_task *task = starpu_task_get_current();
    struct starpu_codelet *cl = cls[slot].cl;
    starpu_cpu_func_t f = cls[slot].f;
    if(task == NULL || task->cl != cl)
    {
        f(buffers, cl_arg);
        return;
    }
    unsigned n = STARPU_TASK_GET_NBUFFERS(task);
    void *save[32] = {0};
    if(delay_us > 0)
    {
        static __thread uint64_t r;
        if(!r) r = (uintptr_t)&r | 1;
        r ^= r << 13; r ^= r >> 7; r ^= r << 17;
        if((r & 3) == 0) usleep((r >> 8) % (unsigned)delay_us);
    }
    if(n > 32) n = 32;
    for(unsigned i = 0; i < n && monitor; ++i)
    {
        struct starpu_variable_interface *v = buffers[i];
        if(v == NULL || v->id != STARPU_VARIABLE_INTERFACE_ID || !v->ptr) continue;
        char *p = (char *)v->ptr;
        int m = STARPU_TASK_GET_MODE(task, i) & (STARPU_RW|STARPU_SCRATCH|STARPU_REDUX);
        int aliased = 0;
        for(unsigned j = 0; j < n; ++j)
        {
            if(j == i) continue;
            struct starpu_variable_interface *u = buffers[j];
            if(u == NULL || u->id != STARPU_VARIABLE_INTERFACE_ID) continue;
            if(u->ptr == v->ptr) aliased = 1;
        }
        if(m == STARPU_R && (monitor & 1) && !aliased)
        {
            save[i] = malloc(v->elemsize);
            memcpy(save[i], p, v->elemsize);
            __atomic_add_fetch(&n_rchk, 1, __ATOMIC_RELAXED);
        }
        else if((m == STARPU_W || m == STARPU_SCRATCH) && (monitor & 2) && !aliased)
        {
            memset(p, 0xff, v->elemsize);
            __atomic_add_fetch(&n_wpoison, 1, __ATOMIC_RELAXED);
        }
    }
    __atomic_add_fetch(&n_tasks, 1, __ATOMIC_RELAXED);
    /* policy 4: one kernel at a time */
    int serial = policy & 4;
    if(serial) pthread_mutex_lock(&smx);
    if(policy & 8) interrupted(slot, f, buffers, cl_arg);
    else f(buffers, cl_arg);
    if(serial) pthread_mutex_unlock(&smx);
    for(unsigned i = 0; i < n; ++i)
        if(save[i])
        {
            struct starpu_variable_interface *v = buffers[i];
            if(memcmp(save[i], (char *)v->ptr, v->elemsize) != 0)
                report(cl, "a buffer declared read-only was modified", i);
            free(save[i]);
        }
}

#define W1(n) static void w_##n(void *b[], void *a) { wrapper(0x##n, b, a); }
#define W16(n) W1(n##0) W1(n##1) W1(n##2) W1(n##3) W1(n##4) W1(n##5) W1(n##6) \
    W1(n##7) W1(n##8) W1(n##9) W1(n##a) W1(n##b) W1(n##c) W1(n##d) W1(n##e) W1(n##f)
#define W256(n) W16(n##0) W16(n##1) W16(n##2) W16(n##3) W16(n##4) W16(n##5) \
    W16(n##6) W16(n##7) W16(n##8) W16(n##9) W16(n##a) W16(n##b) W16(n##c) \
    W16(n##d) W16(n##e) W16(n##f)
W256(0)
W256(1)
#define E1(n) w_##n,
#define E16(n) E1(n##0) E1(n##1) E1(n##2) E1(n##3) E1(n##4) E1(n##5) E1(n##6) \
    E1(n##7) E1(n##8) E1(n##9) E1(n##a) E1(n##b) E1(n##c) E1(n##d) E1(n##e) E1(n##f)
#define E256(n) E16(n##0) E16(n##1) E16(n##2) E16(n##3) E16(n##4) E16(n##5) \
    E16(n##6) E16(n##7) E16(n##8) E16(n##9) E16(n##a) E16(n##b) E16(n##c) \
    E16(n##d) E16(n##e) E16(n##f)
static starpu_cpu_func_t entry[MAXCL] = { E256(0) E256(1) };

static int wrapped(struct starpu_codelet *cl)
{
    int n = __atomic_load_n(&ncls, __ATOMIC_ACQUIRE);
    for(int i = 0; i < n; ++i) if(cls[i].cl == cl) return 1;
    return 0;
}

static void wrap(struct starpu_codelet *cl)
{
    if(!cl || !cl->cpu_funcs[0]) return;
    if(!cl->name) return; /* runtime-internal */
    if(wrapped(cl)) return;
    pthread_mutex_lock(&cmx);
    if(!wrapped(cl) && ncls < MAXCL)
    {
        cls[ncls].cl = cl;
        cls[ncls].f = cl->cpu_funcs[0];
        cl->cpu_funcs[0] = entry[ncls];
        __atomic_store_n(&ncls, ncls+1, __ATOMIC_RELEASE);
    }
    pthread_mutex_unlock(&cmx);
}

/* ---- scheduling policy ---- */
static void init_sched(unsigned ctx) { (void)ctx; nready = 0; }
static void deinit_sched(unsigned ctx) { (void)ctx; }

static void submit_hook(struct starpu_task *task) { wrap(task->cl); }

static int push_task(struct starpu_task *task)
{
    unsigned ctx = task->sched_ctx;
    starpu_worker_relax_on();
    pthread_mutex_lock(&qmx);
    starpu_worker_relax_off();
    wrap(task->cl);
    if(nready >= MAXREADY) abort();
    ready[nready++] = task;
    if(nready > max_ready) max_ready = nready;
    starpu_push_task_end(task);
    pthread_mutex_unlock(&qmx);
    struct starpu_worker_collection *ws = starpu_sched_ctx_get_worker_collection(ctx);
    struct starpu_sched_ctx_iterator it;
    ws->init_iterator(ws, &it);
    while(ws->has_next(ws, &it))
        starpu_wake_worker_relax_light(ws->get_next(ws, &it));
    return 0;
}

static struct starpu_task *pop_task(unsigned ctx)
{
    (void)ctx;
    struct starpu_task *t = NULL;
    if(__atomic_load_n(&nready, __ATOMIC_RELAXED) == 0) return NULL;
    starpu_worker_relax_on();
    pthread_mutex_lock(&qmx);
    starpu_worker_relax_off();
    if(nready > 0)
    {
        unsigned k = 0;
        if((policy & 3) == 1) k = rnd() % nready;
        else if((policy & 3) == 2) k = nready-1;
        if(nready > 1) ++n_multi;
        if(k != 0) ++n_picks_nonfifo;
        t = ready[k];
        memmove(ready+k, ready+k+1, (nready-k-1)*sizeof(*ready));
        --nready;
    }
    pthread_mutex_unlock(&qmx);
    return t;
}

static struct starpu_sched_policy pol =
{
    .init_sched = init_sched,
    .deinit_sched = deinit_sched,
    .push_task = push_task,
    .pop_task = pop_task,
    .submit_hook = submit_hook,
    .policy_name = "vrand",
    .policy_description = "seeded random ready-task order",
    .worker_type = STARPU_WORKER_LIST,
};
struct starpu_sched_policy *starpu_get_sched_lib_policy(const char *name)
{
    if(strcmp(name, "vrand") == 0) return &pol;
    return NULL;
}
