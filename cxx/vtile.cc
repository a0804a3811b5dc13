/* Tile-level C++ interface for the checks: every function takes tensors that
 * consist of one tile and applies the tile-level operation to that tile. */
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <pybind11/numpy.h>
#include <nntile.hh>
#include <cstring>

namespace py = pybind11;
using namespace nntile;
using V = std::vector<Index>;
template<typename T> using X = const tensor::Tensor<T> &;

template<typename T>
static tile::Tile<T> t(X<T> x)
{
    if(x.grid.nelems != 1)
        throw std::logic_error("not a single tile");
    return x.get_tile(0);
}

#define COMMA ,
// both the asynchronous and the blocking version; the latter has to be
// finished when it returns
#define OP(name, params, args) \
    m.def(#name "_async", [] params { tile::name##_async<T> args; }); \
    m.def(#name, [] params { tile::name<T> args; });

template<typename T>
static void def(py::module_ &m)
{
    OP(adam_step, (Index n, T b1, T b2, T e, T lr, T wd, X<T> g, X<T> a, X<T> b, X<T> p),
        (n, b1, b2, e, lr, wd, t(g), t(a), t(b), t(p)))
    OP(adamw_step, (Index n, T b1, T b2, T e, T lr, T wd, X<T> g, X<T> a, X<T> b, X<T> p),
        (n, b1, b2, e, lr, wd, t(g), t(a), t(b), t(p)))
    OP(add, (T a, X<T> x, T b, X<T> y), (a, t(x), b, t(y)))
    OP(add_fiber, (T a, X<T> x, T b, X<T> y, Index axis, Index nb), (a, t(x), b, t(y), axis, nb))
    OP(add_scalar, (T a, T b, X<T> y), (a, b, t(y)))
    OP(add_slice, (T a, X<T> x, T b, X<T> y, Index axis), (a, t(x), b, t(y), axis))
    OP(add_slice3, (T a, X<T> x, T b, X<T> y, X<T> z, Index axis), (a, t(x), b, t(y), t(z), axis))
    OP(addcdiv, (T v, T e, X<T> x, X<T> y, X<T> z), (v, e, t(x), t(y), t(z)))
    OP(axpy, (T a, X<T> x, X<T> y), (a, t(x), t(y)))
    OP(axpy, (X<T> a, X<T> x, X<T> y), (t(a), t(x), t(y)))
    OP(clear, (X<T> x), (t(x)))
    OP(copy, (X<T> x, X<T> y), (t(x), t(y)))
    OP(dgelu, (X<T> x), (t(x)))
    OP(dgelutanh, (X<T> x), (t(x)))
    OP(drelu, (X<T> x), (t(x)))
    OP(fill, (T v, X<T> x), (v, t(x)))
    OP(gelu, (X<T> x), (t(x)))
    OP(gelu_backward, (X<T> x, X<T> y, X<T> z), (t(x), t(y), t(z)))
    OP(gelutanh, (X<T> x, X<T> y), (t(x), t(y)))
    OP(gelutanh_backward, (X<T> x, X<T> y, X<T> z), (t(x), t(y), t(z)))
    OP(gelutanh_inplace, (X<T> x), (t(x)))
    OP(hypot, (T a, X<T> x, T b, X<T> y), (a, t(x), b, t(y)))
    OP(logsumexp, (X<T> x, X<T> y), (t(x), t(y)))
    OP(mask_scalar, (X<bool_t> k, T v, X<T> x), (t(k), v, t(x)))
    OP(maximum, (X<T> x, X<T> y), (t(x), t(y)))
    OP(maxsumexp, (X<T> x, X<T> y, Index axis), (t(x), t(y), axis))
    OP(norm_slice, (T a, X<T> x, T b, X<T> y, Index axis), (a, t(x), b, t(y), axis))
    OP(normalize, (X<T> g, X<T> x, X<T> y, Index l, T eps, Index axis), (t(g), t(x), t(y), l, eps, axis))
    OP(nrm2, (T a, X<T> x, T b, X<T> y, X<T> z), (a, t(x), b, t(y), t(z)))
    OP(pow, (T a, T e, X<T> x), (a, e, t(x)))
    OP(prod, (X<T> x, X<T> y), (t(x), t(y)))
    OP(prod_fiber, (X<T> x, T a, X<T> y, Index axis), (t(x), a, t(y), axis))
    OP(prod_fiber3, (X<T> x, T a, X<T> y, X<T> z, Index axis), (t(x), a, t(y), t(z), axis))
    OP(prod_slice, (X<T> x, T a, X<T> y, Index axis), (t(x), a, t(y), axis))
    OP(randn, (X<T> x, const V &s, const V &u, unsigned long long seed, T mean, T dev),
        (t(x), s, u, seed, mean, dev))
    OP(relu, (X<T> x), (t(x)))
    OP(relu_backward, (X<T> x, X<T> y, X<T> z), (t(x), t(y), t(z)))
    OP(relu_forward, (X<T> x, X<T> y), (t(x), t(y)))
    OP(scal, (T a, X<T> x, X<T> y), (a, t(x), t(y)))
    OP(scal_inplace, (T a, X<T> x), (a, t(x)))
    OP(softmax, (X<T> s, X<T> x, T a, X<T> y, Index axis), (t(s), t(x), a, t(y), axis))
    OP(softmax_inplace, (X<T> s, T a, X<T> y, Index axis), (t(s), a, t(y), axis))
    OP(sqrt, (X<T> x, X<T> y), (t(x), t(y)))
    OP(sqrt_inplace, (X<T> x), (t(x)))
    OP(subtract_indexed_outputs, (T v, X<Index> l, X<T> y), (v, t(l), t(y)))
    OP(sum_fiber, (T a, X<T> x, T b, X<T> y, Index axis, Index nb), (a, t(x), b, t(y), axis, nb))
    OP(sum_slice, (T a, X<T> x, T b, X<T> y, Index axis), (a, t(x), b, t(y), axis))
    OP(sumnorm, (X<T> x, X<T> y, Index axis), (t(x), t(y), axis))
    OP(sumprod_fiber, (T a, X<T> x, X<T> x2, T b, X<T> y, Index axis), (a, t(x), t(x2), b, t(y), axis))
    OP(sumprod_slice, (T a, X<T> x, X<T> x2, T b, X<T> y, Index axis), (a, t(x), t(x2), b, t(y), axis))
    OP(total_sum_accum, (T a, X<T> l, X<T> x, X<Index> c, X<T> y), (a, t(l), t(x), t(c), t(y)))
    OP(copy_intersection, (X<T> x, const V &xo, X<T> y, const V &yo, X<Index> s), (t(x), xo, t(y), yo, t(s)))
    m.def("gemm_async", [](T a, const TransOp &ta, X<T> A, const TransOp &tb, X<T> B, T b, X<T> C, Index nd, Index nb)
        { tile::gemm_async<T COMMA T>(a, ta, t(A), tb, t(B), b, t(C), nd, nb); });
    m.def("gemm", [](T a, const TransOp &ta, X<T> A, const TransOp &tb, X<T> B, T b, X<T> C, Index nd, Index nb)
        { tile::gemm<T COMMA T>(a, ta, t(A), tb, t(B), b, t(C), nd, nb); });
}

template<typename T>
static void def_copy(py::module_ &m)
{
    OP(copy, (X<T> x, X<T> y), (t(x), t(y)))
    OP(copy_intersection, (X<T> x, const V &xo, X<T> y, const V &yo, X<Index> s), (t(x), xo, t(y), yo, t(s)))
}

// half precision has no conversion from arrays: bit patterns in, bit patterns out
using A16 = py::array_t<uint16_t, py::array::f_style | py::array::forcecast>;
static A16 subcopy16(const V &ss, A16 s, const V &so, const V &ds, A16 d, const V &d_o, bool blocking)
{
    A16 out(d.size());
    {
        tile::Tile<fp16_t> x(ss), y(ds);
        tile::Tile<Index> w(V{2 * (Index)ss.size()});
        {
            auto l = x.acquire(STARPU_W);
            std::memcpy((void *)l.get_ptr(), s.data(), s.size() * 2);
            l.release();
            auto k = y.acquire(STARPU_W);
            std::memcpy((void *)k.get_ptr(), d.data(), d.size() * 2);
            k.release();
        }
        // only the runtime's copy and the subcopy codelet exist for this type
        V ls(ss.size()), ld(ss.size()), n(ss.size());
        bool full = true;
        for(size_t i = 0; i < ss.size(); ++i)
        {
            Index lo = std::max(so[i], d_o[i]), hi = std::min(so[i] + ss[i], d_o[i] + ds[i]);
            if(hi <= lo)
                throw std::logic_error("empty");
            ls[i] = lo - so[i];
            ld[i] = lo - d_o[i];
            n[i] = hi - lo;
            full = full && n[i] == ds[i];
        }
        starpu::subcopy::submit<fp16_t>(ss.size(), ls, x.stride, ld, y.stride, n, x, y, w, full ? STARPU_W : STARPU_RW);
        starpu_task_wait_for_all();
        auto k = y.acquire(STARPU_R);
        std::memcpy(out.mutable_data(), k.get_ptr(), d.size() * 2);
        k.release();
    }
    return out;
}

PYBIND11_MODULE(vtile, m)
{
    py::module_::import("nntile.nntile_core");
    def<fp32_t>(m);
    def<fp64_t>(m);
    def_copy<Index>(m);
    m.def("subcopy16", subcopy16);
    // geometry not visible in Python
    m.def("matrix_shape", [](const V &s) {
        tile::TileTraits q(s);
        std::vector<V> r;
        for(auto &p : q.matrix_shape)
            r.push_back(V{p[0], p[1]});
        return r; });
    m.def("contains_index", [](const V &s, const V &i) { return tile::TileTraits(s).contains_index(i); });
    m.def("leftover_shape", [](const V &s, const V &b) { return tensor::TensorTraits(s, b).leftover_shape; });
    m.def("tile_by_index", [](X<fp32_t> x, const V &i) {
        auto q = x.get_tile(i);
        if(static_cast<starpu_data_handle_t>(q) != static_cast<starpu_data_handle_t>(x.get_tile_handle(i)))
            throw std::logic_error("handle");
        auto &r = x.get_tile_traits(i);
        Index l = x.grid.index_to_linear(i);
        if(static_cast<starpu_data_handle_t>(q) != static_cast<starpu_data_handle_t>(x.get_tile_handle(l)))
            throw std::logic_error("handle by offset");
        if(x.get_tile_traits(l).shape != r.shape)
            throw std::logic_error("traits by offset");
        if(starpu_data_get_size(static_cast<starpu_data_handle_t>(q)) != (size_t)q.nelems * sizeof(fp32_t))
            throw std::logic_error("allocation size");
        return py::make_tuple(q.shape, r.shape); });
}
