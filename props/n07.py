from vlib import opprop, laycases
opprop.setup(globals(), ("lnorm",),
    "Random normalisation call: op x dtype x coefficients x shape x tiling x axis x data kind; every element of every output "
    "compared with an extended-precision reference; and random LayerNorm layers (any axis, eps, redux; 1-3 forward/backward passes accumulating into random gradients, paused, waited for or synchronous). Non-trivial: at least one dimension has several tiles.",
    {"quick": (8000, 30), "thorough": (200000, 600)})
laycases.mix(globals(), [laycases.LayerNormCase], 0.4)
