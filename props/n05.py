from vlib import opprop
opprop.setup(globals(), ("gemm",),
    "Random tensor contraction call: op x dtype x coefficients x shape x tiling x axis x data kind; every element of every output "
    "compared with an extended-precision reference. Non-trivial: at least one dimension has several tiles.",
    {"quick": (8000, 30), "thorough": (200000, 600)})
