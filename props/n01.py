from vlib import opprop
opprop.setup(globals(), ("act",),
    "Random activation call: op x dtype x shape (0..5 dims) x tiling x data kind (incl. whole finite range); "
    "every element compared with an extended-precision reference. Non-trivial: at least one dimension has several tiles.",
    {"quick": (8000, 30), "thorough": (200000, 600)})
