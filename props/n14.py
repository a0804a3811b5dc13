from vlib import opprop, laycases
opprop.setup(globals(), ("loss",),
    "Random loss call: op x dtype x coefficients x shape x tiling x axis x data kind; every element of every output "
    "compared with an extended-precision reference; and histories of 1-4 evaluations of CrossEntropy and Frob losses (value, running total, gradient, accessors). Non-trivial: at least one dimension has several tiles.",
    {"quick": (8000, 30), "thorough": (200000, 600)})
laycases.mix(globals(), [laycases.CrossEntropyCase, laycases.FrobCase], 0.4)
