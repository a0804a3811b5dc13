from vlib import opprop, laycases
opprop.setup(globals(), ("emb",),
    "Random embedding call: op x dtype x coefficients x shape x tiling x axis x data kind; every element of every output "
    "compared with an extended-precision reference; and random Embedding layers (any axis, vocabulary, tilings; 1-3 passes). Non-trivial: at least one dimension has several tiles.",
    {"quick": (8000, 30), "thorough": (200000, 600)})
laycases.mix(globals(), [laycases.EmbeddingCase], 0.3)
