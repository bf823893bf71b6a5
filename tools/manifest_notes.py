"""Deciding method and note per property (read by gen_manifest.py)."""
T = " Assumes numpy/scipy linear algebra to about 1e-12; values outside the stated alphabets are not covered."
R = " Random draws are controlled at numpy.random/random: floats are explored through representative cells (each with its exact probability), discrete choices completely."


def add(i, kind, note):
    KIND[i] = kind
    NOTE[i] = note


add("C01", "bfs+enum", "All reachable states of bounded sequences (history length unbounded) and all cyclic histories up to a period, run on the real objects against a reference list and matrix product." + T)
add("C02", "bfs+enum", "All reachable states incl. the undo record of bounded sequences, all cyclic histories with undo, all patterns of layer edits, against a reference with a one-slot undo record." + T)
add("C03", "bfs+enum", "Every short word of gates, every construction, inversion and follow-up edit, state search with inversion as an operation, against reference matrices." + T)
add("C04", "bfs+enum", "Every tuple of differently prepared sequences, then edits on either side, against reference concatenation." + T)
add("C05", "enum", "Every ordered pair of operations and caller edits on a world of 33 objects; every observable of every other object compared with a fresh world." + T)
add("C06", "enum", "Every ordered choice of qubits of every system within the bound and every order of asking for sizes, against a reference embedding written on basis indices." + T)
add("C07", "bfs+enum", "All states of finite groups generated by the library's products (closure), all short chains over generic unitaries, against plain matrices." + T)
add("C08", "enum", "All ordered pairs and query orders over a menu of unitaries per dimension, every form and threshold, against the overlap formula with a margin at the threshold." + T)
add("C09", "enum", "Every gate on a lattice of angles against its defining formula written out independently; fixed and parameterized forms." + T)
add("C10", "tree+enum", "All value lists on and around the range ends; every value the random source can deliver (all cells, both extreme floats)." + R + T)
add("C11", "tree+dtmc", "Every random path of compile() within the step bound, the held sequence replayed independently from the recorded choices; long runs over many deterministic policies." + R + T)
add("C12", "tree+enum", "Every random path within the bound over configurations of primitives, each entry identified against the configured primitives." + R + T)
add("C13", "dtmc+tree", "Exact transition law (probabilities of every path) against a reference Markov chain with annealed Metropolis acceptance." + R + T)
add("C14", "dtmc+tree", "After every history of earlier compilations within the bound, the exact outcome law equals that of a fresh compiler." + R + T)
add("C15", "tree", "Every random path of compile_layered() within the bound; layers identified independently." + R + T)
add("C16", "dtmc+tree", "Exact distribution of random entries and layers over all random choices against the documented one." + R + T)
add("C17", "tree+dtmc", "Every random path of RAV generation within the bound; prefix, inverse, costs, refusals; exact law of prefix." + R + T)
add("C18", "tree+dtmc", "Every random path of layered RAV/XEB generation within the bound; layer structure, costs, exact law of prefix." + R + T)
add("C19", "enum", "Every list of terms from a menu, every time and step count, against scipy-independent exponentials by eigendecomposition." + T)
add("C20", "tree+dtmc", "Every random order of the terms; exact distribution uniform and independent." + R + T)
add("C21", "tree+dtmc", "Every sequence of draws; exact probabilities against coefficient/sum." + R + T)
add("C22", "tree+dtmc", "Every random path within the bound for menus of Hamiltonians; entries identified as evolutions of (sums of) terms." + R + T)
add("C23", "tree+dtmc", "Every random path of the prefix within the bound, exact law of steps, compiled inverse, always ends." + R + T)
add("C24", "bfs+tree+enum", "Every operation, qubit order and value of an alphabet, state search with text asked for in between, all three formats parsed by an independent reader; one known finding (see KNOWN_FINDINGS.txt)." + R + T)
add("C25", "tree+enum", "Every call after every call (and pairs of calls) in one process against fresh interpreters under several hash seeds; generator states compared." + R + T)
add("C26", "bfs+enum", "Tables of malformed and well-formed arguments enumerated at every entry point; every refused call in every reachable state of bounded sequences and on the world of C05." + T)
