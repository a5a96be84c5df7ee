"""per property: spec modules (deductive core), harness (bounded stand-in and replay), level, notes"""
T = {}

COMMON = [
    "machine: x86-64, 8-bit bytes, two's complement; heap allocation succeeds",
    "std containers and algorithms behave as their models in tatv/stdmodels.py say",
]


def P(id, specs, harness, level, note, technique, assumptions=(), quick=(400, 25), thorough=(20000, 240), ldflags=(), env=None):
    T[id] = dict(id=id, specs=list(specs), harness=harness, level=level, note=note, technique=technique, assumptions=COMMON + list(assumptions), quick=quick, thorough=thorough, ldflags=list(ldflags), env=env or {})


DED = "contract-based deductive verification of the extracted C++ (tatv: symbolic execution to z3/cvc5)"
BND = "; bounded replay harness for what is not under contract"

P("C01", ["c01"], "c01.cpp", "proof", "Every operator of the six symmetry types is under contract and proved for all component values; the harness only replays.", DED, ["component sums fit their types (precondition of the statement)"], quick=(400, 10))
P("C02", ["c02"], "c02.cpp", "other", "Sign kernels under contract; their use per block is covered by the bounded harness.", DED + BND)
P("C03", ["c03"], "c03.cpp", "other", "A list of names is proved to be accepted exactly when it has the length of the tensor's rank and no repetition, and the index built from it is proved right, for every list; which blocks a tensor has, their sizes and the initial contents are covered by the bounded harness.", DED + BND, ["names compare as their texts or ids do (C10)"])
P("C04", ["c04"], "c04.cpp", "other", "The data movement is proved for every rank, every dimension and every permutation: the transposition kernel (element-wise and line variants, both signs), simple_transpose, do_transpose and matrix_transpose put every entry of a block at its place with the sign asked for and touch nothing outside; inturn_transpose (blocks beyond the cache size), the renaming and the choice of blocks are covered by the bounded harness.", DED + BND, ["a finite sum does not depend on the order of its terms (used once, for the source offset)", "inturn_transpose meets the contract proved of simple_transpose (bounded harness only)", "spans dimension*stride below 2^62"])
P("C05", [], "c05.cpp", "other", "bounded", DED + BND)
P("C06", [], "c06.cpp", "other", "bounded", DED + BND)
P("C07", ["c07"], "c07.cpp", "other", "The offset of an element inside its block, the block a set of quantum numbers selects and the refusal of a missing name or quantum number are proved for every tensor (get_offset/get_block_position kernels of core.hpp); the access functions that call them are covered by the bounded harness.", DED + BND, ["the product of the dimensions of a block is at most 2^63-1; rank at most 65534"])
P("C08", [], "c08.cpp", "other", "bounded", DED + BND)
P("C09", [], "c09.cpp", "other", "bounded", DED + BND)
P("C10", ["c10"], "c10.cpp", "proof", "The name registry is under contract: initial state, both constructors of FastName, the text operator and the comparisons are proved for every registry and every text, so ids are stable and one-to-one by induction over calls; the harness only replays.", DED, ["fewer than 2^31-2 distinct names are created (the id type is int)", "single thread (the registry is an unsynchronised global)"])
P("C11", ["c11"], "c11.cpp", "proof", "Allocation, growth, release, destruction and the scope guard of the monotonic buffer are under contract and proved for every request sequence through a state invariant; the harness only replays.", DED, ["upstream returns fresh blocks aligned to 16 bytes at addresses below 2^62", "requested alignments are 1, 2, 4, 8 or 16", "termination of the size doubling loop is not claimed"])
P("C12", ["c12"], "c12.cpp", "other", "The in-place operators, transform, set, zero and the access functions that return a writable reference are proved never to write data another tensor shares (and to hand out references only to unshared data), for every tensor and every number of owners; the read-only access functions are proved to change nothing; that edge operations, contraction and decompositions leave their operands alone is covered by the bounded harness.", DED + BND, ["C04: contract of transpose", "C07: contract of the address computation", "single thread"])
P("C13", [], "c13.cpp", "other", "bounded", DED + BND)
P("C14", ["c14"], "c14.cpp", "proof", "Send, receive, send_receive, broadcast and reduce are under contract; the message trees are proved matched, acyclic and complete for every size, rank and root by a tree lemma; the harness (ranks as threads) only replays.", DED, ["at most 2^29 processes", "MPI delivers messages as its standard says (assumed contracts on MPI_*)", "serialisation round trip (C08)"])
P("C15", ["c15"], "c15.cpp", "other", "The eight in-place operators (including operands that share data or are the same object), the eight tensor-scalar and scalar-tensor operators, map, transform, copy, same_shape and conversion are proved element by element for every tensor; the operators between two tensors that return a new one, and norms, are covered by the bounded harness.", DED + BND, ["C03: tensors with equal edges have the same blocks of the same sizes", "C04: contract of transpose", "floating-point + - * / are uninterpreted functions"])
P("C16", [], "c16.cpp", "other", "bounded", DED + BND)
P("C17", [], "c17.cpp", "other", "bounded", DED + BND)
P("C18", [], "c18.cpp", "other", "bounded", DED + BND)

NA = {
    "C19": "amplitudes and environments of the lattice classes are equal to the whole contraction only up to floating-point rounding and boundary truncation of long chains of contractions; no contract over the code within reach of this verifier expresses that equality (the tensor operations they are made of are covered by C04-C07, C15-C18)",
    "C20": "accuracy of a Pade approximation in floating point: the statement is about rounding and convergence, which contracts over real or bit-vector arithmetic in this verifier cannot decide",
}
