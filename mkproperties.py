import json
P=[]
def p(id,title,statement,over,text,why,files,state,mech,observe,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
p("C01","Poseidon2 computes the published permutation",
 "For every parameter set that the constructor accepts and whose width is supported (2, 3, 4, 8, 12, 16, 20, 24) and every state vector of that width, the Poseidon2 permutation returns exactly the output of the specified permutation: initial external layer, half of the full rounds, the partial rounds, the remaining full rounds, with S-box x^d for d in {3,5,7,11}, the circulant/M4 external matrix and the all-ones-plus-diagonal internal matrix over the given constants (for widths 2 and 3 the design's fixed diagonals (1,2) and (1,1,2)). This holds for the 15 published sets, whose outputs are those of the published instances, as well as for user-built sets over any prime field, for every number of rounds including none.",
 ["inputs","configurations"],"all state vectors, all accepted (field, t, d, R_F, R_P, constants, diagonal)",
 "The unit tests compare one known answer per a few instances and otherwise only test that two equal inputs agree; widths, degrees, round splits, special inputs (zeros, p-1, collisions) and user-built parameters are not reached.",
 ["src/poseidon2/poseidon2.rs","src/poseidon2/poseidon2_params.rs","src/poseidon2/poseidon2_instance_*.rs"],
 [("state","vector of t field elements","permutation")],
 [("full/partial rounds, S-box, external and internal multiplication","src/poseidon2/poseidon2.rs"),("parameter preparation","src/poseidon2/poseidon2_params.rs")],
 ["Poseidon2::permutation"])
p("C02","Poseidon: optimised and plain evaluation equal the textbook permutation",
 "For every accepted parameter set (width >= 2, at least one partial round, d in {3,5,7}, even number of full rounds) and every state vector, both the optimised and the non-optimised Poseidon permutation return exactly the output of the textbook HADES permutation with dense MDS multiplication in every round. In particular the two entry points agree, for published and user-built parameters alike.",
 ["inputs","configurations"],"all state vectors, all accepted (field, t, d, R_F, R_P, MDS, constants), both entry points",
 "The tests compare the two entry points on five random inputs of published instances only; an error common to both, or one that needs a particular width, round count, MDS or input, is not seen.",
 ["src/poseidon/poseidon.rs","src/poseidon/poseidon_params.rs","src/poseidon/poseidon_instance_*.rs"],
 [("opt_round_constants, w_hat, v, m_i","precomputed equivalent of the partial rounds","src/poseidon/poseidon_params.rs")],
 [("cheap_matmul and moved constants","src/poseidon/poseidon.rs"),("equivalent_matrices / equivalent_round_constants","src/poseidon/poseidon_params.rs")],
 ["Poseidon::permutation","Poseidon::permutation_not_opt"])
p("C03","Precomputed constants and matrices preserve the function",
 "The public precomputation helpers are exact rewritings for every valid argument: Poseidon's equivalent round constants and sparse matrix factorisation, applied with the sparse multiplication, yield the same partial-round section as the original constants and MDS matrix, and Poseidon2's moved partial-round constants yield the same partial-round section as the original ones with the internal matrix. This holds for every width, number of partial rounds, MDS or internal matrix and constants over any prime field.",
 ["inputs","configurations"],"all valid (matrix, constants, R_P, beginning of the partial section), all states entering the partial rounds",
 "The helpers are only exercised through the published instances; matrices with zero pivots, odd round counts, tiny or large partial sections and other offsets are never tried.",
 ["src/poseidon/poseidon_params.rs","src/poseidon2/poseidon2_params.rs","src/utils.rs"],
 [("w_hat, v, m_i","sparse factors","PoseidonParams::equivalent_matrices")],
 [("equivalent_round_constants","src/poseidon/poseidon_params.rs"),("equivalent_matrices","src/poseidon/poseidon_params.rs"),("equivalent_round_constants","src/poseidon2/poseidon2_params.rs")],
 ["PoseidonParams::equivalent_round_constants","PoseidonParams::equivalent_matrices","Poseidon2Params::equivalent_round_constants"])
p("C04","GMiMC: both evaluations equal the specified Feistel network",
 "For every width, degree in {3,5,7}, number of rounds (at least one) and field, and for every state vector, both the optimised and the non-optimised GMiMC permutation return exactly the output of the expanding-round-function Feistel network with the set's own round constants (S-box of the first branch plus constant added to all others, then rotation, no rotation after the last round). In particular the two entry points agree.",
 ["inputs","configurations"],"all state vectors, all (field, t, d, rounds, constants), both entry points",
 "The tests compare the entry points on a few random inputs of published instances; the specification itself, rounds below or around the width, and special values are not tested at all.",
 ["src/gmimc/gmimc.rs","src/gmimc/gmimc_params.rs","src/gmimc/gmimc_instance_*.rs"],
 [("acc","accumulated S-box outputs of the last t-1 rounds","Gmimc::permutation")],
 [("accumulator with subtraction when a branch leaves the window","src/gmimc/gmimc.rs")],
 ["Gmimc::permutation","Gmimc::permutation_not_opt"],"round constants are drawn privately: cfg(verif_hooks) GmimcParams::verif_view")
p("C05","Neptune computes the specified permutation",
 "For every even width, degree, even number of external rounds, number of internal rounds and field, and for every state vector, the Neptune permutation returns exactly the output of the specified design with the set's own constants: external rounds built from pairwise quadratic Lai-Massey S-boxes, the even/odd interleaved external matrix, internal rounds with x^d on the first element and the 1+diag internal matrix, constants added after each round's linear layer, one external linear layer before the first round.",
 ["inputs","configurations"],"all state vectors, all (field, t, d, R_E, R_I, constants)",
 "The tests only check that equal inputs give equal outputs; no known answer and no model of Neptune exists in the repository.",
 ["src/neptune/neptune.rs","src/neptune/neptune_params.rs","src/neptune/neptune_instances.rs"],
 [("state","vector of t field elements","permutation")],
 [("external/internal S-box and matrices","src/neptune/neptune.rs"),("matrix and constant set-up","src/neptune/neptune_params.rs")],
 ["Neptune::permutation"],"constants are drawn privately: cfg(verif_hooks) NeptuneParams::verif_constants")
p("C06","Every permutation is a bijection",
 "With a degree coprime to p-1 and invertible linear layers, each of the four permutations maps the set of state vectors one-to-one onto itself: no two different inputs give the same output and every output has exactly the one preimage given by running the specified rounds backwards. This holds for all published sets and for user-built ones.",
 ["inputs","configurations"],"all pairs of state vectors, all sets with d coprime to p-1 and invertible layers",
 "Injectivity is a statement about all pairs of inputs; the tests compare at most one pair of random inputs.",
 ["src/poseidon2/poseidon2.rs","src/poseidon/poseidon.rs","src/gmimc/gmimc.rs","src/neptune/neptune.rs"],
 [("state","vector of t field elements","permutation")],
 [("invertible rounds","the four permutation functions")],
 ["permutation of all four families","permutation_not_opt"],"GMiMC and Neptune constants: cfg(verif_hooks)")
p("C07","Published constants are the ones the Grain generator derives",
 "The round constants of every published Poseidon and Poseidon2 set, and every published Poseidon2 internal diagonal and every Poseidon MDS matrix, are bit for bit the nothing-up-my-sleeve values: the Grain LFSR seeded with (field, S-box, field size, width, rounds) gives the round constants by rejection sampling, and the published linear layers are the designs' own. A user gets exactly these values from the shipped sets.",
 ["configurations"],"all 30 published sets, every constant, every matrix entry",
 "Known-answer tests exist only for some of the sets, so a wrong constant in the others, or a stale table, goes unnoticed.",
 ["src/poseidon/poseidon_instance_*.rs","src/poseidon2/poseidon2_instance_*.rs","src/fields/utils.rs"],
 [("RC*, MAT_DIAG*, MDS*","the published tables","instance files")],
 [("tables of hexadecimal constants","instance files")],
 ["POSEIDON*_PARAMS, POSEIDON2*_PARAMS (their use in the permutation, and Debug)"])
p("C08","Published sets have the documented shape and secure round numbers",
 "Each of the 85 published parameter sets has the field, width, S-box degree and round numbers its name and design rule say: d is the least of 3, 5, 7 coprime to p-1, Poseidon and Poseidon2 use 8 full rounds and the least secure number of partial rounds plus margin, GMiMC and Neptune the round numbers of their security formulas at 128 bits. The permutation of the set really performs that many rounds with as many constants, and the width getter reports the width.",
 ["configurations"],"all 85 published sets",
 "Round numbers are literals or formulas in instance files; the tests never look at them and pass with any number.",
 ["src/poseidon2/poseidon2_instance_*.rs","src/poseidon/poseidon_instance_*.rs","src/gmimc/gmimc_instance_*.rs","src/neptune/neptune_instances.rs"],
 [("t, d, rounds_f, rounds_p, rounds","shape of a set","*_params.rs")],
 [("instance tables and round formulas","instance files")],
 ["*_PARAMS","get_t"],"cfg(verif_hooks) GmimcParams::verif_view, NeptuneParams::verif_shape")
p("C09","Merkle root is the root of the padded binary tree, for all four trees",
 "For every non-empty sequence of leaves, each of the four Merkle trees (byte digest, prime field, Orchard, Sapling) returns the root of the full binary tree over the leaves padded by repeating the last leaf up to the next power of two (at least two leaves): every inner node is the hash of its left and right child in this order, at its own level where the hash takes one, and a single leaf is hashed with itself.",
 ["inputs"],"all leaf sequences of all lengths, all hash functions, all four trees",
 "The tests run a handful of set sizes with concrete hashes and compare a tree with itself; boundary sizes, order of children, levels and padding are not pinned down.",
 ["src/merkle_tree/merkle_tree_f2.rs","src/merkle_tree/merkle_tree_fp.rs","src/merkle_tree/merkle_tree_orchard.rs","src/merkle_tree/merkle_tree_sapling.rs"],
 [("level buffers","nodes of the level being folded","accumulate")],
 [("padding by duplicated last node and folding","accumulate")],
 ["MerkleTree::accumulate"])
p("C10","A Merkle tree object carries no state between calls",
 "Whatever was done before with a tree object or its clones - other sets of any size, rejected empty sets, a field, Orchard or Sapling hash function that panicked half way, in any order, from any thread, even from within the hash of another tree - accumulating a set returns the same root as on a fresh object. Cloning or default-constructing an object makes no difference.",
 ["histories","fault_sequences"],"all sequences of new/clone/accumulate/faulting accumulate on several objects",
 "The tests use one object for one or two calls; reuse after a failure or with sets of other sizes is not tested.",
 ["src/merkle_tree/*.rs"],[("hasher / hash function in the object","reused between calls","MerkleTree")],
 [("accumulate works on local buffers and resetting finalisation","src/merkle_tree/*.rs")],["MerkleTree::{new,default,clone,accumulate}"])
p("C11","Two-to-one compression of the shipped hashes is the truncated permutation",
 "For every pair of inputs, the shipped Merkle compression of Poseidon2, Poseidon and GMiMC (width 3) and Neptune (width 4) is the first element of the specified permutation applied to the two inputs followed by zeros, so that roots of the prime-field tree over these hashes are roots over that function. Both argument positions matter and none is dropped or swapped.",
 ["inputs","configurations"],"all pairs of field elements, all sets of the right width, all leaf sequences",
 "The tests run the trees with these hashes only for self-consistency; the compression function itself has no test.",
 ["src/poseidon2/poseidon2.rs","src/poseidon/poseidon.rs","src/gmimc/gmimc.rs","src/neptune/neptune.rs","src/merkle_tree/merkle_tree_fp.rs"],
 [("input vector","left, right, zeros","compress")],[("MerkleTreeHash implementations","src/*/*.rs")],["MerkleTreeHash::compress","MerkleTree::accumulate"])
p("C12","Invalid use is rejected, valid use is served",
 "A call outside its documented domain is rejected by panicking and never returns a value: state vectors of another length than the width, unsupported S-box degrees, odd numbers of full rounds, odd Neptune widths, an MDS matrix of the wrong height, unsupported Poseidon2 widths, round constants for fewer rounds than the set has, compression with another width, an empty leaf set, inverting a non-square matrix. Every call inside the domain returns.",
 ["inputs","configurations"],"all public entry points, all argument shapes",
 "The tests contain no misuse at all, and only a few shapes of valid use.",
 ["src/*/*_params.rs","src/*/*.rs","src/utils.rs","src/merkle_tree/*.rs"],[("t, d, rounds","shape being checked","constructors")],
 [("assertions in constructors and entry points","constructors, permutation, compress, accumulate, mat_inverse")],["constructors","permutation","compress","accumulate","mat_inverse"])
p("C13","Permutations are pure: no history, thread or clone changes a result",
 "The result of a permutation or compression is a function of the parameter set and the input alone: earlier calls, calls that panicked, clones, other objects over the same shared parameters, the entry point chosen, and any number of threads using the same objects at the same time leave it unchanged. The input vector is never modified.",
 ["histories","schedules"],"all call sequences on any number of objects and threads sharing parameters",
 "The tests call an object a few times in one thread; long histories, failures in between and concurrent use are not covered.",
 ["src/poseidon2/poseidon2.rs","src/poseidon/poseidon.rs","src/gmimc/gmimc.rs","src/neptune/neptune.rs"],[("params (Arc)","shared, immutable","hash objects")],
 [("&self methods over Arc'd immutable parameters","hash objects")],["permutation","permutation_not_opt"])
p("C14","A lazily built parameter set has one value per process under racing first use",
 "However many threads race to use a published parameter set first, in whatever order, all of them and all later users in the process see one and the same set, fully built, and none of them fails. The sets with fixed constants have the same value in every process.",
 ["schedules","histories"],"all interleavings of first uses of all 85 published sets",
 "Each test touches a set from one thread; racing first uses are not tested.",
 ["src/*/*_instance_*.rs"],[("*_PARAMS","lazily initialised statics","instance files")],[("lazy_static once-initialisation","instance files")],["*_PARAMS"],
 "GMiMC and Neptune constants: cfg(verif_hooks)")
p("C15","Matrix inverse, products and transpose are correct for every matrix",
 "For every invertible square matrix over any prime field, the public inverse returns the matrix whose product with the argument, on both sides, is the identity - whatever pivots are zero on the way - and a singular matrix yields no value. The public transpose returns, for every rectangular matrix, the matrix with rows and columns exchanged, and the public matrix-matrix and matrix-vector products are the mathematical products.",
 ["inputs"],"all matrices of all sizes over all prime fields",
 "The tests invert a few random matrices, where a zero pivot practically never occurs.",
 ["src/utils.rs","src/poseidon/poseidon_params.rs","src/poseidon2/poseidon2_params.rs"],[("mat","matrix being reduced","mat_inverse")],[("Gaussian elimination with row exchange","src/utils.rs")],["utils::mat_inverse","utils::mat_transpose","PoseidonParams::mat_vec_mul","PoseidonParams::mat_mat_mul","Poseidon2Params::mat_vec_mul"])
p("C16","Hexadecimal parsing yields exactly the written field element",
 "For every field and every string made of the two-character prefix and an even number of hexadecimal digits, in either case, of any length and with any leading zeros, parsing returns the field element whose value is the number written, reduced modulo the field's prime. A string with an odd number of digits or with any other character in it is rejected by panicking and never yields an element.",
 ["inputs"],"all strings, all fields",
 "Parsing is only exercised through the constant tables.",
 ["src/fields/utils.rs"],[("string","numeral","from_hex")],[("from_hex","src/fields/utils.rs")],["fields::utils::from_hex"])
p("C17","Random sampling is unbiased, canonical and fresh",
 "The random field element functions return canonical elements distributed uniformly over the whole field, respectively over the non-zero elements and never zero, and independently of each other. Parameter sets with drawn constants use as many fresh uniform constants as they need (non-zero where invertibility requires it), never repeated between sets or processes.",
 ["inputs","histories"],"all draws, all fields, all drawn parameter sets",
 "A distribution cannot be seen in a single draw; the tests do not look at one.",
 ["src/fields/utils.rs","src/gmimc/gmimc_params.rs","src/neptune/neptune_params.rs"],[("rng","thread-local generator","random_scalar")],
 [("random_scalar, random_scalar_without_0","src/fields/utils.rs")],["fields::utils::random_scalar","fields::utils::random_scalar_without_0","GmimcParams::new","NeptuneParams::new"],
 "drawn constants: cfg(verif_hooks)")
p("C18","The shipped fields are the fields their names say",
 "Each of the six shipped fields has the modulus of the curve or construction it is named after, the stated generator is a primitive root and the derived two-adic constants fit it, and arithmetic, conversion and byte conversion behave as in the integers modulo that prime for all operands.",
 ["inputs","configurations"],"all six fields, all operands",
 "The field tests do not pin the modulus or the generator, and arithmetic is tested on few values.",
 ["src/fields/*.rs"],[("MODULUS, GENERATOR","field configuration","src/fields")],[("MontConfig derivations","src/fields/*.rs")],["ark_ff::PrimeField/FftField of the six types"])
p("C19","Merkle roots bind the leaves",
 "With a collision-free hash, two leaf sequences of the same length have the same root exactly when they are equal, and two sequences of different length have the same root exactly when both pad to the same full sequence; with the level-aware trees and hashes, no other pairs collide. No leaf of a set is ignored.",
 ["inputs"],"all pairs of leaf sequences, all four trees",
 "A statement about all pairs of sets; the tests compare a handful of pairs.",
 ["src/merkle_tree/*.rs"],[("level buffers","nodes of the level being folded","accumulate")],[("folding every pair of nodes exactly once","accumulate")],["MerkleTree::accumulate"])
p("C20","Published linear layers diffuse as the designs require",
 "The linear layers of the published sets, as the permutations apply them, have the strength the designs are built on. Every Poseidon matrix is maximum distance separable and invertible. Poseidon2's external layer is invertible and, up to width 4 and in every 4x4 block beyond, maximum distance separable; its internal layer is invertible, is all ones plus the published diagonal, admits no infinitely long subspace trail through the internal rounds, and from width 4 on has, with all its powers up to twice the width, an irreducible minimal polynomial of full degree. Neptune's external matrix consists of two interleaved invertible blocks, maximum distance separable for widths 4 and 8, and its internal matrix is invertible.",
 ["configurations"],"all 42 published Poseidon, Poseidon2 and Neptune sets, every power and submatrix concerned",
 "The tests only evaluate permutations; a matrix with an invariant subspace or a singular block evaluates just as well.",
 ["src/poseidon2/poseidon2.rs","src/poseidon2/poseidon2_instance_*.rs","src/poseidon/poseidon_instance_*.rs","src/neptune/neptune_params.rs","poseidon2_rust_params.sage"],
 [("MAT_DIAG*, MAT_INTERNAL*, MDS*, m_e, mu","matrices of the linear layers","instance files, NeptuneParams")],
 [("matmul_external, matmul_internal, matmul","permutations"),("matrix set-up","NeptuneParams::instantiate_external_matrix, instantiate_mu")],
 ["Poseidon2::permutation","Poseidon::permutation_not_opt","*_PARAMS"],"Neptune matrices: cfg(verif_hooks) NeptuneParams::verif_constants")
open('/verif/properties.jsonl','w').write("\n".join(json.dumps(x) for x in P)+"\n")
