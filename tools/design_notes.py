NOTES = {
 "P01": "Oracle: counting. The digest is an uninterpreted function of its message; uniformity is proved by showing that the accepted words map onto residues with equal pre-image sizes (bit-vector arithmetic over all 2**64 words), key separation by showing that equal messages imply equal keys, thresholds by comparing with exact rationals.",
 "P02": "Oracle: a ghost multiset of offered items; conservation, capacity, byte budget and readiness are asserted after each operation, and every save/restore point is compared with the uninterrupted run under the same slot choices.",
 "P04": "Oracle: the specification recomputes from the source stream alone which record belongs to which rank, step and shape; the planners of all ranks run on the same symbolic stream.",
 "P05": "Oracle: the uninterrupted run. Crash point, prefetch depth, commit pattern and tampered field are symbolic choices; the resumed suffix must equal the reference suffix, refused operations must leave `state_dict` unchanged.",
 "P06": "Oracle: synchronous delivery of the same plan; which future runs when, which job fails and where the consumer closes are symbolic choices.",
 "P07": "Oracle: per-file lists of entries; a reference rotation computes the expected interleaving; cursors are cut at every position.",
 "P08": "Oracle: the physical table (file, address, row) -> identity, computed in the harness from the symbolic index arrays; permutation property by pairwise distinctness.",
 "P09": "Oracle: the ratio law (each prefix of a cycle within one of its share, exact over a cycle) and per-child streams.",
 "P10": "Oracle: ghost list of committed indices; `randperm` is a free permutation; histories are sequences of symbolic operations.",
 "P11": "Oracle: the documented bit layout, decoded a second time in the harness from the same symbolic bytes; chunk boundaries of reads are symbolic.",
 "P12": "Oracle: an independent reconstruction of the position (move parity, side, symmetry map, evaluation sign) as cell-wise formulas.",
 "P13": "Oracle: the documented coordinate maps of the eight symmetries; group laws for all coordinates by bit-vector reasoning, arrays cell by cell.",
 "P14": "Oracle: cell-wise specification of transform and padding, and equality of batched and single processing.",
 "P15": "Oracle: the stored arrays, indexed directly by (file, row); each decoding path is compared with it, including the key handed to the symmetry draw.",
 "P16": "Oracle: a reference LRU with the same limits run next to the real cache; the concurrent loader is simulated inside the wait call.",
 "P19": "Oracle: the pooled value computed from the union of parts as rationals; commutativity/associativity by comparing all groupings.",
 "P20": "Oracle: an independent evaluator of the grammar over exact reals / 32-bit ints for meaning; for refusal every expression node type of Python's `ast` is put in every position.",
 "P24": "Oracle: the laws of the logistic curve with exp axiomatised (positive, strictly increasing, exp(-x)=1/exp(x)).",
 "P33": "Oracle: a row-by-row formula of each loss written with scalar operations (`symx/sreal.py`); pooling over rows gives the expected value of training terms and of finalised statistics. exp/log/sigmoid/log-sum-exp are uninterpreted, so the proof is independent of their numerics. Gradients are those autograd computes symbolically.",
 "P34": "Oracle: rank of a cell = number of larger on-board cells; means over real rows; maxima by bounding and attainment.",
 "P38": "Oracle: the statistics of all batches of all ranks pooled in the harness; the ranks run the real code in lock step over stand-in collectives, a deadlock is a state in which ranks wait at different collectives. Failure point, rank and kind are symbolic choices.",
 "P32": "Oracle: element-wise AdamW, Muon (Newton-Schulz as a polynomial) and SGD with momentum in exact arithmetic. The Triton kernel's own Python body is executed per program id on a stand-in memory with a stream that may lag behind the host, so stale pointer tables, missing synchronisation and wrong layouts become wrong values.",
 "P36": "The real layers run on tensors of symbolic reals; results are compared as canonical polynomials over rounding and clamping terms with an integer specification written per element, and the rounding terms themselves are decided by the solver.",
 "P40": "The real modules run on tensors and parameters of symbolic reals; results are compared with per-cell definitions as canonical polynomials, and padded with unpadded evaluations of the same network.",
 "P28": "The real training loop runs on symbolic parameters and data over a scratch directory whose effects are numbered; the number at which the process dies is a symbolic integer. A second process then resumes and the solver compares its results with the uninterrupted run's.",
 "P29": "The real writer runs over a model of CUDA streams in which every device operation's execution time is a symbolic integer bounded only by stream, event and host order; what a file contains is a formula over those times.",
 "P30": "The real run loop and step run over symbolic parameters and data with 1-2 lock-step ranks; the iteration of the fault is a symbolic integer. The late readback runs on the CUDA scheduling model with symbolic execution times.",
 "P18": "The codec runs on symbolic leaves; json texts are interned trees whose equality the solver decides, hex strings stay symbolic.",
 "P37": "The real composer runs stub pipelines whose misbehaviour has a symbolic index and value; the digest comparison becomes a comparison of symbolic byte strings.",
 "P03": "The C++ source is compiled to LLVM IR (clang, stand-in pybind11 headers) and the IR executed symbolically next to a Python specification of the reservoir; multiplications of the generator are unknown functions shared by both. Replays use the real extension built from the same source.",
 "P22": "The C++ source is compiled to LLVM IR (clang, stand-in pybind11 headers) and executed on boards whose stones are symbolic; every point's flag is compared with a statement of the rule written apart from the code. Out-of-bounds accesses, undefined shifts and failed assertions are violations too.",
 "P23": "The C++ source is compiled to LLVM IR and executed with symbolic stones; table look-ups become case distinctions inside the formula, so the codes of a whole board are single expressions compared with the documented base-3 code.",
}
