BOUND = "Holds for all values within the stated bounds on every path of the code; sizes and unrollings outside them are not covered. Trusts Z3, the symbolic executor's model of Python/NumPy (each run replays models of covered paths against the uninstrumented code) and the stubs named in the check's assumptions."

prop("P01", "Random draws are exactly uniform and depend only on their declared key",
     "Every index draw, permutation and admission decision of the data pipeline is a function of its declared key (seed, epoch, identity, counter) alone, takes each allowed value for equally many hash words, and consumes exactly the counters it reports. Admission at a lower rate admits a subset of the records admitted at a higher rate, and rates 0 and 1 admit nothing and everything.",
     ["inputs"], "all 64-bit seeds, keys, counters and every hash output; all listed and small ranges n", "A test compares a few seeds; bias, counter reuse or key collisions exist only over the whole key and hash space. No existing test imports this code.",
     ["dataset/core.py"], [("uniform_below", "dataset/core.py"), ("deterministic_permutation", "dataset/core.py"), ("sample_is_admitted", "dataset/core.py"), ("rng_digest", "dataset/core.py")], BOUND)
prop("P02", "The streaming shuffle delivers every record exactly once and resumes exactly",
     "For any sequence of offered records, window capacity and byte budget, the streaming shuffle eventually delivers each record exactly once, never holds more than its capacity or byte budget allows, and never delivers before it is full or draining. A shuffle restored from saved state at any moment continues with exactly the records and order of the uninterrupted run, and inconsistent saved state is refused.",
     ["histories", "inputs", "crash_points"], "every stream of record sizes, every slot choice, every save point", "Needs all interleavings of offers, drains and saves with arbitrary random choices; no test touches the shuffle.",
     ["dataset/shuffle.py", "dataset/packed.py"], [("StreamingShuffleReservoir", "dataset/shuffle.py"), ("PackedStreamingReservoir", "dataset/packed.py")], BOUND)
prop("P04", "Batches partition the record stream across ranks and steps",
     "In every epoch the batches of all ranks together contain the admitted records exactly once in one common global order, grouped by board shape, with the configured local size on every rank and the same number of batches on every rank. Training epochs of a fixed step count yield exactly that many full batches; evaluation epochs pad only the last batch of a shape, mark the padding, and never drop a record.",
     ["inputs", "configurations", "histories"], "all record/shape sequences, batch sizes, world sizes, step counts and shuffle choices within bounds", "Distributed partitioning depends on the joint behaviour of all ranks for every stream length and shape pattern; no test builds a planner.",
     ["dataset/planner.py"], [("DatasetPlanner.next_batch", "dataset/planner.py")], BOUND)
prop("P05", "Batch transactions make a crash at any step resume exactly",
     "Whatever sequence of deliver, commit, abandon, save and restore occurs, training resumed from a checkpoint continues with exactly the batches the uninterrupted run would have delivered after the last committed one. Out-of-order, foreign, stale or tampered commits and checkpoints of another dataset, seed, batch size, world or pipeline are refused without changing state.",
     ["crash_points", "histories", "fault_sequences"], "every crash point and transaction history within bounds", "The number of interleavings of prefetch, commit and crash is beyond sampling and no test exercises it.",
     ["dataset/planner.py", "dataset/core.py"], [("commit/state_dict/load_state_dict", "dataset/planner.py")], BOUND)
prop("P06", "Prefetched and asynchronous delivery equals synchronous delivery",
     "Batches delivered through prefetching or worker threads are the same batches, in the same order and with the same transaction tokens, as synchronous delivery, for every completion order of the workers. Errors surface at the position where they happened, nothing is delivered after them, closing never loses committed progress, and the number of batches in flight stays within the configured limit.",
     ["schedules", "fault_sequences"], "every completion order, failure position and close point within bounds", "Thread schedules cannot be enumerated by a test run; no test uses the prefetcher.",
     ["dataset/source_dataset.py", "dataset/decoder.py", "dataset/stream.py"], [("SourceBatchDataset", "dataset/source_dataset.py")], BOUND)
prop("P07", "Sequential files are read completely, fairly and resumably",
     "Interleaved reading of sequential files delivers every admitted entry (and every sub-record of it) exactly once per epoch, keeps each file's own order, rotates between open files by the configured quantum and never opens more files than configured. Rank shards partition the files and are balanced; a cursor saved at any point resumes to the identical remaining stream; damaged cursors and truncated files are reported, never silently skipped.",
     ["inputs", "crash_points", "histories"], "all file contents, counts, quanta and cut points within bounds", "Depends on every combination of file lengths, skips and cut positions; no test reads a file through it.",
     ["dataset/sequential_source.py"], [("InterleavedSequentialSource", "dataset/sequential_source.py")], BOUND)
prop("P09", "Dataset mixing keeps the configured ratio and every record's identity",
     "A mixture of datasets interleaves its children in exactly the configured integer ratio, evenly within each cycle, whatever chunk sizes are requested; with synchronised length it stops before the first incomplete cycle, otherwise it delivers every child record exactly once. Rows, shapes and identities stay with the child they came from, cursors resume exactly from any point, and inconsistent cursors, ratios or incompatible children are refused.",
     ["inputs", "configurations", "crash_points"], "all child lengths, weights, chunk limits and cut points within bounds", "Ratio and resume correctness quantify over all lengths, weights and cut points; no test builds a mixture.",
     ["dataset/composite_source.py", "dataset/__init__.py"], [("CompositeRecordSource", "dataset/composite_source.py"), ("MultiIterativeDataset", "dataset/__init__.py")], BOUND)
prop("P08", "Row-table sources address every logical row once, with its true identity",
     "Every logical row of the NPZ files is addressable exactly once per epoch and carries the file, address, board size and content identity of the physical row it stands for, whether rows are listed densely or through an index. Shuffled epochs are permutations, sampled epochs are the admitted subset, rank shards partition the rows, cursors resume exactly, and catalogs or cursors that do not match the files are refused.",
     ["inputs", "configurations", "crash_points"], "all row counts, index tables, file orders and cut points within bounds", "Address arithmetic and resume correctness quantify over every table and cut point; no test builds an NPZ source.",
     ["dataset/npz_source.py"], [("DenseNpzSource", "dataset/npz_source.py"), ("IndexedNpzSource", "dataset/npz_source.py")], BOUND)
prop("P10", "The resumable sampler resumes at the last committed batch and shares fairly",
     "Across ranks an epoch of the map-style sampler draws each record at most once and every rank draws the same number. Whatever sequence of staging, commit, rollback, epoch change and crash occurs, a restored or rolled-back sampler continues exactly after the last committed batch; out-of-order or repeated commits and checkpoints of another dataset, seed, order or rank are refused without changing state.",
     ["histories", "crash_points", "inputs"], "any dataset length, any batch sizes, every history within bounds", "Requires every interleaving of read-ahead, commit and crash; no test uses the sampler.",
     ["utils/training_utils.py"], [("ResumableSampler", "utils/training_utils.py")], BOUND)
prop("P11", "Recorded games decode to exactly what was written",
     "Reading a binary game file yields exactly the records it holds, field for field, bit for bit, whatever chunks the file is read in and whatever the moves, evaluations, variations and sizes are. Moves keep their coordinates through packing, records split into sub-records cover each move exactly once, and truncated or malformed records are reported rather than decoded as something else.",
     ["inputs", "configurations"], "every byte content of the records and every read split within bounds", "The format packs many values into bit fields; errors show only for particular coordinates, counts or read boundaries. No test reads a binary file.",
     ["dataset/packed_binary.py", "dataset/simple_binary.py", "utils/data_utils.py"], [("PackedBinaryDataset", "dataset/packed_binary.py"), ("SimpleBinaryDataset", "dataset/simple_binary.py")], BOUND)
prop("P12", "A training sample describes its recorded position from the mover's view",
     "For every recorded game and ply, the sample holds the stones of exactly the moves played before it, own stones and opponent stones from the side to move's view, the value and policy targets of that ply's evaluation and moves, and the same position under any drawn board symmetry and padding. Filters skip exactly the plies they name, passes are handled as configured, and no sample mixes values of another ply or side.",
     ["inputs", "configurations"], "all openings, moves, evaluations, passes, symmetries and filter settings within bounds", "Side, ply parity, symmetry and padding interact; only particular combinations show an error. No test builds a sample from a game.",
     ["dataset/packed_binary.py", "dataset/simple_binary.py"], [("PackedBinaryDataset", "dataset/packed_binary.py"), ("SimpleBinaryDataset", "dataset/simple_binary.py")], BOUND)
prop("P13", "Board symmetries are consistent, reversible re-labelings",
     "Each of the eight symmetries maps moves, stone boards and policy arrays to the same documented place on every board size: transforming then reading equals reading then transforming, no cell is lost or duplicated, and each symmetry is undone by exactly one other. Only symmetries that keep the board shape are offered or accepted on non-square boards, passes are kept, and the symmetry drawn for a record is a uniform function of its key.",
     ["inputs", "configurations"], "all eight symmetries, all board sizes and coordinates below 2**20, arrays up to 5x5 with arbitrary contents", "A sample position can be symmetric or square; the correspondence of moves, boards and policies must hold for every cell of every shape. No test uses a symmetry.",
     ["utils/data_utils.py"], [("Symmetry", "utils/data_utils.py")], BOUND)
prop("P14", "Post-processing keeps every field of a sample describing the same position",
     "Transforming or padding a sample or a batch moves board, policy and move fields together, keeps all other fields unchanged, keeps padding to the right and below the board, and never changes its input. Processing a batch gives exactly the rows that processing each sample alone gives, and samples whose fields do not fit together are refused.",
     ["inputs", "configurations"], "all contents of boards and policies, padding amounts and symmetries for the listed shapes", "Padding, symmetry and batching interact per shape and field; errors show only for non-square, padded or mixed cases. No test runs post-processing.",
     ["utils/data_utils.py"], [("post_process_data", "utils/data_utils.py"), ("process_batch", "utils/data_utils.py")], BOUND)
prop("P15", "Every decoding path of an NPZ row yields the same, stored row",
     "Reading one row, a batch, a chunk of batches or a packed batch gives, for every reference in its own position, exactly the stored row of the referenced file: side, symmetry drawn from the row's own key, policy with or without pass, padding and types alike. Filters and channel options keep exactly what they name, stored arrays are mapped at their own place, the cached files are never modified, and rows or files that do not fit are refused.",
     ["inputs", "configurations"], "all file contents, sides, symmetry draws and archive offsets; file counts, batch sizes and board shapes within bounds", "Four code paths must agree for every combination of files, order, side and symmetry; no test decodes a row.",
     ["dataset/decoder.py", "dataset/npz_source.py"], [("ProcessedNpzDecoder", "dataset/decoder.py"), ("NpzRowRecordDecoder", "dataset/decoder.py")], BOUND)
prop("P16", "The decoded-file cache returns the right file and respects its limits",
     "Every request receives the arrays of the file it names, for any sequence of requests, limits and failures. The cache keeps the most recently used files within its entry, byte and mapped-file limits, reports its content truthfully, loads a file once even when several workers ask for it, reports failed loads without remembering them, and never leaves a waiting worker stuck.",
     ["histories", "configurations", "fault_sequences"], "all request histories, file sizes, limits and load failures within bounds", "Eviction order and concurrent loading depend on histories and timing that a test samples only once; no test uses the cache.",
     ["dataset/decoder.py"], [("_load", "dataset/decoder.py"), ("_evict_array_cache", "dataset/decoder.py")], BOUND)
prop("P20", "Filter expressions mean what they say and can do nothing else",
     "A filter expression selects exactly the rows for which the written comparison, arithmetic, logic and indexing holds, for any data. Anything outside the documented grammar - other names, attributes, calls, literals, index forms or result shapes - is refused wherever it stands, and the limits on text, nodes, depth, literals and intermediate size hold exactly, so no expression can reach files, modules or unbounded memory.",
     ["inputs"], "all contents of the arrays; all expressions of the bounded grammar; every Python construct in every listed place", "Safety is a statement about every expression; meaning is about every array. No test evaluates a filter.",
     ["dataset/filter.py"], [("SafeFilterEvaluator", "dataset/filter.py")], BOUND)
prop("P24", "Evaluations convert to a consistent win, loss and draw distribution",
     "For every evaluation, scale and mate threshold the win rate is the logistic curve of the evaluation, exactly 1 or 0 from the mate threshold on unless soft mates are chosen, never decreases with a better evaluation, and win, loss and draw are non-negative, sum to one and swap when the side changes.",
     ["inputs", "configurations"], "all integer evaluations and thresholds below 2**31", "Symmetry, monotonicity and the exact thresholds are statements about all evaluations; no test uses the model.",
     ["utils/winrate_model.py"], [("WinrateModel", "utils/winrate_model.py")], BOUND)
prop("P19", "Evaluation statistics merge exactly, in any grouping and order",
     "Partial evaluation statistics combined in any order and grouping finalise to exactly the value of the pooled rows: sums with counts, maxima, mean squares, replicated constants, vector-quantiser terms and composed totals alike. Empty parts change nothing; parts of another kind, scope, shape or configuration, negative counts and incomplete or unknown schemas are refused rather than blended.",
     ["inputs", "configurations"], "any real sums, any counts within bounds, every pair of incompatible parts listed", "Exactness under every split of the evaluation set is a statement about all partitions; the tests average a handful of batches.",
     ["dataset/core.py"], [("SumCount", "dataset/core.py"), ("SufficientStats", "dataset/core.py")], BOUND)
prop("P33", "Training and validation losses are the documented loss of the real rows",
     "For every loss type and option - masks, forbidden points, focal weighting, regularisation, distillation, auxiliary heads - the training loss and each reported term equal the documented per-row formula averaged over the real rows, and validation statistics pooled over any split of the rows equal the same value. Padded rows and cells outside the board have no influence and receive no gradient, an all-padding batch contributes nothing, and malformed inputs are refused.",
     ["inputs", "configurations"], "all logits, targets, weights, temperatures; masks and option sets within bounds", "Options interact (masking with distillation, forbidden points, auxiliary heads) and training and validation use separate code; the tests fix one configuration.",
     ["trainer/loss/supervised.py", "trainer/loss/utils.py", "utils/training_utils.py"], [("compute_supervised_losses", "trainer/loss/supervised.py"), ("compute_supervised_loss_statistics", "trainer/loss/supervised.py")], BOUND)
prop("P34", "Test metrics count exactly the real rows",
     "Best-move and top-k accuracies, win and draw rate accuracies and errors, and cross-evaluation errors equal their definition averaged over the real rows, with cells outside the board never counted as moves. The result does not depend on how rows are split into batches or on padding, a batch of padding contributes nothing, and malformed padding flags are refused.",
     ["inputs", "configurations"], "all logits, values and targets; rows, cells and masks within bounds", "Averages over uneven and padded batches and rank comparisons depend on every value order; no test computes these metrics.",
     ["trainer/metric/supervised.py"], [("compute_supervised_metric_statistics", "trainer/metric/supervised.py")], BOUND)
prop("P38", "Distributed evaluation reports the pooled result and never hangs",
     "Validation and test over any number of ranks, with evenly planned or unevenly sharded batches, report exactly the statistics of all evaluated batches pooled together: sums over counts, maxima of contributing values, code usage counted once per batch, and the true number of entries. A batch limit counts exactly the batches below it. A failure, a divergent statistic schema or an empty evaluation on any rank is reported on every rank, and no rank is ever left waiting.",
     ["schedules", "fault_sequences", "inputs"], "any statistics and counts; ranks, batches per rank, failure points within bounds", "Uneven shards, idle ranks and failures in the middle of collectives only occur in multi-process runs; the tests run one process.",
     ["trainer/base.py", "dataset/core.py"], [("BaseTrainer._validate", "trainer/base.py"), ("BaseTrainer.test", "trainer/base.py")], BOUND)
prop("P32", "Optimizer steps are the documented updates on exactly the right parameters",
     "Every optimizer step is the documented AdamW, Muon or SGD update of exactly the parameters that have a gradient, with the bias correction of each parameter's own step count, whatever memory the gradients live in, however late the device runs, and across checkpoint reloads, added groups and changed learning rates. Matrices go to Muon and everything else to AdamW with the configured settings. Gradient clipping scales by min(1, max/norm), weight clipping bounds the effective weight, and schedules give the documented rate at every iteration.",
     ["inputs", "histories", "schedules"], "all parameter, gradient and hyper-parameter values; gradient patterns, memory reuse and steps within bounds", "Stale pointers, step counters and reloads only go wrong for particular histories of missing or moved gradients; the tests train a few fixed steps.",
     ["utils/fused_adamw.py", "utils/muon.py", "utils/chained_optimizer.py", "utils/training_utils.py"], [("MultiTensorAdamW", "utils/fused_adamw.py"), ("Muon", "utils/muon.py"), ("ChainedOptimizer", "utils/chained_optimizer.py")], BOUND)
prop("P36", "Quantised layers compute exactly the integer arithmetic the engine runs",
     "Fake-quantised linear, convolution, per-product depth-wise, star, PReLU, region-sum and averaging layers, and the policy and value heads built from them, output exactly what integer arithmetic with the configured scales, bit widths, rounding and saturation produces, in training and in inference alike. Gradients pass straight through where nothing saturates, and the shortcut gradient of the depth-wise layer is used only when no product can saturate. Boards are split into nine symmetric regions covering every cell once.",
     ["inputs", "configurations"], "all real inputs, weights and biases in range; listed scales, bit widths, kernels, strides and board sizes", "Off-by-one rounding, saturation and region boundaries only show for particular values and sizes; the equivalence test compares whole models on a few random boards.",
     ["utils/quant_utils.py", "model/ops/quantized.py", "model/ops/aggregation.py", "model/layers/convolution.py", "model/mixnet_components.py"], [("fake_quant", "utils/quant_utils.py"), ("Conv2dBlock", "model/layers/convolution.py"), ("QuantizedHeadMixin", "model/mixnet_components.py")], BOUND)
prop("P40", "Layers, masks and input planes compute their documented function",
     "Directional convolutions apply their taps along the documented board lines whatever the layout, so each mapped feature depends on exactly the cells of its line. Masked normalisation uses the real cells only, in training, running statistics, evaluation and gradient; masks shrink with the board; and padding a board never changes the network's outputs on its real cells. Activations, layer norm, hash and pattern embeddings, input planes and the output head equal their definition, and codes outside a table are refused.",
     ["inputs", "configurations"], "all inputs, parameters, statistics and incoming gradients; masks, boards, layouts and options within bounds", "Masks, board borders and optional layouts interact; tests compare two implementations on random full boards, so an error shared by both, or only on padded boards, goes unseen.",
     ["model/layers/directional.py", "model/layers/normalization.py", "model/layers/convolution.py", "model/input.py", "model/resnet.py"], [("DirectionalConvLayer", "model/layers/directional.py"), ("MaskNorm", "model/layers/normalization.py"), ("MaskedInputPlane", "model/input.py")], BOUND)
prop("P28", "A crash at any moment loses nothing committed; resuming changes nothing",
     "Whatever file operation a training run dies or fails at, restarting it finds the newest committed training state with all its model files and runtime sidecars whole, continues from exactly that iteration, and ends with the same weights, optimizer moments, schedule, counters, data position and random draws as a run that was never interrupted. Files bearing a checkpoint name are always complete; a committed iteration is never rewritten; pruning keeps the configured number of states and every permanent snapshot; and a checkpoint that does not fit the run, or is damaged, is refused.",
     ["crash points", "inputs", "configurations"], "all parameters and training data; one crash or failed write at any file-system effect of the run; save schedules within bounds", "A checkpoint is many file operations; a wrong order or a missing rename only shows if the process dies in one particular window, which no test hits.",
     ["trainer/base.py", "utils/file_utils.py"], [("BaseTrainer._save_checkpoint", "trainer/base.py"), ("BaseTrainer._load_state_checkpoint", "trainer/base.py"), ("BaseTrainer._cleanup_checkpoints", "trainer/base.py"), ("save_torch_ckpt", "utils/file_utils.py")], BOUND)
prop("P29", "Background checkpoints hold the values at the save, in order, no failure lost",
     "A checkpoint handed to the background writer is written with exactly the values its tensors had at the save, however device work and threads interleave and whatever training does next; the save changes neither the live tensors nor what training computes. Tensors shared between payloads stay shared, and structure, shapes and dtypes are kept. Files are committed one after another in the order given, pruning runs only after all of them, two saves never overlap, and a failed write stops the rest and is raised exactly once, at the next save or flush - or at once when the save is synchronous (CPU, disabled, or no memory for a snapshot).",
     ["interleavings", "inputs", "fault schedules"], "all execution times of device operations consistent with stream and event order; all tensor values; a failure at any file, the pruning hook or any snapshot allocation", "The wrong values reach the file only under particular timings of the copy stream and the training stream, on a GPU the tests do not have.",
     ["utils/async_checkpoint.py"], [("AsyncCheckpointWriter.submit", "utils/async_checkpoint.py"), ("AsyncCheckpointWriter._write", "utils/async_checkpoint.py"), ("AsyncCheckpointWriter.flush", "utils/async_checkpoint.py")], BOUND)
prop("P30", "A training step either counts on every rank or on none, and bad values stop it",
     "A non-finite loss, metric or gradient at any iteration stops the run before that iteration is validated or committed to a checkpoint and within one further step, naming the iteration. A failure on any one rank - in a hook, the forward pass, the optimizer, the data loader, a malformed or differing metric, a differing data token - stops every rank together with no rank left waiting; before the optimizer has moved, weights, counters and data position are those of the last good step, and only batches of good steps are ever marked consumed. One iteration makes exactly one optimizer step on the mean gradient of all its micro-batches and ranks, gradient clipping gives at most the configured norm in the same direction, and reported metrics are means over the micro-batches, all ranks and every iteration since the last report.",
     ["inputs", "fault schedules", "interleavings", "configurations"], "all parameters, data and losses; any faulty iteration, micro-step and rank; interval settings; all device copy timings, within bounds", "Faults at a particular step on a particular rank, and results that arrive a step late from the GPU, are schedules a test does not produce; getting one wrong hangs a cluster or commits a poisoned checkpoint.",
     ["trainer/base.py", "utils/training_utils.py", "utils/misc_utils.py"], [("BaseTrainer._run_train_step", "trainer/base.py"), ("BaseTrainer._synchronize_step_validity", "trainer/base.py"), ("BaseTrainer._drain_pending_step_validity", "trainer/base.py"), ("BaseTrainer._fetch_batch", "trainer/base.py"), ("clip_grad_norm", "utils/training_utils.py")], BOUND)
prop("P18", "Pipeline state encodes to one canonical text and decodes to the same value",
     "Every pipeline state that can be represented - None, booleans, 64-bit integers, finite floats including minus zero, strings, bytes, sequences, string-keyed dictionaries and dense CPU tensors of every supported dtype and shape, including empty, non-contiguous and NaN-carrying ones - decodes from its canonical bytes to exactly the same value (sequences as tuples), bit for bit. Equal states have equal bytes whatever the dictionary order or container type, different states have different bytes, and values that cannot be represented and texts that are not in canonical form are refused.",
     ["inputs"], "all integers, reals, byte strings and tensor contents in trees within bounds", "Resume digests, worker messages and commit chains compare these bytes; one colliding or lossy value silently resumes the wrong state.",
     ["dataset/core.py"], [("_canonical_pipeline_value", "dataset/core.py"), ("_decode_pipeline_value", "dataset/core.py"), ("decode_canonical_pipeline_state", "dataset/core.py")], BOUND)
prop("P37", "A batch pipeline can add only what it declares and change nothing else",
     "Composed batch pipelines run in order and each sees the fields and keys of the batch and the state its predecessor batch left. A pipeline that changes any element of a field it was given - in place or by replacement, in arrays, tensors, lists or nested dictionaries - or overwrites, removes or adds an undeclared field, returns the wrong shape, dtype or type, alters its own configuration or its input state, is refused, and an honest one never is. The composite state is reproducible from any earlier batch and is refused by a different pipeline list; every field is accepted exactly when it meets its declaration.",
     ["inputs", "histories", "configurations"], "all field contents and states; any changed index and value; any replayed batch, within bounds", "An undeclared change to one element of one batch corrupts training data silently; no test enumerates which element.",
     ["dataset/core.py"], [("PipelineStateComposer.prepare_batch", "dataset/core.py"), ("PipelineStateComposer._validate_fields", "dataset/core.py"), ("PipelineStateComposer._field_value_digest", "dataset/core.py")], BOUND)
prop("P03", "The native reservoir is the Python reservoir",
     "The C++ reservoir used for packed record identifiers emits exactly the records, in exactly the order and with exactly the counters and generator position, that the Python reservoir would for the same seed, epoch, stream and offers, whatever the identifiers; it offers a block wholly or not at all, drains every held record once, and its saved state continues identically. A state that is inconsistent or of another run, a drain order that is no permutation, and records it cannot represent are refused and leave it unchanged.",
     ["inputs", "schedules"], "every 64-bit identifier, generator base and counter; capacity up to 5, up to 7 records, any split with or without save and restore", "The tests compare a handful of seeds; a generator or accounting difference shows only for particular draws, positions or restored states.",
     ["dataset/planner_cpp/packed_shuffle.cpp", "dataset/packed.py"], [("PackedUInt64Reservoir", "dataset/planner_cpp/packed_shuffle.cpp"), ("PackedUInt64ShuffleReservoir", "dataset/packed.py")], BOUND)
prop("P22", "Forbidden points are exactly renju's",
     "The forbidden-point flags given to training mark exactly the empty points where a black move is forbidden: one that makes no exact five but makes six or more in a row, two fours, or two threes, where a three counts only if the move that would turn it into a straight four is itself legal. This holds in all four directions, next to walls and white stones, for either side to move and in batches, up to the largest board; the board is never changed and memory is never read or written out of bounds; boards and outputs it cannot handle are refused.",
     ["inputs", "configurations"], "every placement of black stones on a line of 10 cells (11 thorough), with white stones on 7 (8, 9), two crossing lines of named shapes and arbitrary stones, threes whose extension is itself symbolic", "Renju legality is recursive and positional; tests hold a few positions, while a wrong bound or a missing condition shows only in particular shapes.",
     ["dataset/pipeline/forbidden_point_cpp/board.cpp", "dataset/pipeline/forbidden_point_cpp/forbidden_point.cpp", "dataset/pipeline/forbidden_point.py"], [("Board::isForbidden", "dataset/pipeline/forbidden_point_cpp/board.cpp"), ("transform_board_to_forbidden_point", "dataset/pipeline/forbidden_point_cpp/forbidden_point.cpp"), ("ForbiddenPointPipeline", "dataset/pipeline/forbidden_point.py")], BOUND)
prop("P23", "Line encodings identify every window of the board",
     "For every board, position and direction the line code is the one number that stands for the window's stones and wall distances: different windows have different codes below the announced total, the usage flags mark exactly the codes that can occur, and single boards, batches and lines give the same codes, compact or raw, up to the largest board the length permits. Lengths, boards, shapes and value ranges it cannot encode are refused, memory is never accessed out of bounds, and other fields are untouched.",
     ["inputs", "configurations"], "all stones on up to four cells of a row, column, diagonal or scattered, line lengths 1..17 (compact) and 1..15 (raw); every pair of windows up to length 7 (9 thorough)", "Embedding tables and exported networks index by these codes; a wrong wall code or direction affects only windows near particular edges, which tests sample.",
     ["dataset/pipeline/line_encoding_cpp/line_encoding.cpp", "dataset/pipeline/line_encoding.py"], [("LineEncodingEncoder", "dataset/pipeline/line_encoding_cpp/line_encoding.cpp"), ("transform_board_impl", "dataset/pipeline/line_encoding_cpp/line_encoding.cpp"), ("LineEncodingPipeline", "dataset/pipeline/line_encoding.py")], BOUND)
