#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One entry per property; edit here, rerun."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

PY='k2/python/k2/'; CS='k2/csrc/'; BT='k2/python/csrc/torch/'

add('R01','Ragged tensors and shapes behave as nested lists under structural operations',
 'A ragged tensor or ragged shape built from a nested list (of any depth, with empty sublists anywhere) denotes exactly that list, and every structural operation - conversion to list/text/pickle and back, row splits/row ids/sizes, indexing, slicing (arange), gathering by an index array (including -1 for an empty row where allowed), concatenation along axis 0 or 1, axis removal, layer extraction, composition, regular shapes, equality, cloning, dtype conversion - gives the list that the same operation on nested lists gives. Positions of source elements reported alongside results (value indexes) point at the elements actually copied.',
 ['inputs','histories'],'all nested lists of 2-4 axes with arbitrary empty sublists, all valid axis/index/range arguments, and chains of such operations',
 'Unit tests use a handful of literal ragged tensors; empty rows at boundaries, deeper axes, repeated/negative gather indexes and chains of operations are combinatorial.',
 [CS+'ragged_ops.cu',CS+'ragged.cu',CS+'ragged_ops_inl.h','k2/python/csrc/torch/v2/ragged_any.cu','k2/python/csrc/torch/v2/ragged_shape.cu'],
 [('row_splits/row_ids duality and Index/Cat/RemoveAxis/Arange/ComposeRaggedShapes',CS+'ragged_ops.cu'),('Python binding layer','k2/python/csrc/torch/v2/')],
 ['RaggedTensor.tolist()','RaggedShape.row_splits/row_ids'])

add('R02','Per-sublist reductions and value transforms match their list definition',
 'For every ragged tensor, each operation over the last axis - sum, logsumexp, max, min, argmax, normalize (plain and log), sort (both directions), adding a per-sublist value, padding (constant and replicate), removing values by threshold or equality, and de-duplicating equal sublists with repeat counts and representatives - equals the result of applying the mathematical definition to each sublist independently, including empty sublists and the initial/padding value. The gradients of the differentiable ones (sum, logsumexp, normalize) equal the mathematical derivative.',
 ['inputs'],'all ragged tensors of 2-3 axes (int32, float32, float64 as supported), with empty sublists, ties, repeated values and repeated sublists',
 'Existing tests check fixed small examples; ties, empties, many sublists, negative or extreme values and gradient correctness per sublist need arbitrary inputs.',
 [CS+'ragged_ops_inl.h',CS+'ragged_ops.cu','k2/python/csrc/torch/v2/ragged_any.cu','k2/python/csrc/torch/v2/autograd/'],
 [('segmented reduction / segmented sort / unique-sequences hashing',CS+'ragged_ops_inl.h, '+CS+'ragged_ops.cu'),('autograd functions for ragged reductions','k2/python/csrc/torch/v2/autograd/')])

add('R03','Gather and scatter-add primitives follow their index semantics exactly',
 'Selecting values or rows by an index array (with -1 meaning the default value), adding values into positions given by an index array (with -1 ignored), indexing-and-summing through ragged index lists, indexing a one-element-per-row ragged list, composing two arc maps, gathering FSAs from a vector by index and concatenating FSA vectors produce exactly what the element-wise definition gives, for every dtype they accept and for non-contiguous inputs. Their gradients scatter exactly one unit of gradient per use of each source element.',
 ['inputs'],'all index arrays (repeats, -1s, empties), 1-D/2-D sources of each supported dtype and stride, and ragged index lists',
 'Tests use small fixed indexes; duplicates, -1 mixes, strided tensors and gradient accumulation over repeats are input-dependent.',
 [PY+'ops.py',BT+'index_select.cu',BT+'index_add.cu','k2/python/csrc/torch/v2/autograd/index_and_sum.h'],
 [('index_select/index_add kernels',BT+'index_select.cu, '+BT+'index_add.cu'),('autograd wrappers',PY+'ops.py')])

add('F01','FSA interchange formats round-trip exactly and denote the same machine',
 'Writing any valid FSA (acceptor, transducer, several tensor or ragged label attributes) as k2 text, OpenFst text, raw tensor, dictionary or saved file and reading it back yields the same states, arcs, labels, scores and attributes (text carries six significant digits of finite scores and only the labels, and what the form cannot express - an FSA without arcs, or in raw/dictionary form a single FSA without an arc into its final state - is outside). Text in k2 or OpenFst form is read with the documented meaning (fields, default scores, several weighted final states, negated costs), so the machine read accepts exactly the weighted strings the text describes.',
 ['inputs'],'all FSAs and FSA vectors, all label attribute layouts, all well-formed k2 and OpenFst texts',
 'Tests parse a few literal strings; arbitrary score values, final-state layouts, missing optional fields, ragged labels and vectors are not enumerated.',
 [CS+'fsa_utils.cu',PY+'fsa.py',PY+'utils.py',BT+'fsa.cu'],
 [('text parser/printer',CS+'fsa_utils.cu'),('FsaFromTensor/FsaVecFromTensor',CS+'fsa_utils.cu'),('as_dict/from_dict/from_str',PY+'fsa.py')])

add('F02','Reported FSA properties are true of the machine',
 'For every FSA or FSA vector, each property reported (valid, non-empty, top-sorted, top-sorted and acyclic, arc-sorted, deterministic, arc-sorted-and-deterministic, epsilon-free, accessible/co-accessible hints) agrees with its definition evaluated on the arcs: exact properties hold if and only if reported, hint properties are never reported when false in the sense documented. This remains so for the outputs of every algorithm and after labels are replaced or inverted, and structurally invalid machines are refused.',
 ['inputs','histories'],'all arc lists (valid and invalid), all FSA vectors, all algorithm outputs and label edits',
 'Algorithms dispatch on these flags; a wrong flag on a rare shape (empty states, isolated arcs, state skipped, last FSA of a vector) silently selects the wrong algorithm, and tests look at few shapes.',
 [CS+'fsa.cu',CS+'fsa.h',CS+'fsa_utils.cu',PY+'fsa.py'],
 [('GetFsaBasicProperties/GetFsaVecBasicProperties',CS+'fsa.cu'),('cached properties and label version check',PY+'fsa.py')])

add('F03','Derived quantities always reflect the current state of an FSA object',
 'After any sequence of reads (scores, posteriors, best paths, properties) and edits (assigning scores or labels or attributes, renaming attributes, inverting, cloning, detaching, selecting a member, normalising scores, enabling gradients), every quantity computed from an FSA equals the one computed from a freshly constructed FSA with the same current content. Edits to a clone never affect the original and vice versa.',
 ['histories'],'all interleavings of queries and edits on an FSA object and its clones',
 'Results are cached on the object; stale-cache bugs need a particular order of query, edit and re-query that fixed tests do not enumerate.',
 [PY+'fsa.py',PY+'autograd_utils.py'],
 [('_cache and _invalidate_cache_',PY+'fsa.py'),('labels_version / _properties reset',PY+'fsa.py')])

add('F04','Arc attributes follow their arcs through every FSA algorithm',
 'When an algorithm produces an FSA from one or two inputs, every tensor attribute of an output arc equals the attribute of the input arc it came from (the filler/zero value if it came from none; the sum of both for real-valued attributes present on both inputs; the concatenation, minus fillers, over the merged arcs for algorithms that merge arcs), ragged attributes are carried as the same lists, and non-tensor attributes are inherited. Output scores equal the (sum of) scores of the source arcs, and gradients of the output scores flow back to exactly those source arcs.',
 ['inputs','programs'],'all algorithms x all attribute kinds (int, float, ragged, filler-carrying, non-tensor) x all inputs',
 'Tests attach one attribute to one FSA per algorithm; combinations of attribute kinds, fillers, and -1 arc-map entries are not covered.',
 [PY+'utils.py',PY+'fsa_algo.py',PY+'autograd_utils.py',PY+'ops.py'],
 [('fsa_from_unary_function_tensor/ragged, fsa_from_binary_function_tensor',PY+'utils.py')])

add('A01','Sorting, trimming and self-loop operations keep the weighted language',
 'Arc-sorting, topological sorting and trimming return a machine accepting the same strings with the same weights as the input (per FSA), with the promised shape: arcs sorted by label then destination with nothing lost, every arc going forward for machines without non-self-loop cycles, every state both reachable and able to finish. Adding epsilon self-loops adds exactly one zero-score loop on each non-final state and removing them removes exactly those loops; the reported arc maps identify the source arcs.',
 ['inputs'],'all FSAs and FSA vectors, including empty ones, unreachable states, parallel arcs, cycles and self-loops',
 'A handful of literal FSAs are tested; random topology with disconnected parts, ties in labels and empty members is not.',
 [CS+'fsa_algo.cu',CS+'top_sort.cu',CS+'connect.cu',CS+'host/connect.cc',CS+'host/topsort.cc',CS+'host_shim.cu',PY+'fsa_algo.py'],
 [('ArcSort, TopSort, Connect, AddEpsilonSelfLoops, RemoveEpsilonSelfLoops',CS+'fsa_algo.cu, top_sort.cu, connect.cu')])

add('A02','Epsilon removal preserves best-path weights and leaves no epsilon',
 'Removing epsilons from any FSA or FSA vector without positive-score epsilon cycles yields a machine with no epsilon arcs in which every label string has the same best-path score as in the input, and each output arc carries the attributes and total score of the source arcs it replaces. The variant that adds self-loops differs only by one zero-score epsilon loop per non-final state.',
 ['inputs'],'all FSAs (top-sorted or not, cyclic or not, with epsilon chains, fans and non-positive epsilon cycles) and vectors of them',
 'Two algorithms are selected by input properties; equivalence is over all strings and topologies while tests compare random samples of a few machines.',
 [CS+'rm_epsilon.cu',CS+'host/rmepsilon.cc',CS+'host/rmepsilon_pruned.cc',CS+'fsa_algo.cu',CS+'host_shim.cu',PY+'fsa_algo.py'],
 [('RemoveEpsilonDevice / RemoveEpsilonHost dispatch',CS+'fsa_algo.cu'),('pruned max epsilon removal',CS+'host/rmepsilon_pruned.cc')])

add('A03','Determinization preserves weights and yields a deterministic machine',
 'Determinizing any connected, acyclic, epsilon-free FSA yields a machine with at most one arc per state and label in which every string has the same best (tropical) score as in the input, for every weight-pushing choice, and each output arc lists the source arcs it derives from. Without weight pushing the scores of the output arcs equal the sums over those source arcs.',
 ['inputs','configurations'],'all acyclic connected epsilon-free FSAs (and vectors) x weight-pushing modes',
 'Equivalence must hold for all strings and all non-deterministic branching patterns; tests check one or two graphs.',
 [CS+'host/determinize.cc',CS+'host/determinize_impl.h',CS+'determinize.cc',CS+'host_shim.cu',PY+'fsa_algo.py'],
 [('pruned log/max determinizer',CS+'host/determinize_impl.h')])

add('A04','Union, closure, reversal and replacement denote the regular-language operation',
 'The union of a vector of non-empty FSAs accepts exactly the strings of its members with the combined weights; the closure accepts exactly the concatenations of zero or more strings of the input with added weights; the reverse accepts each string reversed with its weight; replacing labels in an index FSA by member FSAs accepts exactly the substituted strings with added weights. Output labels of transducers are transformed accordingly.',
 ['inputs'],'all FSAs / FSA vectors satisfying the documented preconditions',
 'The statement quantifies over all machines and strings; tests check literal structure on one or two examples.',
 [CS+'fsa_algo.cu',CS+'reverse.cu',PY+'fsa_algo.py'],
 [('Union, Closure, ReplaceFsa',CS+'fsa_algo.cu'),('Reverse',CS+'reverse.cu')])

add('A05','Intersection and composition compute the weighted relation',
 'Intersecting two FSAs yields a machine in which every string has exactly the sum of its weights in both inputs (combined over path pairs; absent if either rejects), with epsilons treated as ordinary symbols or specially as requested, for single FSAs, vectors and shared/mapped vectors, sorted-matching or not, and the returned arc maps name the matched arcs. Composition yields the relational composition of the two transducers, with labels, output labels and optional inner labels assigned as documented.',
 ['inputs','configurations'],'all FSA pairs, maps, epsilon modes and matching modes',
 'Equality is over all strings and all input topologies; tests check fixed pairs or random equivalence for a few seeds.',
 [CS+'intersect.cu',CS+'host/intersect.cc',CS+'host_shim.cu',PY+'fsa_algo.py'],
 [('DeviceIntersector',CS+'intersect.cu'),('host Intersect',CS+'host/intersect.cc')])

add('A06','Linear machines, inversion and label expansion keep label sequences',
 'Linear acceptors and transducers built from label sequences accept exactly the given sequence (with the given output labels) with zero score, and their self-loop versions accept the same sequence without epsilons, keeping output labels and total score. Inverting a transducer (including one whose output labels are lists) swaps input and output strings of every path; expanding list-valued attributes yields a machine in which every path keeps its input string, its score and its per-attribute label sequence.',
 ['inputs'],'all label sequences (including empty ones), all transducers with plain or list-valued output labels',
 'Tests cover a couple of literal sequences; empty lists, multi-element lists on final arcs, and vectors are input-dependent.',
 [PY+'fsa_algo.py',PY+'fsa.py',CS+'fsa_utils.cu',CS+'fsa_algo.cu'],
 [('LinearFsa(s), ExpandArcs, FixFinalLabels, InvertHost',CS+'fsa_utils.cu, fsa_algo.cu'),('invert / linear_fst_with_self_loops',PY+'fsa_algo.py')])

add('S01','Forward, backward, total scores and posteriors equal sums over paths',
 'For every top-sorted acyclic FSA (vector), the total score is the maximum (tropical) or log-sum-exp (log semiring) over its complete paths, forward and backward scores are the same quantity over path prefixes and suffixes of each state, and arc posteriors are the (log) fraction of the total carried by paths through the arc; FSAs with no path score minus infinity. Single and double precision agree to rounding.',
 ['inputs'],'all acyclic FSAs and vectors, both semirings, both precisions, including machines with dead states or no path',
 'Path sums are over exponentially many paths; tests check a few literal values.',
 [CS+'fsa_utils.cu',PY+'fsa.py',BT+'fsa.cu'],
 [('GetForwardScores/GetBackwardScores/GetTotScores/GetArcPost over state batches',CS+'fsa_utils.cu'),('GetStateBatches, GetIncomingArcs, Get{Entering,Leaving}ArcIndexBatches',CS+'fsa_utils.cu')])

add('S02','Gradients of all path-score quantities are the true derivatives',
 'The gradient of total scores, forward scores, backward scores and arc posteriors with respect to arc scores equals the mathematical derivative (for the tropical semiring: the indicator of a best path), for every upstream gradient, both semirings where supported, and both precisions, and it flows through chains of FSA operations to the original scores.',
 ['inputs','programs'],'all acyclic FSAs and vectors, all upstream gradients, compositions with other differentiable operations',
 'Numeric gradient tests run on a few fixed FSAs and one of them is not even reliable; per-arc errors on rare topologies stay unseen.',
 [PY+'autograd.py',PY+'autograd_utils.py',CS+'fsa_utils.cu',BT+'fsa.cu'],
 [('BackpropGetForwardScores/BackwardScores/ArcPost, GetTotScores*Backward',CS+'fsa_utils.cu, '+BT+'fsa.cu')])

add('S03','The shortest path is a best-scoring path of the machine',
 'For every acyclic top-sorted FSA in a vector, the returned path is linear, is a complete path of the input (arc by arc, with its attributes), and no complete path scores higher; an FSA with no complete path gives an empty result. Its total score equals the tropical total score.',
 ['inputs'],'all acyclic FSAs and vectors, including ties, unreachable parts and empty machines',
 'Optimality is a statement about all paths; tests use a few literal graphs.',
 [CS+'fsa_algo.cu',CS+'fsa_utils.cu',PY+'fsa_algo.py',PY+'decode.py'],
 [('ShortestPath via best entering arcs',CS+'fsa_algo.cu')])

add('S04','Path sampling and posterior pruning respect the path distribution',
 'Sampling returns exactly the requested number of complete paths for every FSA that has one (none otherwise), deterministically, and the number of times each path appears differs from its expected count under the log-semiring path distribution by no more than the quantisation of the arithmetic-coding scheme allows. Posterior pruning keeps every arc at or above the threshold and its attributes, drops those clearly below it, and the result contains only paths of the input with their scores.',
 ['inputs'],'all acyclic FSA vectors, all path counts, all thresholds, both precisions',
 'Tests look at one or two graphs; skewed posteriors, empty members and many paths need generated inputs.',
 [CS+'fsa_algo.cu',CS+'fsa_utils.cu',CS+'nbest.cu',PY+'fsa_algo.py'],
 [('RandomPaths / GetArcCdf',CS+'fsa_utils.cu'),('PruneOnArcPost',CS+'fsa_algo.cu')])

add('D01','Dense intersection matches the graph against the network output exactly',
 'A dense FSA vector built from network output and segments denotes, per segment, the frame-synchronous acceptor whose scores are the given frames (duration, subsampling tail allowance and ordering as documented). Intersecting decoding graphs with it yields, for each pair, exactly the paths consuming all frames within the beam of the best, each scored graph score plus acoustic score, with arc attributes, frame indexes and gradients to both inputs correct, for any sharing map from graphs to segments.',
 ['inputs','configurations'],'all decoding graphs, score matrices, segmentations, beams and maps',
 'Tests use few graphs and lengths; pruning exactness, frame bookkeeping and gradient routing are over all inputs.',
 [CS+'intersect_dense.cu',CS+'fsa.cu',PY+'dense_fsa_vec.py',PY+'autograd.py'],
 [('MultiGraphDenseIntersect',CS+'intersect_dense.cu'),('DenseFsaVec construction',PY+'dense_fsa_vec.py'),('_IntersectDenseFunction',PY+'autograd.py')])

add('D02','Pruned decoding returns true in-beam paths, and streaming equals batch',
 'Beam-pruned dense intersection returns only genuine complete paths of the graph against the frames, each once, with their correct scores and attributes. While the search beam and active-state limits lose nothing, every path within the output beam of the best is returned and the best path is the true best; utterances of up to 20 frames keep only arcs on such paths (longer ones are pruned in windows). Partial lattices of searches that cannot reach the end are the surviving prefixes. Decoding the same frames in chunks through the online decoder (any chunking, any batching and re-batching of streams whose chunks have equal length, with other streams alive or dead) returns after every chunk genuine paths including every in-beam path, with the same best path as decoding all frames so far at once.',
 ['inputs','histories','configurations'],'all graphs, score matrices, beams, active-state limits, chunkings and stream interleavings',
 'Chunk boundaries, state hand-over and pruning interact per input; tests cover one chunking of a few utterances.',
 [CS+'intersect_dense_pruned.cu',CS+'intersect_dense_pruned.h',PY+'online_dense_intersecter.py',PY+'autograd.py'],
 [('MultiGraphDenseIntersectPruned, OnlineIntersectDensePruned',CS+'intersect_dense_pruned.cu')])

add('C01','CTC topologies, graphs and loss implement the CTC definition',
 'The CTC topology and CTC graphs (standard and modified) relate frame-label sequences to token sequences exactly as CTC collapsing defines, for every transcript including empty ones and repeated tokens. The CTC loss equals the negative log-probability summed over all alignments (matching a reference implementation), with correct reduction, delay penalty and gradients. Decoding through get_lattice and one_best_decoding returns the output sequence of a best path of the graph against the valid frames.',
 ['inputs','configurations'],'all transcripts, frame scores, segment lengths, topologies, reductions and penalties',
 'A few utterances are compared with other implementations; the alignment sum ranges over all inputs.',
 [CS+'fsa_algo.cu',CS+'fsa_utils.cu',PY+'ctc_loss.py',PY+'decode.py',PY+'fsa_algo.py'],
 [('CtcGraph(s), CtcTopo, TrivialGraph',CS+'fsa_algo.cu'),('CtcLoss',PY+'ctc_loss.py'),('get_lattice/one_best_decoding/get_aux_labels',PY+'decode.py')])

add('C02','Levenshtein graphs and alignments give the true edit distance',
 'For every reference/hypothesis pair the alignment score is minus the Levenshtein distance, and the aligned label sequences read back the reference and the hypothesis with exactly that many insertions, deletions and substitutions, for any mapping of hypotheses to references and either matching mode. A Levenshtein graph scores each alternative according to the configured insertion/deletion score.',
 ['inputs'],'all sequences including empty and repeated symbols, all mappings, all penalties',
 'Tests align a few literal sequences; the optimum is over all alignments.',
 [CS+'fsa_algo.cu',CS+'fsa_utils.cu',PY+'fsa_algo.py'],
 [('LevenshteinGraph(s)',CS+'fsa_algo.cu'),('levenshtein_alignment',PY+'fsa_algo.py')])

add('N01','N-best lists and the MWER loss agree with explicit path enumeration',
 'An n-best list drawn from a lattice contains only distinct word sequences realised by lattice paths with the path scores; total scores, top-k selection (with replication), rescoring by intersection and lattice rescoring agree with computing them path by path. The MWER loss equals the expectation of the edit distance under the normalised path probabilities, with the stated reductions and gradients.',
 ['inputs','configurations'],'all lattices (plain or list-valued word labels), path counts, k, scales, temperatures and references',
 'Tests use a couple of lattices; de-duplication, padding and normalisation depend on the lattice.',
 [PY+'nbest.py',PY+'mwer_loss.py',CS+'ragged_ops.cu',CS+'nbest.cu'],
 [('Nbest.from_lattice/top_k/intersect',PY+'nbest.py'),('MWERLoss',PY+'mwer_loss.py')])

add('T01','RNN-T losses equal the log-sum over all alignments, with true gradients',
 'The mutual-information recursion and every full (unpruned) RNN-T loss variant - simple, smoothed, joint and their log-prob builders, regular, modified and constrained, with boundaries, delay penalty and reductions - equal the log-sum-exp over all monotonic alignments of the defined scores. The gradients and occupation counts returned equal the derivatives.',
 ['inputs','configurations'],'all logits/targets/boundaries, lattice types and reductions',
 'Sums range over exponentially many alignments and many option combinations; tests check a few sizes.',
 [BT+'mutual_information_cpu.cu',PY+'mutual_information.py',PY+'rnnt_loss.py'],
 [('MutualInformationCpu / MutualInformationBackwardCpu',BT+'mutual_information_cpu.cu'),('get_rnnt_logprobs*',PY+'rnnt_loss.py')])

add('T02','Pruned RNN-T ranges are valid and the pruned loss is exact on its band',
 'Pruning bounds chosen from occupation counts always form a legal band: within the transcript, monotone in time, moving by at most the allowed step, starting and ending where a complete alignment needs them, for every length and boundary. The pruned log-probs, the pruned loss and the pruned lattice equal the sum over exactly the alignments inside the band, and equal the full loss when the band covers everything.',
 ['inputs','configurations'],'all lengths, boundaries, band widths, gradients and lattice types',
 'Tests compare a few shapes; legality of the band must hold for all inputs.',
 [PY+'rnnt_loss.py',BT+'pruned_ranges_to_lattice.cu',BT+'mutual_information_cpu.cu'],
 [('get_rnnt_prune_ranges / _adjust_pruning_lower_bound / do_rnnt_pruning',PY+'rnnt_loss.py'),('PrunedRangesToLattice',BT+'pruned_ranges_to_lattice.cu')])

add('T03','RNN-T beam search keeps genuine hypotheses and is stream-independent',
 'Decoding a batch of streams frame by frame yields for each stream a lattice whose paths are genuine graph paths consuming that stream\'s frames, scored by graph score plus the log-probs supplied (the last frame of the lattice only decides which states may end there, with score 0), with the attributes of that stream\'s graph and gradients to the log-probs, pruned exactly as the beam and the context/state limits say, so that with unlimited beams it holds every path. The result for a stream does not depend on which other streams are decoded with it or on how many frames are processed before regrouping.',
 ['inputs','histories','configurations'],'all decoding graphs, log-prob sequences, beam settings, batch groupings',
 'Tests run a single scenario without checking scores; regrouping histories are not explored.',
 [CS+'rnnt_decode.cu',CS+'rnnt_decode.h',PY+'rnnt_decode.py',BT+'rnnt_decode.cu'],
 [('RnntDecodingStreams::Advance/GetContexts/FormatOutput',CS+'rnnt_decode.cu')])

add('B01','Operations on an FSA vector act on each member independently',
 'For every operation that accepts a vector of FSAs, the result for a vector equals the vector of results for its members (same structure where defined structurally, same arcs, scores, attributes and arc maps shifted accordingly), regardless of the other members, their order, or empty members. Selecting, concatenating and re-creating vectors is lossless.',
 ['inputs','programs'],'all operations x all vectors, in particular with empty, one-state and large members mixed',
 'Cross-member contamination at boundaries depends on neighbours; tests mostly use one or two members.',
 [CS+'fsa_algo.cu',CS+'fsa_utils.cu',CS+'host_shim.cu',PY+'fsa_algo.py',PY+'utils.py'],
 [('idx0/idx01/idx012 arithmetic in all FsaVec algorithms',CS),('create_fsa_vec / __getitem__',PY+'utils.py, '+PY+'fsa.py')])

add('B02','Operations do not modify their inputs',
 'No operation other than the documented in-place ones changes the observable content of its arguments: arcs, labels, scores, attributes, properties, ragged values and shapes, and gradients of inputs are the same before and after, including when a result is subsequently overwritten (not counting documented in-place operations, documented or torch-style views such as values, reshapes, expansions and tensor conversions that share memory, and results that are the argument itself because there was nothing to do). Repeating a deterministic operation on the same input gives the same result.',
 ['inputs','programs'],'all public operations x all inputs, and edits of the results afterwards',
 'Tests inspect outputs, rarely inputs; aliasing only shows when the input is examined again.',
 [PY+'fsa_algo.py',PY+'fsa.py',PY+'nbest.py','k2/python/csrc/torch/v2/ragged_any.cu'],
 [('copy-on-create conventions for arcs and ragged arrays',CS+'fsa_algo.cu, '+CS+'ragged_ops.cu')])

add('M01','Symbol tables are a consistent bijection and survive save/load',
 'A symbol table always maps ids to symbols and symbols to ids as mutual inverses with id 0 reserved for epsilon; adding, looking up, merging, saving and loading (text) keep exactly the associations made, and conflicting additions or merges are refused without changing the table. Automatically chosen ids are fresh.',
 ['histories','inputs'],'all sequences of additions, merges, lookups and save/load, with arbitrary symbols',
 'Tests exercise a short literal sequence.',
 [PY+'symbol_table.py'],[('SymbolTable.add/merge/from_str/from_file/to_file',PY+'symbol_table.py')])

add('M02','Swoosh activations and their derivatives match the formula',
 'The swoosh-L and swoosh-R functions and their forward-with-derivative forms return the documented formula for every input tensor shape, dtype layout and magnitude, derivative equal to the analytic derivative, and autograd through them multiplies the upstream gradient by that derivative (within the documented quantisation and optional dropout).',
 ['inputs'],'all float tensors, shapes, strides and magnitudes',
 'Tests use one random tensor of moderate values.',
 [CS+'../python/csrc/torch/v2/autograd/swoosh.h'.replace('csrc/../',''),'k2/python/csrc/torch/v2/k2.cu'],
 [('SwooshFunction','k2/python/csrc/torch/v2/autograd/swoosh.h')])

add('M03','Best-matching n-gram statistics equal a direct search',
 'For every collection of key and query token sequences, the mean, variance, count and matched order reported for each query position equal those obtained by directly comparing the position\'s left context with every key position and keeping the longest matches (the order reported is at most the maximum order, and equal to it when the match goes back to the beginning of both sentences).',
 ['inputs'],'all token collections with 2 or 3 axes, key/query markings and maximum orders',
 'Tests use two literal collections; suffix-array logic depends on the repeats in the data.',
 [CS+'nbest.cu',PY+'utils.py',BT+'nbest.cu'],
 [('suffix array + LCP intervals, GetBestMatchingStats',CS+'nbest.cu')])

add('X01','The C++ deployment library agrees with the Python library',
 'A decoding graph saved from Python and loaded by the C++ library (k2/torch/csrc) is the same machine with the same scores and the same tensor and ragged attributes. On the same inputs, the C++ operations (inversion, sorting, connecting, shortest path, device intersection, total scores, dense FSAs and supervision segments, pruned intersection and lattices, one-best texts, whole-lattice rescoring, RNN-T streams, CTC topologies and trivial graphs) give the machines, scores, attributes and texts of their Python counterparts and leave copies and arguments alone; n-best decoding picks paths of the lattice, without repeated word sequences, with their best scores; greedy and modified beam search follow their definitions; and wave files, symbol tables, command lines and hypothesis lists are read as written, malformed ones being refused.',
 ['inputs','histories'],'all saved graphs (attributes tensor, ragged, plain), all network outputs, sequences of operations on machines that share arcs, and all wave, symbol and option files',
 'The C++ tests of this library are not built here and use fixed files; no Python test reaches k2/torch/csrc.',
 ['k2/torch/csrc/'],[('LoadFsa / deserialization','k2/torch/csrc/deserialization.cu'),('FsaClass and its operations','k2/torch/csrc/fsa_class.cu, k2/torch/csrc/fsa_algo.cu'),
 ('GetLattice, BestPath, Nbest, RNN-T streams, beam search','k2/torch/csrc/decode.cu, nbest.cu, torch_api.cu, beam_search.cu'),('waves, symbols, options','k2/torch/csrc/wave_reader.cu, symbol_table.cu, parse_options.cu')])

add('E01','The randomised equivalence test gives the right verdict; random FSAs are valid',
 'The randomised equivalence test never rejects two top-sorted machines (or vectors of them) in which every string has the same weight up to the tolerance, in either semiring, with epsilon ignored or treated as a symbol, and, with a beam, whenever the strings within the beam of the total weight agree; it rejects two machines that differ in some string within the beam if the sampled paths include one such string, so always when they all differ or only one machine is empty. (In the log semiring with epsilon ignored, for epsilon-free machines.) Randomly generated FSAs and vectors are valid, respect the requested numbers of machines and arcs, the label range and, if asked, are acyclic and top-sorted.',
 ['inputs'],'all pairs of top-sorted machines x semirings x epsilon modes x beams x tolerances, and all generator bounds',
 'A wrong verdict needs a particular pair (equivalent but differently built, or different in a few strings, or near the beam); tests use a few pairs and this function is the oracle of other tests.',
 [CS+'host/fsa_equivalent.cc',CS+'host_shim.cu',CS+'fsa_utils.cu',PY+'utils.py'],
 [('IsRandEquivalent',CS+'host/fsa_equivalent.cc'),('RandomFsa/RandomFsaVec',CS+'fsa_utils.cu')])

add('Z01','Malformed input is refused with an error, never a crash or a wrong object',
 'Any text, Python list, tensor, shape or argument that does not describe a valid object (malformed FSA text, arcs that do not form a valid FSA, ragged text with unbalanced brackets or mixed depths, inconsistent nested lists, numbers of rows or values that do not match, wrong element types or numbers of dimensions, a member index or an axis out of range, a single FSA where a vector is needed or the reverse) makes the operation raise an exception that leaves its arguments as they were and the process usable; anything that is accepted yields a valid object that prints and reads back the same. Not covered: the values inside index tensors and the contents of given row splits (documented preconditions, checked in debug builds only), and FSAs whose state numbers do not fit in memory.',
 ['inputs','fault_sequences'],'arbitrary strings near the grammars, mutated valid texts, arbitrary int tensors, arbitrary arguments',
 'Fixed tests cover a few wrong strings; the space of malformed inputs is unbounded.',
 [CS+'fsa_utils.cu',CS+'ragged.cu',CS+'fsa.cu','k2/python/csrc/torch/v2/ragged_any.cu',PY+'fsa.py'],
 [('K2_CHECK / fatal log raised as exceptions',CS+'log.h'),('parsers',CS+'fsa_utils.cu, '+CS+'ragged.cu')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
