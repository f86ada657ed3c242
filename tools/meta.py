#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (hand-written; nothing here is read by a check)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props
E = []
def P(id, title, statement, over, text, why, files, mech, observe=None, note=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    E.append((dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why, anchors=a), note))

P('S01', 'Sorting is a stable, correct permutation for every element type',
  'Sorting values, or computing a sort permutation, of unsigned integer, long integer, double or float fields with any stride yields a nondecreasing arrangement that is a permutation of the input, and equal keys keep their input order. The input fields themselves are unmodified unless the output is requested in place, and a given starting permutation is refined stably.',
  ['inputs'], 'all lengths up to the bounds and all field values (every 32- and 64-bit integer pattern; every real for doubles/floats), every stride tried, with and without a starting permutation, merge sort and radix sort',
  'sort_test runs a few fixed seeds with checks by eye; ordering and stability must hold for every data pattern, including those that make the digit histogram skip passes or switch the algorithm.',
  ['src/sort.c', 'src/sort_imp.h', 'src/sort.h'], [('merge sort', 'src/sort_imp.h merge_sort*, merge_sortp*'), ('radix sort with digit skipping', 'src/sort_imp.h radix_*'), ('algorithm switch on length', 'src/sort_imp.h sortv/sortp')], ['sortv*', 'sortp* through the buffer'])
P('S02', 'Record sorting moves whole records and orders by the listed keys',
  'Sorting an array of records by one to four fields leaves exactly the input records, each intact in every byte of every field, ordered lexicographically by the fields in the order listed, and records that tie on all of them keep their relative order. Permuting records in place by any permutation puts each record where the permutation says.',
  ['inputs'], 'all values of all key fields for up to 4 records and up to 4 keys of mixed types, and all permutations of up to 6 records',
  'Tests print one random array; permutation cycles, ties in early keys and mixed key types must work for every combination.',
  ['src/sarray_sort.c', 'src/sarray_sort.h', 'src/sort_imp.h'], [('least-significant key first composition of stable sorts', 'src/sarray_sort.h'), ('in-place cycle permutation', 'src/sarray_sort.c sarray_permute_')], ['records after sarray_sort*'])
P('M01', 'Growable arrays keep their contents and never under-allocate',
  'After any sequence of reserve, resize, append and concatenate requests, a growable array holds exactly the elements put into it, in order and unchanged, and its storage has room for at least as many elements as its capacity states and as was requested. Alignment arithmetic used to carve scratch space returns the next multiple of the type\'s alignment, and freeing the array releases all its memory.',
  ['histories', 'inputs'], 'all histories of up to 3 (5 thorough) operations with sizes below the bound, all element values; alignment for all offsets up to 2^20',
  'No test exercises growth as such; a capacity that is short by one for particular size sequences shows up only as heap corruption in unlucky runs.',
  ['src/mem.h'], [('growth policy', 'src/mem.h array_reserve_'), ('concatenation', 'src/mem.h array_cat_'), ('alignment', 'src/mem.h align_as_')], ['struct array fields and contents'])
P('C01', 'The crystal router delivers every message once, intact, to its target',
  'When every process hands the router any set of variable-length messages addressed to any processes, each message arrives exactly once at the process it names, with its payload unchanged and its source correctly recorded, and nothing else arrives anywhere. The exchange completes for every process count, however the messages are distributed.',
  ['inputs', 'schedules', 'configurations'], '1..10 processes, including non powers of two; every assignment of targets to up to 3 messages per process within the bounds, message lengths 0..5 words, all payload values',
  'crystal_test uses one regular pattern on a couple of process counts; hypercube folding on odd process counts and uneven loads must work for every target assignment.',
  ['src/crystal.c', 'src/crystal.h'], [('recursive halving with an odd extra process', 'src/crystal.c crystal_router'), ('partition of the message buffer', 'src/crystal.c crystal_move'), ('sizes then payload exchange', 'src/crystal.c crystal_exchange')], ['message buffer after crystal_router'])
P('T01', 'Record transfer delivers each record once to its destination, intact',
  'Transferring an array of records by a destination field, or by a separate destination vector, puts on each process exactly the records addressed to it, every other byte unchanged. The destination field holds the source process afterwards when that is requested, and is this process otherwise; no record is lost, duplicated or torn.',
  ['inputs', 'schedules', 'configurations'], '1..10 processes; every target assignment of up to 3 records per process within the bounds; four record layouts including a destination-only record; all field values',
  'sarray_transfer_test uses a fixed random pattern and record type; layout (field first, last, alone), empty processes and odd counts interact.',
  ['src/sarray_transfer.c', 'src/sarray_transfer.h', 'src/crystal.c'], [('packing around the destination field', 'src/sarray_transfer.c pack_int, unpack_int'), ('separate destination vector', 'src/sarray_transfer.c pack_ext, unpack_more'), ('source replacement and ordering', 'src/sarray_transfer.c')], ['array after sarray_transfer*'])
P('T02', 'Several arrays transferred together stay aligned row by row',
  'When several parallel arrays are transferred together, row i of every array goes to the process named for row i, and on arrival row k of every array belongs to the same original row, all bytes unchanged, also when some array has zero width. The returned count and every array\'s count agree with the number of rows addressed to the process.',
  ['inputs', 'configurations'], '1..8 processes, up to 3 rows (or groups of 140 equal-target rows) per process with every target assignment, destination in the first array or separate, all field values',
  'Rows are packed from and unpacked to the arrays in separate passes; alignment must survive every permutation and message split. No test checks contents of more than one array.',
  ['src/sarray_transfer.c', 'src/sarray_transfer.h'], [('multi-array packing', 'src/sarray_transfer.c pack_more, unpack_more'), ('row layout', 'src/sarray_transfer.c sarray_transfer_many')], ['arrays after the transfer'])
P('T05', 'Transferring records back returns each to where it came from',
  'If records are transferred with their source recorded and then transferred again by that field, every record returns to the process that sent it, with its contents unchanged and the field naming the process it visited. No record is lost or duplicated in the round trip.',
  ['histories', 'inputs', 'configurations'], '1..10 processes, every target assignment of up to 3 records (or groups of up to 260 records) per process within the bounds, four record layouts, all field values',
  'The query-and-return idiom is the base of point search and of gather-scatter set-up, but tests use it in one pattern only.',
  ['src/sarray_transfer.c', 'src/crystal.c'], [('source written over destination on receipt', 'src/sarray_transfer.c'), ('router source tracking', 'src/crystal.c')], ['array after two transfers'])
P('T03', 'The Fortran tuple transfer delivers rows and respects the caller\'s limit',
  'The Fortran interface moves each row (integers, longs, doubles together) to the process its key column names, replaces that column by the source, and reports how many rows arrived. When more rows arrive than the caller\'s arrays hold, the rows that fit are stored and the count tells how many arrived; nothing is ever written past the caller\'s arrays.',
  ['inputs', 'configurations'], '1..3 processes, all target assignments of up to 3 rows per process, every key column position, symbolic row limit, all row contents',
  'No stable test overflows the limit; the truncation path is exactly where memory would be corrupted.',
  ['src/fcrystal.c', 'src/sarray_transfer.c'], [('row limit', 'src/fcrystal.c fcrystal_ituple_transfer, fcrystal_tuple_transfer'), ('column layout', 'src/fcrystal.c')], ['fgslib_crystal_*transfer arguments on return'])
P('T04', 'The Fortran tuple sort orders rows by the listed columns and keeps them whole',
  'Sorting rows by any list of columns (integer columns first, then long columns) leaves the same rows, each intact across all its arrays, ordered lexicographically by the listed columns and stable among ties. Sorting by no column leaves the rows alone.',
  ['inputs'], 'all nonnegative column values of up to 4 rows with up to 3 key columns in every choice of columns',
  'Not tested at all for more than one key; the three arrays can only come apart for particular permutations.',
  ['src/fcrystal.c', 'src/sarray_sort.c', 'src/sort_imp.h'], [('key decoding and successive stable sorts', 'src/fcrystal.c fcrystal_tuple_sort')], ['fgslib_crystal_*sort arguments on return'])
P('K01', 'Prefix scans give every process its exclusive prefix and the total',
  'A scan over any number of processes gives each process the reduction of the values of all lower-ranked processes (the identity on the first) and the reduction over all processes, for every data type, operation and vector length.',
  ['inputs', 'configurations', 'schedules'], '1..10 processes, five data types, five operations, all values (products and the rounding-prone types over reals or small integers), vectors of up to 3',
  'comm_test uses fixed data on the process counts of the machine; the binary recursion differs for each process count.',
  ['src/comm.c', 'src/comm.h'], [('recursive up/down sweep', 'src/comm.c scan_imp / comm_scan')], ['scan result vectors'])
P('K02', 'Reductions and collectives deliver the group result on every process',
  'All-reduce, blocking and nonblocking, reduction helpers, dot product, broadcast, gather, split and duplicate give every process the mathematically defined result for each data type and operation, on any number of processes, including the library\'s own binary-representation operation that MPI lacks. Messages between two processes arrive unchanged, and waiting on any number of requests completes all of them.',
  ['inputs', 'configurations', 'schedules'], '1..7 processes, five data types, five operations, all values within the stated ranges, vectors up to 2 (and empty)',
  'Tests run a handful of values on one or two process counts; agreement between processes and the library fallback tree must hold for each combination.',
  ['src/comm.c', 'src/comm.h', 'src/gs_defs.h', 'src/gs_local.c'], [('library reduction tree', 'src/comm.c allreduce_imp'), ('MPI datatype and operation mapping', 'src/comm.c comm_allreduce, comm_iallreduce'), ('reduction helpers', 'src/comm.h comm_reduce_*')], ['result vectors'])
P('G01', 'Gather-scatter replaces every entry by the reduction over its group',
  'After a gather-scatter on unflagged labels every entry holds the reduction of all entries on all processes with the same nonzero label, in any labelling, and entries labelled zero are untouched. This holds for each communication method, data type and operation, repeatedly on the same handle, and frees everything it allocated.',
  ['inputs', 'schedules', 'configurations', 'histories'], '1..9 processes, up to 4 entries per process, every assignment of labels from the stated sets (small and 64-bit), five types, five operations, all values, all three methods',
  'gs_test uses a handful of fixed labellings; the maps depend on which labels coincide within and across processes, which is combinatorial.',
  ['src/gs.c', 'src/gs_local.c', 'src/gs_defs.h', 'src/crystal.c', 'src/comm.c'], [('topology discovery through the router', 'src/gs.c get_topology, shared_ids'), ('local maps', 'src/gs.c local_map, gs_local.c'), ('pairwise / crystal router / all-reduce exchange', 'src/gs.c pw_exec, cr_exec, allreduce_exec')], ['user array after gs()'])
P('G02', 'Vector and multi-array gather-scatter equal separate scalar operations',
  'A gather-scatter on packed vectors, or on several arrays at once, gives in every component or array what a separate scalar gather-scatter would give, for any number of components and each communication method, type, operation, flagging and direction.',
  ['inputs', 'configurations', 'schedules'], '2..5 processes, up to 3 components, all label assignments and values within the bounds, three methods',
  'Tests use one vector length with full-symmetric data; strides and offsets in the exchange buffers are specific to each mode and method.',
  ['src/gs.c', 'src/gs_local.c'], [('vector and many variants of gather, scatter, init', 'src/gs_local.c gs_*_vec, gs_*_many, gs_*_vec_to_many'), ('mode tables', 'src/gs.c gather_to_buf, scatter_from_buf')], ['user arrays after gs_vec / gs_many'])
P('G03', 'Flagged labels: excluded from the sum forward, not overwritten backward',
  'In the forward direction entries with negative labels do not contribute but receive the reduction over the unflagged members of their group; in the transposed direction they contribute but keep their own value, while unflagged members receive the reduction over the whole group. The two directions are therefore transposes of each other for any labelling.',
  ['inputs', 'configurations', 'schedules'], '1..7 processes, up to 3 entries per process, every assignment of signed labels from the stated set, all values, three methods',
  'No stable test uses flagged labels through the C interface beyond one pattern; several flagged entries on one process are never tried.',
  ['src/gs.c', 'src/gs_local.c'], [('flagged primaries and maps', 'src/gs.c local_map, flagged_primaries_map'), ('direction selects map pair', 'src/gs.c gs_aux')], ['user array after gs() with either direction'])
P('G04', 'Making labels unique keeps exactly one unflagged member per group',
  'Making labels unique only changes signs, leaves exactly one unflagged member in each group that had any, never unflags a flagged entry and leaves zero labels alone. A handle set up with the unique option behaves as if the labels had been made unique first, and leaves the caller\'s labels unmodified.',
  ['inputs', 'configurations', 'schedules'], '1..8 processes, up to 3 entries each, every labelling from the stated sets, all 64-bit labels at np=2; three methods',
  'Consistency is a global fact across processes for any sharing pattern; gs_unique_test samples one pattern (and does not run reliably in the baseline).',
  ['src/gs.c'], [('owner choice from shared ids', 'src/gs.c make_topology_unique'), ('unique option in set-up', 'src/gs.c gs_setup_aux')], ['label array after gs_unique; results of a unique handle'])
P('G05', 'Nonblocking operations end in the same state as blocking ones',
  'Starting a nonblocking gather-scatter and waiting for it gives exactly what the blocking operation gives, for each method, type, operation, direction, single, vector and multi-array form. Several operations may be in flight at once, on the same or different handles, with or without caller buffers, and be waited for in any order without influencing one another; no request or buffer is left behind.',
  ['inputs', 'schedules', 'histories', 'configurations'], '1..6 processes, 1..2 operations in flight, both completion orders, all label assignments and values within the bounds, three methods, message delivery at start or as late as completion',
  'Interference between operations in flight depends on ordering and on which buffers are shared; tests only start and wait at once.',
  ['src/gs.c', 'src/comm.c', 'src/comm.h'], [('start and wait entry points per method', 'src/gs.c *_irecv, *_isend, *_wait'), ('handle table of operations in flight', 'src/gs.c igs*, gs_wait'), ('nonblocking all-reduce', 'src/comm.c comm_iallreduce')], ['user arrays after gs_wait'])
P('G06', 'Groups are formed correctly for every 64-bit label value',
  'Two entries are combined exactly when their labels have the same magnitude, whatever the 64-bit label values are: very large labels, labels differing only in high or low bits, and labels congruent modulo the process count are kept apart or matched correctly.',
  ['inputs', 'configurations'], 'labels fully symbolic (all 64-bit values) on 1..2 processes, bounded bit width on 3..4 processes; three methods; all int values',
  'Tests use small dense labels; the discovery hashes labels over processes and radix-sorts them by digits, so errors would hit particular bit patterns only.',
  ['src/gs.c', 'src/sort_imp.h', 'src/sarray_sort.h'], [('distribution of labels by remainder', 'src/gs.c unique_ids, shared_ids'), ('64-bit sort of labels', 'src/sort_imp.h')], ['user array after gs()'])
P('G07', 'Automatic method selection never changes results',
  'With automatic method selection, whatever the measured timings are, every process settles on the same method and results, flag handling and clean-up are the same as with an explicitly chosen method. Builds without message passing give the same local results.',
  ['schedules', 'inputs', 'configurations'], '1..5 processes, every possible sequence of timer readings (symbolic), label assignments and values within the bounds; serial build on one process',
  'Timings cannot be controlled in a test: each run takes whichever branch the machine dictates.',
  ['src/gs.c', 'src/comm.h'], [('timed dry runs with reduced times', 'src/gs.c dry_run_time, auto_setup')], ['user array after gs() with the automatic method'])
P('G08', 'The Fortran gather-scatter interface acts like the C one',
  'Each Fortran entry point (scalar, vector, several arrays, strided fields, nonblocking forms, unique) has the effect of the corresponding operation for every type and operation code, on the handle it is given, with several handles alive at once. Freeing handles and making labels unique leaves no memory or communicator behind.',
  ['inputs', 'configurations', 'histories'], '2..3 processes, label assignments and values within the bounds, all type and operation codes, strides larger than the field',
  'Fortran-side tests are not part of the stable suite; code tables, strides and handle reuse are only visible through combinations.',
  ['src/gs.c'], [('code tables', 'src/gs.c fgs_dom, fgs_op, fgs_check_parms'), ('handle table', 'src/gs.c fgs_setup_pick, fgs_free'), ('field pointers', 'src/gs.c fgs_fields, fgs_many')], ['user arrays after fgslib_gs_op*'])

P('X01', 'Tensor-product kernels compute their defining sums',
  'The dot product, matrix-vector and matrix-matrix products (plain and transposed), tensor-product application in two and three dimensions, and tensor-product interpolation with and without gradients in one to three dimensions return exactly the sums that define them, for every matrix size and all entries, write only their outputs and leave their inputs unchanged.',
  ['inputs', 'configurations'], 'all real values of all entries, for every size combination listed in the jobs (dimensions from 1 to 9, some 17 and 33)',
  'Tests call the kernels with smooth data at one size; a transposed index or a wrong blocking threshold can cancel or remain small there.',
  ['src/tensor.h', 'src/tensor.c'], [('matrix kernels', 'src/tensor.c tensor_mxv/mtxv/mxm/mtxm'), ('tensor products and interpolation', 'src/tensor.h tensor_2t/3t/i1..i3/ig1..ig3')], ['outputs of the kernels'],
  note='built with the naive BLAS kernels; real arithmetic, all sizes in the jobs')
P('P01', 'Quadrature and Lagrange bases are exact for polynomials',
  'Gauss and Gauss-Lobatto rules have increasing symmetric nodes in [-1,1] with positive weights and integrate every polynomial of the degree they promise. Evaluating a Lagrange basis (on arbitrary distinct nodes or on the Gauss-Lobatto nodes) at any point gives the Lagrange polynomials and, when asked, their first and second derivatives; the requested number of derivatives is what gets written.',
  ['inputs', 'configurations'], 'all evaluation points in [-1,1] (all reals, with symbolic nodes, for 1 and 2 nodes), all polynomials of the promised degree with coefficients in [-1,1], orders 1..33 for rules and 2..26 for Gauss-Lobatto bases',
  'Tests print errors at a few points of one order; each order has generated code of its own, and every point of the element is used by the point search.',
  ['src/poly.c', 'src/poly.h', 'src/gen_poly_imp.c', 'src/poly_imp.h'], [('node tables and Newton refinement', 'src/poly.c gauss_nodes, lobatto_nodes'), ('generic basis', 'src/poly.c lagrange_setup, lagrange_*'), ('unrolled Gauss-Lobatto bases', 'src/poly_imp.h gll_lag_nn')], ['nodes, weights and basis values returned'],
  note='real arithmetic on the double constants of the code; tolerances 1e-9..1e-11 scaled by order^2 per derivative absorb the rounding of those constants')
P('B01', 'Polynomial bounds enclose the polynomial everywhere',
  'The piecewise (multi)linear lower and upper bounds computed for values on a Gauss-Lobatto grid enclose the interpolating polynomial at every point of the element, in one to three dimensions, for any number of bound points that is at least twice the number of grid points per direction, and the scalar minimum and maximum bounds are no tighter than the piecewise ones.',
  ['inputs', 'configurations'], 'every point of the segments, for every signed basis polynomial with 2..8 grid points (by non-negativity the pieces of each linear combination of basis functions are covered in 1-D); all data values in [-1,1] on a grid of points for 2..4 points; 2-D and 3-D with 2..4 points per direction',
  'Tests compare bounds with sampled values for a single function; an enclosure must hold between the samples and for all functions.',
  ['src/lob_bnd.c', 'src/lob_bnd.h'], [('bounds of the basis functions', 'src/lob_bnd.c lob_bnd_setup'), ('composition by sign', 'src/lob_bnd.c lob_bnd_fst, lob_bnd_ext'), ('scalar bounds', 'src/lob_bnd.c lob_bnd_1/2/3')], ['bounds from lob_bnd_lin_*, lob_bnd_*'],
  note='real arithmetic, tolerance 1e-9; found while building: with m = n+1 bound points and n >= 4 the enclosure fails, so the property is stated for m >= 2n (the documentation recommends 4n, the point search uses 2n)')

P('E01', 'The element search returns the closest point of the element',
  'Given one element and target points, the search inside the element converges and returns, for each point, reference coordinates in the element at which the distance to the target is stationary subject to the element\'s limits (the closest point), the exact squared distance to it, and flags that mark it interior exactly when the element contains the target; the answer for one point does not depend on the other points, batches or earlier calls, and nothing is left allocated.',
  ['inputs', 'configurations'], 'every target along 10 lines through and past each element (interior, across faces, edges and corners); axis-aligned, sheared and mildly curved elements, 2-D and 3-D, orders 1..2 per direction, up to 3 points per call',
  'The set of active constraints changes along the line; tests use random points and only look at the average error.',
  ['src/findpts_el_2.c', 'src/findpts_el_3.c', 'src/findpts_el.h'], [('trust-region step', 'src/findpts_el_2.c newton_area, newton_edge; src/findpts_el_3.c newton_vol, newton_face, newton_edge'), ('step acceptance', 'src/findpts_el_2.c, src/findpts_el_3.c reject_prior_step_q'), ('seed', 'src/findpts_el_2.c, src/findpts_el_3.c seed'), ('geometry', 'src/findpts_el_2.c, src/findpts_el_3.c get_edge, get_pt, get_face')], ['r, dist2 and flags of the points after findpts_el'],
  note='real arithmetic, tolerance 1e-8; general curved elements and general target positions lead to polynomial systems outside the solver\'s reach within the time limit')

P('H01', 'Distributed point search finds every point that is in the mesh',
  'Every query given to the collective point search is answered at its own position: a point inside some element of any process is found, with the process and element that hold it, reference coordinates that map to it and zero squared distance; a point near the mesh is found as a border point with its distance to the closest location of the element named and no candidate element whose box contains it is closer; a point outside every element\'s box is reported as not found. Interpolation of a field at the points found gives the field\'s value there and leaves points not found untouched; data around the output fields are untouched; the object releases all memory and communicators.',
  ['inputs', 'configurations'], 'all positions of one target along each of 12 lines crossing the mesh, all meshes of axis-aligned elements listed in props.py (overlapping, nested, gaps, processes without elements) on 1..8 processes, several hash sizes, batch sizes and box tolerances, orders 1..2',
  'Tests throw random points into one mesh; ties between overlapping elements, points on process boundaries, in gaps or far outside, and batches with mixed results are rarely or never hit.',
  ['src/findpts.c', 'src/findpts_imp.h', 'src/findpts_local.c', 'src/findpts_local_imp.h'], [('routing by the global hash', 'src/findpts_imp.h hash_index, setup_hash, hash_range'), ('candidate merge', 'src/findpts_imp.h findpts (send candidates to point\'s home, keep the best)'), ('evaluation routing', 'src/findpts_imp.h findpts_eval')], ['code, proc, el, r, dist2 of findpts; output of findpts_eval'], note='real arithmetic; the hash tables and boxes are compared with a margin of 1e-6 at their edges')
P('H02', 'Point search within a process finds every point of its elements',
  'The local search has the same guarantees within one process: each point inside an element is found, a point near one is assigned to the closest candidate, a point outside all boxes is reported as missing, independently of the number of points, of the batch size, of the hash table\'s resolution, and of earlier calls with the same object and scratch buffer; nothing is left allocated after it is freed.',
  ['inputs', 'configurations', 'histories'], 'all positions of a target along 12 lines, 6 meshes of up to 4 elements in 2-D and 3-D, 1..3 points, batch sizes 1..4, hash sizes from the minimum to 60',
  'The local search is only exercised through one regular mesh in the tests.',
  ['src/findpts_local.c', 'src/findpts_local_imp.h', 'src/obbox.c'], [('hash table', 'src/findpts_local_imp.h hash_build, hash_range, hash_index'), ('candidate loop and point sort', 'src/findpts_local_imp.h map_points_to_els, findpts_local')], ['code, el, r, dist2 of findpts_local; output of findpts_local_eval'])
P('H03', 'Interpolation at points found follows the points, fields and elements given',
  'Evaluating a field at found points returns, for each point, the interpolant of the field given in that call in the element and process recorded for it, whatever the order of the points and however they are spread over processes; points not found are left untouched; repeated evaluation - with the same or different fields, after points were changed, reordered, marked as missing, or a different number of points was given - uses the current data of every process.',
  ['histories', 'inputs'], 'all field values, reference coordinates along one direction symbolic, every history kind listed (same points, other field, changed coordinates, moved to another element/process, dropped points), 1..6 processes, up to 5 points per process, batch sizes 1..3',
  'Tests evaluate once, right after the search; reuse across calls is not exercised.',
  ['src/findpts.c', 'src/findpts_imp.h', 'src/findpts_local_imp.h', 'src/lob_bnd.c', 'src/tensor.h'], [('reuse of the previous point set', 'src/findpts_imp.h findpts_eval'), ('grouping by element and batches', 'src/findpts_local_imp.h findpts_local_eval'), ('interpolation', 'src/tensor.h, src/poly.c lagrange')], ['output of findpts_eval'])
P('H04', 'Multi-session search uses admissible sessions only and picks the closest mesh',
  'With several overlapping sessions, each query is answered from an element of a session it admits (any other session, or exactly the session it names), and among the sessions that have a candidate for it the one with the largest interpolated value of the distance field given at setup (depth inside the session) wins; otherwise the guarantees are those of the ordinary search, and evaluation gives the field of the chosen session.',
  ['inputs', 'configurations'], 'all positions of one target along 10-12 lines, all values of the sessions\' distance fields in [-1,1], up to 3 sessions on 2..5 (8 thorough) processes with overlapping elements, both matching modes',
  'Tests cannot place points at every overlap with every ordering of distances.',
  ['src/findpts.c', 'src/findpts_imp.h', 'src/findpts_local_imp.h'], [('session filter', 'src/findpts_local_imp.h findptsms_local'), ('merge by distance value', 'src/findpts_imp.h findptsms')], ['code, proc, el, r, dist2 of findptsms; output of findptsms_eval'])
P('F01', 'The Fortran point-search interface has the same guarantees as the C one',
  'Setup, search, evaluation and release through the Fortran interface, in 2-D and 3-D, single and multi-session, honour every stride and every field and give the guarantees of the C interface; handles of different objects are different, and releasing a handle releases all of its memory except the handle table.',
  ['inputs', 'configurations'], 'as H01 and H04, on up to 4 processes, with interleaved record layouts (stride 13 doubles)',
  'No test calls the Fortran interface of the point search.',
  ['src/findpts.c'], [('wrappers', 'src/findpts.c ffindpts_setup, ffindpts, ffindpts_eval, ffindpts_free and the ms variants')], ['the arguments of the Fortran entry points'])
P('B02', 'Bounding boxes contain their elements',
  'The axis-aligned box and the oriented box computed for an element contain every point of the (possibly curved) element, expanded by the tolerance given, are the hull for straight elements, and the membership test accepts the points of the element and rejects distant ones, for any order per direction, in 2-D and 3-D.',
  ['inputs'], 'every point along 8 (2-D) or 16 (3-D) segments covering faces, edges and inside of each of 1..3 elements: affine, bilinear, quadratic, cubic and quartic geometries, orders 1..6 with different orders per direction',
  'A box that misses a sliver of a curved element loses points only for rare geometries and positions.',
  ['src/obbox.c', 'src/obbox.h', 'src/lob_bnd.c'], [('bounds of faces', 'src/obbox.c obbox_calc_2, obbox_calc_3'), ('merge of the bounds', 'src/obbox.c dbl_range_merge, dbl_range_expand'), ('bounds of a polynomial', 'src/lob_bnd.c lob_bnd_lin_*')], ['struct obbox_2/3; obbox_test'], note='geometry given by fixed families of polynomial maps; positions symbolic; real arithmetic with 1e-9 tolerance')

P('V01', 'Every build variant gives the same guarantees',
  'The guarantees do not depend on how the library is built: without message passing (one process), without nonblocking collectives, with 32-bit or 64-bit local and global integers, with long or long long as the wide type, and with any of the matrix-kernel back ends (own kernels, CBLAS, a Fortran kernel supplied by the user), sorting, transfers, collectives, gather-scatter, point search, interpolation and their Fortran interfaces do what they do in the default build.',
  ['configurations', 'inputs'], 'seven build configurations beside the default one; the inputs of the other properties with smaller bounds (1..4 processes, up to 3 entries or rows, all values)',
  'The tests are built in one configuration. Width- and configuration-dependent code (digit loops, identities, sizes of integers in messages, back-end argument order) is never run in the others.',
  ['src/types.h', 'src/comm.h', 'src/comm.c', 'src/crystal.c', 'src/sort.c', 'src/gs.c', 'src/gs_defs.h', 'src/tensor.h', 'src/findpts.c'], [('integer types by configuration', 'src/types.h'), ('serial stand-ins', 'src/comm.h, src/crystal.c, src/gs.c'), ('kernel back ends', 'src/tensor.h')], ['as the property whose guarantee is meant'],
  note='CBLAS and the Fortran kernel are replaced by their definitions (engine/include/cblas.h, harness/common.h)')
P('L01', 'Fortran handles always reach their own object, or are refused',
  'Through any history of setting up, using and freeing gather-scatter, crystal-router and point-search handles, each live handle reaches the object it was made for and no two live handles of a kind are equal. Freed or never issued handles, unknown type or operation codes, an impossible dimension and a process count that does not match the communicator end the program with a nonzero status instead of being acted on. When every handle has been freed no communicator, request or object memory remains.',
  ['histories', 'inputs', 'configurations'], 'all histories of up to 5 steps (and of up to 3 further steps after up to 8 handles exist) on 1..3 processes, every object shape used, all values; every entry point in the misuse cases; builds with and without MPI and with the user exit handler',
  'Handle tables grow and keep holes; no stable test frees a handle in the middle or passes a stale one.',
  ['src/gs.c', 'src/fcrystal.c', 'src/findpts.c', 'src/fail.c', 'src/comm.h'], [('handle tables', 'src/gs.c fgs_setup_pick, fgs_free; src/fcrystal.c; src/findpts.c handle_array'), ('checks of handles and codes', 'src/gs.c fgs_check_parms, fgs_check_handle; CHECK_HANDLE in src/fcrystal.c and src/findpts.c'), ('communicator check', 'src/comm.h comm_init_check')], ['handles returned, results of the operations, exit status'])

NA = []
exec(open(os.path.join(HERE, 'tools', 'meta2.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'meta2.py')) else None

def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for e, note in E:
            f.write(json.dumps(e) + '\n')
    claimed = [(e, n) for e, n in E if e['id'] in props.PROPS]
    checks = []
    for e, n in claimed:
        checks.append({'property': e['id'], 'quick_cmd': 'python3 run.py %s quick' % e['id'], 'thorough_cmd': 'python3 run.py %s thorough' % e['id'],
                       'technique': 'bounded symbolic execution of the LLVM bitcode of /repo with Z3 deciding each obligation over all values in the bounds; counterexamples replayed natively',
                       'level': 'model_checking', 'level_note': n or ('all inputs within: ' + e['quantifier']['text'])})
    m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': checks,
         'not_applicable': [{'property': p, 'reason': r} for p, r in NA],
         'notes': 'No hooks: the checks compile /repo\'s sources as they are. See DESIGN.md for bounds and the execution model.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
main()
