#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=" ".join(statement.split()),
      quantifier=dict(over=over,text=" ".join(text.split())),
      why_tests_cant=" ".join(why.split()),
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)

prop("C01","Gather-scatter computes the group reduction for every id pattern",
"""A gather-scatter operation gives every participating entry the reduction (add, multiply, min, max or binary prefix, in any supported
datatype) over all entries on all processes whose id has the same absolute value: entries with negative id are left out of the reduction
but still receive it, and with the transpose flag they contribute but do not receive it, while entries with id zero are never touched.
The result is the same whichever communication method the handle was set up with (pairwise, crystal router, all-reduce or automatic
choice, on which all processes agree), for any number of processes, any number of local entries (including none) and any number of
successive calls on the same handle.""",
["inputs","configurations","histories"],
"""all process counts, id arrays (signs, zeros, duplicates, 64-bit ids, empty ranks), datatypes, operations, transpose values, methods and call sequences""",
"""Tests use one fixed id pattern per program, only double addition, only two of the four methods at np<=4, and mostly print instead of comparing.""",
["src/gs.c","src/gs_local.c","src/comm.c","src/gs.h","src/gs_defs.h"],
[("topology discovery through the crystal router","src/gs.c:get_topology"),("pairwise / crystal / allreduce maps and execution","src/gs.c:pw_setup,cr_setup,allreduce_setup"),("local gather/scatter maps","src/gs.c:local_map, src/gs_local.c")],
["user value arrays before and after gs()"])

prop("C02","Vector and multi-array gather-scatter equal the scalar operation",
"""The packed-vector gather-scatter on k components and the multi-array gather-scatter on k arrays produce exactly what k separate scalar
gather-scatters on the components or arrays would produce, for every method, datatype, operation and transpose flag. They do so with one
combined exchange: the number of messages sent by each process does not depend on k.""",
["inputs","configurations"],
"""all k, id patterns, process counts, methods, datatypes, operations, transpose flags""",
"""Tests use k<=3 with one id pattern and one datatype; the message count is never observed.""",
["src/gs.c","src/gs_local.c"],
[("mode tables plain/vec/many","src/gs.c:gs_aux"),("vector and many kernels","src/gs_local.c")],
["user arrays","MPI point-to-point and collective call counts per process"])

prop("C03","Unique marking leaves exactly one unflagged entry per id",
"""Making ids unique changes only signs: every id keeps its absolute value, zero stays zero, and over all processes each distinct nonzero
absolute value that had a positively signed entry ends with exactly one positive entry. Setting up a gather-scatter handle with the unique
option behaves exactly like marking a copy of the ids and then setting up, and leaves the caller's id array unmodified.""",
["inputs","configurations"],
"""all id arrays, sign patterns, process counts and methods""",
"""The unique test uses one hand-made id list per process count; the equivalence of the two routes is not tested.""",
["src/gs.c"],
[("owner selection among sharers","src/gs.c:make_topology_unique")],
["id arrays after gs_unique","results of gs on both handles"])

prop("C04","Nonblocking gather-scatter completes to the blocking result in any order",
"""Starting any number of nonblocking gather-scatter operations (scalar, vector or multi-array) on different handles with different
buffers, and waiting for them in any order and with any other work in between, gives each of them exactly the result the blocking call
would have given. Handles returned while other operations are outstanding are distinct and stay valid until waited for, and every
set-up method supports the call when the library is built with nonblocking collectives.""",
["schedules","inputs","histories","configurations"],
"""all interleavings of starts and waits, message timings, methods, id patterns, process counts, datatypes and operations""",
"""Tests start one operation and wait for it at once; no overlap, out-of-order wait, crystal-router handle, or adverse message timing is exercised.""",
["src/gs.c","src/comm.c"],
[("irecv/isend/wait split execution","src/gs.c:pw_exec_irecv,pw_exec_isend,pw_exec_wait,allreduce_exec_i,allreduce_exec_wait"),("outstanding-operation table","src/gs.c:igs,igs_vec,igs_many,gs_wait")],
["user arrays after gs_wait","handle values"],
[("outstanding-operation table","operations started and not yet waited for","src/gs.c: nblkng_dict")])

prop("C05","The Fortran gather-scatter interface matches the C operations",
"""Every Fortran entry point (set-up with automatic or chosen method, scalar, vector, up-to-six-array, strided-fields, nonblocking and wait
variants, unique marking and free) performs the same operation as its C counterpart for each documented datatype code, operation code and
transpose value. Integer handles stay valid and independent of one another through any history of set-ups and frees.""",
["inputs","histories","configurations"],
"""all datatype/operation codes, strides, counts, handles alive at once, process counts""",
"""The only Fortran test is one nonblocking program with fixed data that prints results.""",
["src/gs.c"],
[("Fortran handle table","src/gs.c:fgs_setup_pick,fgs_free"),("code translation and pointer tables","src/gs.c:fgs,fgs_vec,fgs_many,fgs_fields,figs*")],
["user arrays"],
[("handle table","live gather-scatter handles by integer","src/gs.c: fgs_info")])

prop("C06","Reductions, scans and collectives return the exact group result",
"""For every process count, operation, datatype and vector length, an all-reduce leaves on every process the element-wise reduction over all
processes, the scan returns the reduction over strictly lower ranks together with the total, the scalar reduce returns the reduction of
all local arrays (the identity for no data), and the dot product returns the global inner product. Broadcast, gather, duplicate and split
communicators deliver exactly the bytes, ranks and groups requested, and no process leaves a barrier before all have entered it.""",
["inputs","configurations","schedules"],
"""all process counts, group shapes, operations, datatypes, lengths and message timings""",
"""comm_test runs one split and a few reductions with fixed data at np<=4; scan and binary-prefix paths with odd np are not covered.""",
["src/comm.c","src/comm.h","src/gs_defs.h"],
[("hand-written tree all-reduce and scan","src/comm.c:allreduce_imp,scan_imp"),("MPI delegation","src/comm.c:comm_allreduce")],
["output arrays on each rank"])

prop("C07","The crystal router delivers every message exactly once",
"""After a crystal-router exchange each process holds exactly the multiset of messages addressed to it, each with unchanged length and
payload and with the true sending process recorded, and no message is lost, duplicated, split or misrouted. This holds for any process
count, any message lengths including zero and any distribution, and each process takes part in at most two sends per halving of the
process range.""",
["inputs","configurations","schedules"],
"""all process counts, message sets, lengths, orders and message timings""",
"""crystal_test sends one fixed pattern at np<=4, so odd splits and the extra receive branch are barely visited.""",
["src/crystal.c"],
[("recursive halving with keep/send split","src/crystal.c:crystal_move,crystal_exchange,crystal_router")],
["message buffer before and after","MPI send counts"])

prop("C08","Struct-array transfer conserves every row exactly once",
"""Transferring an array of structures moves each row, byte for byte, to the process named in its field (or in a separate list), so that the
union of all arrays is conserved with each row present exactly once and only at its target; the field then holds the source process when
requested and is otherwise unchanged. Transferring twice with source recording returns every row to where it came from, and several
arrays transferred together stay aligned row by row.""",
["inputs","configurations","schedules"],
"""all row sizes and field offsets, row counts (including none), target distributions, process counts and message timings""",
"""sarray_transfer_test uses one 16-byte struct with a fixed pattern; unaligned sizes, empty ranks, hot spots and the multi-array form are not covered.""",
["src/sarray_transfer.c","src/sarray_transfer.h","src/crystal.c"],
[("pack/unpack around the processor field","src/sarray_transfer.c:pack_int,unpack_int,pack_more,unpack_more")],
["arrays before and after on every rank"])

prop("C09","Fortran tuple transfer and sort keep tuples whole and within capacity",
"""The Fortran tuple routines move every integer, long and real column to the process in its key entry with all its parts together, replace
the key by the source, and report the number of tuples received even when it exceeds the declared capacity, in which case exactly the
capacity is kept and nothing outside the caller's arrays is written. The tuple sorts order whole tuples ascending by the given keys in
priority order, stably, as a permutation of the input.""",
["inputs","configurations","histories"],
"""all tuple widths (including zero-width parts), capacities, key lists, process counts, handles""",
"""No existing test calls this interface.""",
["src/fcrystal.c","src/sarray_transfer.c","src/sort.c"],
[("capacity cut","src/sarray_transfer.c:cap_rows"),("handle table","src/fcrystal.c"),("multi-key permutation","src/fcrystal.c:fcrystal_tuple_sort")],
["caller arrays plus guard zones"])

prop("C10","Sorting returns the stable ascending order for every key type",
"""Value sorting returns the keys in ascending order, and index sorting returns a permutation that orders the keys ascending and keeps equal
keys in their previous relative order (starting from a given permutation when continuing), for unsigned integer, long, float and double
keys including negative, infinite and denormal values. This holds for every length, key stride, key distribution and for output on top of
the input, and the input keys are otherwise left unchanged.""",
["inputs"],
"""all key arrays, lengths (including 0, 1 and around algorithm switch-over), strides, key types, starting permutations and scratch sizes""",
"""sort tests use random keys at a few sizes and check order only; ties, strides, continuing sorts and special floats are not covered.""",
["src/sort.c","src/sort_imp.h","src/sort.h"],
[("radix and merge sorts with size switch","src/sort_imp.h"),("float key mapping","src/sort.c, src/sort_imp.h")],
["sorted output and permutation"])

prop("C11","Struct sorting and permuting rearranges whole records correctly",
"""Sorting an array of structures by one to four fields of mixed key types yields a permutation of the original records, each intact, in
lexicographic ascending field order with ties kept in input order. Permuting by an explicit permutation places at each position exactly
the record the permutation names, for any record size and alignment, and hands the permutation back unchanged; inverting a permutation
gives its inverse. Growable arrays keep every record, in order, through reserving, resizing to a larger capacity and appending.""",
["inputs"],
"""all record layouts, lengths, field combinations, key types and permutations (including long cycles and identity)""",
"""sarray_sort_test sorts one struct with fixed fields and prints.""",
["src/sarray_sort.c","src/sarray_sort.h","src/mem.h","src/sort.c"],
[("cycle-following in-place permute","src/sarray_sort.c:sarray_permute_"),("chained stable key sorts","src/sarray_sort.h:sarray_sort_field")],
["record arrays before and after"])

prop("C12","Quadrature nodes and weights are exact to rounding",
"""For every supported number of points, the Gauss and Gauss-Lobatto nodes are ascending, symmetric, distinct, inside the interval (with both
end points for Lobatto) and zeros of their defining polynomial, and the weights are positive and integrate every polynomial up to the
nominal degree exactly, all to within rounding error (of the defining polynomial's own conditioning).""",
["inputs","configurations"],
"""all numbers of points""",
"""poly_test checks a handful of sizes.""",
["src/poly.c","src/poly.h"],
[("Newton iteration on Legendre polynomials","src/poly.c"),("tabulated small sizes","src/poly_imp.h")],
["returned nodes and weights"])

prop("C13","Lagrange basis and derivatives interpolate polynomials exactly",
"""For any set of distinct nodes and any evaluation point, including the nodes themselves and the interval ends, the Lagrange evaluation
returns the basis values and, as requested, first and second derivatives, such that every polynomial of degree below the number of nodes is
reproduced exactly up to rounding; the specialised Gauss-Lobatto evaluator agrees with the general one for every size. Evaluations with
fewer derivatives return the same values as those with more, and evaluation has no memory of earlier points.""",
["inputs","configurations","histories"],
"""all node counts, node sets, evaluation points, derivative orders and call sequences""",
"""poly_test samples a few sizes and a few points.""",
["src/poly.c","src/poly_imp.h","src/gen_poly_imp.c","src/poly.h"],
[("generated fixed-size evaluators and general fallback","src/poly_imp.h:gll_lag_fix, src/poly.c:lagrange_setup/gll_lag_setup")],
["returned basis values"])

prop("C14","Tensor-product kernels equal their definition in every build",
"""The dense kernels (dot product, matrix-vector and matrix-matrix products) and the one-, two- and three-dimensional tensor-product
applications, interpolations and gradients return their defining sums to rounding accuracy for all positive sizes, and write exactly their
declared outputs. The builds with the built-in, the BLAS and the application-supplied matrix product agree.""",
["inputs","configurations"],
"""all matrix and tensor sizes, data and both BLAS configurations""",
"""No test targets the kernels; they run only inside the search tests at a few sizes.""",
["src/tensor.c","src/tensor.h"],
[("naive and BLAS variants","src/tensor.c"),("tensor inlines","src/tensor.h")],
["outputs and guard zones"])

prop("C15","Polynomial bounds always enclose the polynomial",
"""The lower and upper bounds computed for a one-, two- or three-dimensional polynomial given at Gauss-Lobatto nodes enclose its value at
every point of the reference cube, and the piecewise-linear bounding functions enclose it pointwise, for every data set and number of nodes
with at least twice as many bounding points as nodes. A lower bound never exceeds the upper bound, bounds scale with the data, are tight for
constants and linear functions up to rounding, and stay within a small factor of the data's spread.""",
["inputs","configurations"],
"""all coefficient arrays, node counts and bounding-point counts""",
"""lob_bnd_test samples random polynomials for a few sizes in one dimension pattern.""",
["src/lob_bnd.c","src/lob_bnd.h"],
[("bounding basis functions","src/lob_bnd.c:lob_bnd_setup"),("tensor accumulation of bounds","src/lob_bnd.c:lob_bnd_lin_2,lob_bnd_lin_3")],
["bound intervals"])

prop("C16","Element bounding boxes contain the whole element",
"""For every valid two- or three-dimensional spectral element, every point of the curved element lies inside both the axis-aligned and the
oriented bounding box computed for it, the box tests accept it, and a box grows with the requested relative tolerance. The axis-aligned box
is at most twice the true extent and the oriented box stays of the element's size, so points well away from the element are rejected.""",
["inputs","configurations"],
"""all element geometries (curved, skewed, stretched, mirrored, shifted), orders, bound resolutions and tolerances""",
"""obbox_test samples one family of random quadratic elements at one order.""",
["src/obbox.c","src/obbox.h","src/lob_bnd.c"],
[("bounds of linearly transformed element","src/obbox.c:obbox_calc_2,obbox_calc_3")],
["boxes and box tests"])

prop("C17","Single-element search finds the closest point of the element",
"""Searching one non-degenerate element returns reference coordinates in the closed reference cube and, when the iteration converges, a squared distance equal to the true
squared distance between the query and the element at these coordinates. Points of the element are found with zero distance to within
tolerance. For points outside, the answer satisfies the conditions of a closest point (constrained coordinates exactly on the boundary,
flagged, and no descent along the free ones), is never farther than the nearest node, and for well-shaped elements and nearby points no
other point of the element is closer. Points searched together do not influence one another.""",
["inputs","configurations"],
"""all element shapes, orders, query points (interior, faces, edges, corners, outside), batch sizes and start guesses""",
"""The element tests sample random points of random quadratic elements at one order and report maximal error only.""",
["src/findpts_el_2.c","src/findpts_el_3.c","src/findpts_el.h"],
[("constrained Newton with trust region over faces, edges, corners","src/findpts_el_3.c:findpt_vol,findpt_area,findpt_edge,findpt_pt")],
["per-point result records"])

prop("C18","Local search classifies and locates every query point",
"""The per-process search over several elements (at least one) finds every point lying in one of them (code inside or on border, an element
containing it, coordinates mapping back to it, matching distance) and reports points beyond the tolerance-expanded boxes as not found, for
any hash size, batch size, number of elements and argument strides. A point strictly outside every element is never reported as inside.
Each point's answer depends only on that point and the mesh.""",
["inputs","configurations","histories"],
"""all meshes, query sets, hash sizes, batch sizes, strides and repeated calls""",
"""findpts_local_test runs one mesh and one batch size and prints statistics.""",
["src/findpts_local.c","src/findpts_local_imp.h","src/findpts_local.h"],
[("cell hash of element boxes","src/findpts_local_imp.h"),("candidate loop and best-result rule","src/findpts_local_imp.h:findpts_local")],
["code, element, coordinate and distance arrays"])

prop("C19","Distributed search finds each point on the owning process",
"""However a mesh of at least one element and the query points are distributed over processes, a collective search reports a point inside the
mesh as found with a process and element that contain it and coordinates that map back to it, a point just outside as on the border with its
true squared distance, and a point far from the mesh as not found. The quality of the answer does not depend on the number of processes,
hash sizes, batch limit, strides, order of the points or previous searches.""",
["inputs","configurations","histories","schedules"],
"""all mesh partitions (including processes with no points), query sets, hash sizes, batch limits, strides and message timings""",
"""findpts_test uses one mesh family, points all inside, fixed sizes and prints error maxima.""",
["src/findpts.c","src/findpts_imp.h","src/findpts.h"],
[("global hash of boxes to processes","src/findpts_imp.h"),("routing of queries and best-answer selection","src/findpts_imp.h:findpts")],
["code/proc/el/r/dist2 arrays"])

prop("C20","Field evaluation returns the element interpolant at each located point",
"""Evaluating a field at located points returns, for each point with a found code, the polynomial interpolant of the field in the given
element of the given process at the given coordinates, and does not touch the output of points marked not found. This holds for any field,
any number of evaluations after a search, any strides, and for location lists supplied, permuted, restricted or changed by the caller at any
time.""",
["inputs","histories","configurations","schedules"],
"""all fields, point lists, strides, process counts and sequences of searches and evaluations""",
"""Tests evaluate the coordinate field once right after the search with the same list.""",
["src/findpts_imp.h","src/findpts_local_imp.h","src/findpts.c"],
[("routing to owner and back","src/findpts_imp.h:findpts_eval"),("element interpolation","src/findpts_el_2.c:findpts_el_eval_2, src/findpts_el_3.c")],
["output arrays plus guard zones"])

prop("C21","Multi-session search honours session filters and overlap priority",
"""In a multi-session search every query point is answered only from elements of its own session or only from other sessions, as requested
per call, and is reported not found when no permitted session contains it. Of each permitted session the best answer is considered; when
several permitted sessions contain the point, the reported answer is that of the session whose interpolated priority field is largest at
the point, and evaluation then uses exactly the reported element.""",
["inputs","configurations"],
"""all session layouts, overlaps, priority fields, filters, process counts""",
"""The multi-session test uses one fixed two-session overlap and prints errors.""",
["src/findpts_imp.h","src/findpts_local_imp.h","src/findpts.c"],
[("session filter and priority comparison","src/findpts_local_imp.h, src/findpts_imp.h")],
["code/proc/el/r arrays"])

prop("C22","No operation makes an invalid memory access or reads garbage",
"""Under valid use no library operation reads or writes outside the caller's arrays and its own live allocations, uses memory after release
or after scope exit, branches on or returns values never written, or executes undefined arithmetic such as signed overflow, bad shifts
or division by zero. This covers exactly sized caller buffers, empty inputs and boundary sizes in every part of the library.""",
["inputs","histories","configurations"],
"""all valid inputs to every part of the library, including zero-length and boundary sizes""",
"""Tests run without instrumentation and with generously sized arrays, so silent overreads, stale pointers and uninitialised reads go unnoticed.""",
["src/gs.c","src/gs_local.c","src/comm.c","src/crystal.c","src/sarray_transfer.c","src/fcrystal.c","src/sort_imp.h","src/sarray_sort.c","src/poly.c","src/lob_bnd.c","src/obbox.c","src/findpts_imp.h","src/findpts_local_imp.h","src/findpts_el_2.c","src/findpts_el_3.c","src/mem.h"],
[("growing buffers and arrays","src/mem.h"),("size formulas of work areas","throughout")],
["sanitizer reports"])

prop("C23","Releasing objects returns every resource they acquired",
"""Setting up and freeing any object (gather-scatter handles of every method, crystal routers, searches, Fortran handles), any number of
times and in any order, leaves no allocated memory behind apart from a bounded reusable scratch area and handle tables, no live
communicator, no pending request and no unreceived message. Operations on live objects do not accumulate memory with the number of calls.""",
["histories","configurations"],
"""all sequences of set-up, use and free, all methods and process counts""",
"""No test observes allocations, communicators or requests; a leak per call changes no output.""",
["src/gs.c","src/crystal.c","src/fcrystal.c","src/findpts.c","src/findpts_imp.h","src/findpts_local_imp.h","src/comm.h"],
[("free routines","src/gs.c:gs_free, pw_free, cr_free, allreduce_free"),("communicator duplication and release","src/comm.h, src/crystal.c, src/findpts_imp.h")],
["allocation counters","live communicator and request counters at the MPI boundary"])

prop("C24","Communication is correct under every legal message-passing behaviour",
"""All collective operations of the library complete without deadlock when sends do not buffer and messages are delayed or reordered as the
message-passing standard permits, never touch a buffer while a transfer on it is pending, match every send with a receive of fitting size,
and call collectives in the same order on all processes of the group. Their results do not depend on message timing, and they never consume
or disturb messages the application has pending on its own communicator.""",
["schedules","configurations","inputs"],
"""all legal message-passing schedules, buffering behaviours, process counts and concurrent application traffic""",
"""A real MPI on one node buffers small messages eagerly and delivers in near-lockstep, so tests see one benign schedule.""",
["src/gs.c","src/comm.c","src/comm.h","src/crystal.c","src/findpts_imp.h","src/sarray_transfer.c"],
[("receive-before-send posting and wait-all","src/gs.c, src/crystal.c"),("tree schedules","src/comm.c"),("private communicators","src/comm.h:comm_dup")],
["every MPI call and its buffers"])

prop("C25","Misuse of integer handles and arguments is reported, never obeyed",
"""Passing an out-of-range, never-issued or already-freed handle, an invalid datatype, operation code, sort key or dimension, or a wrong process
count to the Fortran-facing routines ends the process with a nonzero status and a diagnostic naming the problem, without touching the
caller's data. Waiting for an operation that is not outstanding is reported or does nothing. Printing a diagnostic never corrupts memory
whatever the message.""",
["inputs","histories"],
"""all invalid argument values and handle histories""",
"""No test provokes an error path.""",
["src/gs.c","src/fcrystal.c","src/findpts.c","src/fail.c","src/comm.h"],
[("handle and parameter checks","src/gs.c:fgs_check_parms, src/fcrystal.c:CHECK_HANDLE, src/findpts.c"),("diagnostics and exit","src/fail.c")],
["exit status, diagnostic text, caller arrays"])

prop("C26","The Fortran search interface matches the C search",
"""Setting up, searching, evaluating and freeing through the Fortran interface gives the same locations and values as the C interface for
two- and three-dimensional meshes, any element counts, strides and numbers of points, with several searches alive at once. Process and
element numbers reported to Fortran follow its documented numbering and are accepted back by evaluation.""",
["inputs","histories","configurations"],
"""all dimensions, meshes, strides, handle histories and process counts""",
"""No existing test calls this interface.""",
["src/findpts.c"],
[("handle table and dimension dispatch","src/findpts.c:ffindpts_setup,ffindpts,ffindpts_eval,ffindpts_free")],
["Fortran output arrays"])

prop("C27","The library without message passing behaves as one process",
"""Built without message passing, every operation (gather-scatter with any method, unique marking, transfers, routing, reductions, scans and
searches) gives exactly the one-process result: reductions return local data, transfers to self keep all rows, and no such call fails for
lack of message passing (explicit point-to-point messages to oneself are not offered in this build).""",
["inputs","configurations"],
"""all inputs in the serial configuration""",
"""All stable test configurations are built with message passing.""",
["src/comm.h","src/comm.c","src/crystal.c","src/gs.c","src/findpts_imp.h"],
[("serial stubs","src/comm.h"),("np==1 paths","src/gs.c, src/crystal.c")],
["outputs of the serial build"])

prop("C28","Independent objects and earlier operations never influence a result",
"""Any interleaving of operations on any number of live gather-scatter handles, crystal routers and searches, sharing or not sharing caller
scratch buffers, gives each operation the result it would give in a fresh process. In particular results do not depend on earlier sizes,
datatypes, leftover scratch contents or on other objects having been created or freed.""",
["histories","schedules","configurations"],
"""all histories of operations over several live objects""",
"""Each test program exercises one object at a time in a fixed order.""",
["src/gs.c","src/crystal.c","src/mem.h","src/findpts_imp.h"],
[("shared static scratch","src/gs.c: static_buffer"),("reusable growing buffers","src/mem.h"),("evaluation cache","src/findpts_imp.h")],
["outputs of every operation in a long random history"])

prop("C29","Every configured integer width gives the same guarantees",
"""The widths of local and global integers (int, long, long long) are chosen when the library is built. In every such configuration
gather-scatter, unique marking, collectives, routing and searching give the reference result for ids that fit the configured width, and
so do row and tuple transfers and sorting wherever global integers are 64 bits wide; ids that differ only in their upper 32 bits stay
different there.""",
["inputs","configurations"],
"""all inputs in the configurations with GLOBAL_LONG, without any width option (int everywhere) and with LONG_LONG for local integers too""",
"""All stable test configurations use GLOBAL_LONG_LONG.""",
["src/types.h","src/sort.c","src/sort.h","src/gs_defs.h","src/gs.c","src/comm.c","src/fcrystal.c"],
[("width selection","src/types.h"),("sorts per type","src/sort.c, src/sort.h"),("domains of Fortran and C","src/gs_defs.h, src/gs.c:fgs_dom"),("MPI types","src/comm.c")],
["outputs of every operation in builds with other widths"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
