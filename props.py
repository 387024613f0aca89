"""Which workloads decide which property, and how much of them each tier runs."""
# chunk sizes of the driver tables (cases per process group)
DRIVERS = {
  't_gs': dict(C01=16, C02=16, C03=16, C04=12, C05=8),
  't_comm': dict(C06=32),
  't_crystal': dict(C07=24, C08=24, C09=24),
  't_sort': dict(C10=40, C11=40),
}
def J(v, d, p, q, t=None, **k):
    r = dict(v=v, d=d, p=p, q=q, **k)
    if t: r['t'] = t
    return r
VM = ['ranks run as processes that are scheduled one at a time at MPI calls by a seeded scheduler; vmpi implements the MPI subset the library uses',
      'finite floating-point data; ids and sizes within 32-bit message limits']
def gsrule(s): return s + '; non-trivial: at least one nonzero id / message / row exists; distinct by a hash of process count, pattern, method and call sequence'
PROPS = {}
def prop(pid, jobs, rule, assume=None, **k): PROPS[pid] = dict(jobs=jobs, rule=rule, assume=assume or VM, **k)

prop('C01', [J('plain','t_gs','C01',9000), J('asan','t_gs','C01',1200)], gsrule('random id patterns (13 styles, negative and zero ids), 1-37 processes, every set-up method, sequences of scalar operations over all datatypes and operators'))
prop('C02', [J('plain','t_gs','C02',6000), J('asan','t_gs','C02',800)], gsrule('vector and multi-array operations compared with a per-component reference and with message counts'))
prop('C03', [J('plain','t_gs','C03',8000), J('asan','t_gs','C03',1000)], gsrule('unique marking over random patterns, then set-up with and without the unique option'))
prop('C04', [J('plain','t_gs','C04',4000), J('nbc','t_gs','C04',4000), J('asannbc','t_gs','C04',600)], gsrule('several handles with random start/wait interleavings of nonblocking operations, with application messages pending'))
prop('C05', [J('plain','t_gs','C05',5000), J('nbc','t_gs','C05',2000), J('asan','t_gs','C05',600)], gsrule('random histories of Fortran set-up, operations of every entry point, wait, unique and free'))
prop('C06', [J('plain','t_comm','C06',16000), J('nbc','t_comm','C06',4000), J('asan','t_comm','C06',2000)], gsrule('random sequences of collectives on world, permuted, split and duplicated communicators'))
prop('C07', [J('plain','t_crystal','C07',16000), J('asan','t_crystal','C07',2500)], gsrule('random message distributions routed over 1-37 processes'))
prop('C08', [J('plain','t_crystal','C08',12000), J('asan','t_crystal','C08',2000)], gsrule('random structure arrays transferred, returned and transferred together'))
prop('C09', [J('plain','t_crystal','C09',14000), J('asan','t_crystal','C09',2000)], gsrule('random histories of Fortran tuple transfers and sorts over several router handles, exactly sized columns'))
prop('C10', [J('plain','t_sort','C10',16000), J('asan','t_sort','C10',3000)], 'random key arrays of every type, length, stride and distribution; non-trivial: more than one key; distinct by a hash of the keys', ['none beyond the sandbox toolchain'])
prop('C11', [J('plain','t_sort','C11',16000), J('asan','t_sort','C11',3000)], 'random records of many layouts sorted by one to four fields, and permuted, permutations inverted, growable arrays against a model; distinct by a hash of keys and layout', ['none beyond the sandbox toolchain'])
DRIVERS['t_poly'] = dict(C12=40, C13=40)
DRIVERS['t_tensor'] = dict(C14=40)
NUM = ['the oracle is evaluated in 80-bit long double']
TN = 'runtime monitoring: long-double reference oracle over guarded exactly sized buffers, ASan/UBSan/MSan builds'
prop('C12', [J('plain','t_poly','C12',1200,9000), J('asan','t_poly','C12',300,2000), J('msan','t_poly','C12',300,2000)], 'every n from 1 to 120 for both rules, then random n up to 160 (thorough 400); distinct by n and rule', NUM, tech=TN)
prop('C13', [J('plain','t_poly','C13',24000), J('asan','t_poly','C13',4000), J('msan','t_poly','C13',4000)], 'random node sets (Gauss, Lobatto, equispaced, jittered, shuffled, scaled) and the specialised Gauss-Lobatto evaluators of every size 2..60 at nodes, end points, neighbours of nodes, outside points; distinct by nodes and points', NUM, tech=TN)
prop('C14', [J('plain','t_tensor','C14',24000), J('cblas','t_tensor','C14',8000), J('mxm','t_tensor','C14',8000), J('asan','t_tensor','C14',3000), J('msan','t_tensor','C14',2000)], 'random sizes 1..40 and up to 400, magnitudes and kernels in the built-in, CBLAS and application-mxm builds; distinct by kernel and size sequence', NUM, tech=TN)
DRIVERS['t_bnd'] = dict(C15=20, C16=20)
prop('C15', [J('plain','t_bnd','C15',60000), J('asan','t_bnd','C15',6000), J('msan','t_bnd','C15',4000)], 'random 1-, 2- and 3-d data sets (noise, spikes, constant, linear, smooth, alternating, scaled) with 2..24 (sometimes more) nodes and at least twice as many bounding points, compared at nodes, breakpoints and random points; distinct by seed, sizes and style', NUM, tech=TN)
prop('C16', [J('plain','t_bnd','C16',40000), J('asan','t_bnd','C16',4000), J('msan','t_bnd','C16',3000)], 'random valid curved elements (rotated, stretched, mirrored, offset, distorted up to 75%) sampled on faces and inside; distinct by seed', NUM, tech=TN)
DRIVERS['t_fp'] = dict(C17=20, C18=20, C19=10, C20=10, C21=10, C26=10)
FPA = ['elements are valid (smooth, non-inverted) maps; positions are judged against a long-double evaluation of the polynomial elements', 'the mesh has at least one element']
prop('C17', [J('plain','t_fp','C17',16000), J('asan','t_fp','C17',1600), J('msan','t_fp','C17',1200)], 'random curved 2-d and 3-d elements with points inside, near, on and off them; non-trivial: points searched; distinct by a hash of sizes and parameters', FPA)
prop('C18', [J('plain','t_fp','C18',20000), J('asan','t_fp','C18',3000), J('msan','t_fp','C18',2000)], 'random meshes of one process (with holes and repeated elements), hash sizes and layouts; distinct by a hash of the mesh', FPA)
prop('C19', [J('plain','t_fp','C19',6000), J('asan','t_fp','C19',800), J('msan','t_fp','C19',500)], 'random meshes spread over 1-37 processes (some empty), random points on each; distinct by a hash of processes, mesh and points', VM+FPA)
prop('C20', [J('plain','t_fp','C20',6000), J('asan','t_fp','C20',800), J('msan','t_fp','C20',500)], 'random sequences of searches, changed lists and evaluations; distinct by a hash of processes, mesh and sequence', VM+FPA)
prop('C21', [J('plain','t_fp','C21',5000), J('asan','t_fp','C21',600), J('msan','t_fp','C21',400)], 'one to three overlapping sessions, random ids, match flags and priority fields; distinct by a hash of processes, sessions and fields', VM+FPA)
DRIVERS['t_fp']['C26'] = 10
DRIVERS['t_err'] = dict(C25=6)
prop('C25', [J('plain','t_err','C25',8000), J('asan','t_err','C25',1200), J('msan','t_err','C25',800), J('serialasan','t_err','C25',600,args=['--np','1'])], 'random histories of set-ups and frees followed by calls with out-of-range, never issued or freed handles, invalid codes, keys, dimensions or process counts; distinct by a hash of the history and the calls',
     VM, tech='runtime monitoring: intercepted exit with checks of status, diagnostic and frozen caller data; ASan/UBSan/MSan builds')
prop('C26', [J('plain','t_fp','C26',4000), J('asan','t_fp','C26',500), J('msan','t_fp','C26',350)], 'random histories of Fortran set-ups, searches, evaluations and frees over up to four live searches, each next to the C interface on the same data; distinct by a hash of the history', VM + FPA,
     tech='runtime monitoring: differential oracle against the C interface (bitwise) with numbering checks, guarded exactly sized buffers, ASan/UBSan/MSan builds')
ALL = [(d, p) for d in ('t_gs', 't_comm', 't_crystal', 't_sort', 't_poly', 't_tensor', 't_bnd', 't_fp') for p in DRIVERS[d]]
# relative cost of the workloads: cases one process finishes in about a second
RATE = dict(C01=150, C02=80, C03=90, C04=75, C05=70, C06=280, C07=210, C08=250, C09=240, C10=2200, C11=2200, C12=350, C13=8000, C14=8000, C15=2000, C16=1200, C17=600, C18=1200, C19=90, C20=90, C21=55, C26=35)
def cross(variants, secs, mode=None, keys=None, only=None, skip=(), **k):
    """every workload under one more monitor"""
    args = (['--mode', mode] if mode else []) + (['--keys', keys] if keys else [])
    return [J(v, d, p, max(DRIVERS[d][p], int(RATE[p] * s * f)), args=args, **k) for v, f in variants for d, p in ALL if (only is None or p in only) and p not in skip for s in [secs]]
MEMKEYS = '^(crash|unexpected-exit|oob-write|input-modified|double-free|heap-overflow|use-after-free|mpi-buffer-oob|mpi-truncate)'
MPIKEYS = '^(mpi-|deadlock|hang|app-message)'
LEAKKEYS = '^(leak-|mpi-request|mpi-unreceived|mpi-unmatched|mpi-free|mpi-stale)'
RANKS = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C19', 'C20', 'C21', 'C26')
DRIVERS['t_mix'] = dict(C28=16)
MIX = lambda vs, args: [J(v, 't_mix', 'C28', n, args=args) for v, n in vs]
prop('C22', cross([('asan', .5), ('msan', .45), ('asannbc', .25)], 8, keys=MEMKEYS) + MIX((('asan', 6000), ('msan', 6000)), ['--keys', MEMKEYS]), 'the workloads of every part of the library, in builds that trap invalid memory accesses, reads of memory never written and undefined arithmetic; every caller array is exactly sized and guarded',
     VM + ['the sanitizers see what was executed; pointer arithmetic that is never dereferenced is not judged'], tech='runtime monitoring: ASan, UBSan (halting) and MSan builds plus guarded caller buffers and a canary heap under the workloads of every part')
DRIVERS['t_life'] = dict(C23=6)
prop('C23', [J('plain','t_life','C23',500), J('nbc','t_life','C23',200), J('plain','t_life','C23',150,args=['--mode','leak','--keys',LEAKKEYS])] + cross([('plain', .3), ('nbc', .12)], 8, mode='leak', keys=LEAKKEYS), 'random sets of live objects used again and again and freed in random order; every workload repeated in the same process; allocations, communicators, requests and messages left by the second and later repetitions; distinct by the hash of the workload',
     VM + ['memory the library keeps for reuse may grow in a repetition, not in every one'], tech='runtime monitoring: allocation, communicator, request and message ledgers compared between repetitions of each workload')
prop('C24', cross([('plain', .5), ('nbc', .2)], 8, mode='timing', keys=MPIKEYS, only=RANKS) + MIX((('plain', 8000), ('nbc', 4000)), ['--mode', 'timing', '--keys', MPIKEYS]), 'every communicating workload under rendezvous sends, delayed progress and starved processes, with application messages pending, compared bit by bit with a run under benign timing; distinct by the hash of the workload',
     VM, tech='runtime monitoring: MPI semantics checker (matching, buffers, requests, collective order, deadlock) under adversarial seeded schedules; differential against benign timing')
prop('C27', [J(v, d, p, max(DRIVERS[d][p], int(RATE[p] * f)), args=['--np', '1']) for v, f in (('serial', 30), ('serialasan', 5), ('serialmsan', 5)) for d, p in ALL if p in RANKS + ('C17', 'C18')], 'the workloads of every communicating part in builds without message passing; distinct by the hash of the workload',
     ['a build without message passing has no point-to-point messages, also not to itself'], tech='runtime monitoring: the one-process reference oracles of C01-C09, C17-C21, C26 on builds without message passing, also under ASan/UBSan/MSan')
prop('C28', cross([('plain', .45), ('nbc', .15)], 8, mode='history', keys='^(only-|result-depends)') + MIX((('plain', 14000), ('nbc', 10000)), ['--mode', 'history', '--keys', '^(only-|result-depends)']), 'random sequences of workloads in one process, each compared bit by bit with the same workload in fresh processes; distinct by the hash of the workload',
     VM + ['sums whose rounding depends on the method chosen by timing are compared by tolerance instead'], tech='runtime monitoring: differential of every workload after a random history against the same workload in fresh processes (bitwise hash of all caller arrays)')
_W = [('gl', 8, ALL), ('int', 6, [x for x in ALL if x[1] not in ('C09', 'C10', 'C11')]), ('allll', 6, [x for x in ALL if x[1] in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C15', 'C16', 'C17')])]
prop('C29', [J(v, d, p, max(DRIVERS[d][p], int(RATE[p] * f))) for v, f, l in _W for d, p in l if p not in ('C12', 'C13', 'C14')], 'the workloads of the parts that use integers of configurable width, in builds with other widths; distinct by the hash of the workload',
     VM + ['ids fit the width the build was configured for'], tech='runtime monitoring: the reference oracles of C01-C11, C15-C21 and C26 on builds with other integer widths')
# the quick checks of the cheap workloads run longer than first laid out
_QF = dict(C01=2, C02=2, C03=2, C04=2, C05=2, C06=2.5, C07=2.5, C08=3, C09=3, C10=8, C11=8, C12=2, C13=8, C14=5, C15=4, C16=2, C17=2, C18=2, C19=2, C20=2, C21=2, C23=1.5, C24=1.5, C26=1.5, C27=1.5)
for _p, _f in _QF.items():
    for _j in PROPS[_p]['jobs']:
        _j.setdefault('t', _j['q'] * 12)
        _j['q'] = int(_j['q'] * _f)
