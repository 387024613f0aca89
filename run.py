#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--scale X]

Builds the library from /repo/src (working tree) with the instrumented MPI and sanitizers, runs the
workload drivers, and decides the property from what the monitors reported."""
import sys, os, json, hashlib, subprocess, time, shutil, threading, queue, struct, glob, re, argparse, signal
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from props import PROPS, DRIVERS
REPO = os.environ.get('GSLIB_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '_build'))
NJ = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 4)

MPI = '-DGSLIB_USE_MPI '
BASE = '-DGSLIB_UNDERSCORE -DGSLIB_PREFIX=gslib_ -DGSLIB_FPREFIX=fgslib_ '
LL = '-DGSLIB_USE_GLOBAL_LONG_LONG '
NAIVE = '-DGSLIB_USE_NAIVE_BLAS '
GCC = 'gcc -O2 -g'
ASAN = ('clang -O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all '
        '-fno-sanitize=nonnull-attribute,pointer-overflow,function')
MSAN = 'clang -O1 -g -fno-omit-frame-pointer -fsanitize=memory -fsanitize-memory-track-origins'
VARIANTS = {
  'plain':  (GCC,  MPI + BASE + LL + NAIVE, ''),
  'nbc':    (GCC,  MPI + BASE + LL + NAIVE + '-DGSLIB_USE_NBC', ''),
  'asan':   (ASAN, MPI + BASE + LL + NAIVE, ''),
  'asannbc':(ASAN, MPI + BASE + LL + NAIVE + '-DGSLIB_USE_NBC', ''),
  'msan':   (MSAN, MPI + BASE + LL + NAIVE, ''),
  'cblas':  (GCC,  MPI + BASE + LL + '-DGSLIB_USE_CBLAS', '-lopenblas'),
  'mxm':    (GCC,  MPI + BASE + LL, ''),
  'serial': (GCC,  BASE + LL + NAIVE, ''),
  'serialasan': (ASAN, BASE + LL + NAIVE, ''),
  'serialmsan': (MSAN, BASE + LL + NAIVE, ''),
  'gl':     (GCC,  MPI + BASE + '-DGSLIB_USE_GLOBAL_LONG ' + NAIVE, ''),
  'allll':  (GCC,  MPI + BASE + '-DGSLIB_USE_LONG_LONG -DGSLIB_USE_GLOBAL_LONG_LONG ' + NAIVE, ''),
  'int':    (GCC,  MPI + BASE + NAIVE, ''),
}
WRAP = '-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=exit'
ENV = dict(os.environ)
ENV.update(ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:exitcode=99:allocator_may_return_null=1:abort_on_error=0:handle_abort=0',
           UBSAN_OPTIONS='print_stacktrace=1', MSAN_OPTIONS='exit_code=98', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', LC_ALL='C')

class BuildError(Exception): pass

def digest(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(os.path.basename(f).encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]

def lib_sources():
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, 'src', '*.c'))):
        t = open(f, errors='replace').read()
        if re.search(r'^\s*int\s+main\s*\(', t, re.M): continue
        out.append(f)
    return out

def run_all(cmds):
    """run shell commands NJ at a time; raise on failure"""
    q = list(cmds); running = []; err = None
    while q or running:
        while q and len(running) < NJ and err is None:
            c = q.pop(0)
            running.append((c, subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for it in list(running):
            if it[1].poll() is not None:
                o = it[1].stdout.read(); running.remove(it)
                if it[1].returncode != 0 and err is None: err = it[0] + '\n' + o
        if err is not None: q = []
        time.sleep(0.005)
    if err: raise BuildError(err)

def build(needs):
    """needs: set of (variant, driver); returns {(variant,driver): path}"""
    hdrs = glob.glob(os.path.join(REPO, 'src', '*.h')) + glob.glob(VERIF + '/vmpi/*') + glob.glob(VERIF + '/h/*.h') + [VERIF + '/h/hmain.c']
    libs = lib_sources(); out = {}; cmds1 = []; cmds2 = []; cmds3 = []; dirs = []
    for v in sorted({n[0] for n in needs}):
        cc, defs, ldl = VARIANTS[v]
        serial = '-DGSLIB_USE_MPI' not in defs
        key = digest(libs + hdrs + glob.glob(REPO + '/src/*.c') + glob.glob(VERIF + '/h/*.c') + [os.path.join(VERIF, 'run.py')], v + cc + defs + ldl)
        d = os.path.join(BUILD, v + '-' + key); inc = f'-I{VERIF}/vmpi -I{VERIF}/h -I{REPO}/src'
        os.makedirs(d, exist_ok=True); dirs.append((v, d))
        objs = []
        for f in libs:
            o = d + '/' + os.path.basename(f)[:-2] + '.o'; objs.append(o)
            if not os.path.exists(o): cmds1.append(f'{cc} {defs} {inc} -w -c {f} -o {o}.tmp && mv {o}.tmp {o}')
        ho = []
        for f in (VERIF + '/vmpi/vmpi.c', VERIF + '/h/hmain.c'):
            o = d + '/H_' + os.path.basename(f)[:-2] + '.o'; ho.append(o)
            if not os.path.exists(o): cmds1.append(f'{cc} {defs} {inc} -DH_HARNESS -w -c {f} -o {o}.tmp && mv {o}.tmp {o}')
        lib = d + '/libgs.a'
        if not os.path.exists(lib): cmds2.append(f'rm -f {lib}.tmp && ar rcs {lib}.tmp ' + ' '.join(objs) + f' && mv {lib}.tmp {lib}')
        for dr in sorted({n[1] for n in needs if n[0] == v}):
            e = d + '/' + dr; do = d + '/D_' + dr + '.o'; out[(v, dr)] = e
            if not os.path.exists(e):
                cmds1.append(f'{cc} {defs} {inc} -w -c {VERIF}/h/{dr}.c -o {do}')
                cmds3.append(f'{cc} {WRAP} {do} ' + ' '.join(ho) + f' {lib} {ldl} -lm -o {e}.tmp && mv {e}.tmp {e}')
    run_all(cmds1); run_all(cmds2); run_all(cmds3)
    # drop stale builds of the same variants
    keep = {d for _, d in dirs}
    for v, d in dirs:
        for o in glob.glob(os.path.join(BUILD, v + '-*')):
            if o not in keep and re.fullmatch(re.escape(v) + r'-[0-9a-f]{16}', os.path.basename(o)) and time.time() - os.path.getmtime(o) > 1800:
                shutil.rmtree(o, ignore_errors=True)
    return out

def known():
    fs = {}; p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m:
                for pid in m.group(1).split(','): fs[(pid, m.group(2))] = m.group(3).strip()
    return fs

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1)); ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--replay'); ap.add_argument('--build-only', action='store_true'); ap.add_argument('--variants')
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay)); exe = build({(r['variant'], r['driver'])})[(r['variant'], r['driver'])]
        print(' '.join([exe] + r['args'] + ['-v'])); return subprocess.call([exe] + r['args'] + ['-v'], env=ENV)
    pid = a.prop; t0 = time.time()
    if a.build_only:
        build({(j['v'], j['d']) for p in PROPS.values() for j in p['jobs']}); print('built', round(time.time() - t0, 1)); return 0
    P = PROPS[pid]; tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    jobs = [j for j in P['jobs'] if not a.variants or j['v'] in a.variants.split(',')]
    try: exes = build({(j['v'], j['d']) for j in jobs})
    except BuildError as e:
        print('BUILD-ERROR', str(e)[:4000]); return 2
    tb = time.time() - t0
    tasks = []
    for ji, j in enumerate(jobs):
        n = int((j['q'] if tier == 'quick' else j.get('t', j['q'] * 12)) * a.scale) or 1
        ck = DRIVERS[j['d']].get(j['p'], 16); nch = max(1, (n + ck - 1) // ck)
        parts = min(nch, NJ * (4 if tier == 'quick' else 40))
        for k in range(parts):
            c0 = nch * k // parts; c1 = nch * (k + 1) // parts
            if c1 > c0: tasks.append((k, ji, c0 * ck, (c1 - c0) * ck))
    tasks.sort()   # interleave the jobs
    budget = P.get('secs', {}).get(tier, 420 if tier == 'quick' else 5400)
    lock = threading.Lock(); it = iter(tasks); stop = [False]
    viols = []; notes = {}; samples = []; counts = {}; perjob = {}; done = [0]; worlds = [0]; steps = [0]; trunc = [0]; errs = []; sigs = set(); pairs = set()
    tmp = os.path.join(BUILD, 'run-%s-%d' % (pid, os.getpid())); os.makedirs(tmp, exist_ok=True)
    procs = set()
    def worker(w):
        while True:
            with lock:
                if stop[0]: return
                try: k, ji, first, cnt = next(it)
                except StopIteration: return
            j = jobs[ji]; left = budget - (time.time() - t0)
            if left <= 1:
                with lock: trunc[0] += 1
                continue
            sf = f'{tmp}/sig{w}'
            args = ['--prop', j['p'], '--seed', str(a.seed * 64 + ji), '--first', str(first), '--count', str(cnt), '--thorough', '1' if tier == 'thorough' else '0',
                    '--maxviol', '2', '--hang', str(j.get('hang', 30))] + j.get('args', [])
            p = subprocess.Popen([exes[(j['v'], j['d'])]] + args + ['--secs', str(left), '--sig', sf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=tmp)
            with lock: procs.add(p)
            try: o, e = p.communicate(timeout=left + 300)
            except subprocess.TimeoutExpired: p.kill(); o, e = p.communicate()
            ended = False
            with lock:
                procs.discard(p)
                for l in o.decode('latin1').splitlines():
                    try: r = json.loads(l, strict=False)
                    except ValueError:
                        if '"viol"' in l: errs.append('unreadable report: ' + l[:600])
                        continue
                    if r['t'] == 'viol':
                        r['job'] = ji; viols.append(r)
                    elif r['t'] == 'note' and ('--keys' in j.get('args', [])): pass   # judged by the property it belongs to
                    elif r['t'] == 'note':
                        key, case, msg = (r['v'].split('\t') + ['', ''])[:3]; n = notes.setdefault(key, dict(n=0, msg=msg, case=case, job=ji)); n['n'] += 1
                    elif r['t'] == 'sample':
                        if len(samples) < 400: samples.append((ji, f"{j['v']}/{j['d']}/{j['p']} {r['v']}"))
                    elif r['t'] == 'count': counts[r['k']] = counts.get(r['k'], 0) + r['v'] if not r['k'].startswith('max ') else max(counts.get(r['k'], 0), r['v'])
                    elif r['t'] == 'end':
                        ended = True; done[0] += r['done']; worlds[0] += r['worlds']; counts['max seconds without a sign of progress'] = max(counts.get('max seconds without a sign of progress', 0), r.get('quiet', 0)); steps[0] += r['steps']; trunc[0] += r['truncated']
                        nm = f"{j['v']}/{j['d']}/{j['p']}"; perjob[nm] = perjob.get(nm, 0) + r['done']
                if not ended and not stop[0]: errs.append(f"{j['v']}/{j['d']} {args} rc={p.returncode} {e.decode('latin1')[-1500:]}")
                if os.path.exists(sf):
                    b = open(sf, 'rb').read()
                    for i in range(0, len(b) - 15, 16):
                        x = b[i:i+16]; sigs.add((j['v'], x[:8]) if False else x[:8]); pairs.add(x)
                if viols or errs: stop[0] = True
    th = [threading.Thread(target=worker, args=(w,)) for w in range(NJ)]
    for t in th: t.start()
    for t in th: t.join()
    shutil.rmtree(tmp, ignore_errors=True)
    kf = known(); rc = 0; nviol = 0; seen_known = {}
    rdir = os.path.join(VERIF, 'replay_out'); os.makedirs(rdir, exist_ok=True)
    def report(key, ji, args, msg, extra):
        nonlocal nviol, rc
        nviol += 1; rc = 1; j = jobs[ji]
        path = os.path.join('replay_out', f'{pid}-{tier}-{a.seed}-{nviol}.json')
        json.dump(dict(property=pid, variant=j['v'], driver=j['d'], args=args, key=key, msg=msg, **extra), open(os.path.join(VERIF, path), 'w'), indent=1)
        print(f'VIOLATION property={pid} replay={path}'); print(f'  {j["v"]}/{j["d"]}/{j["p"]}: {key}: {msg[:700]}')
    for v in viols[:4]:
        j = jobs[v['job']]; args = ['--prop', j['p'], '--seed', str(a.seed * 64 + v['job']), '--first', str(v['from']), '--count', str(max(1, v['case'] - v['from'] + 1)), '--thorough', '1' if tier == 'thorough' else '0'] + j.get('args', [])
        if v['key'] in ('crash', 'unexpected-exit', 'hang') and v.get('out'):
            m = re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|WARNING: MemorySanitizer[^\n]*)', v['out'])
            if m: v['msg'] = (v.get('msg') or '') + ' ' + m.group(1)
        report(v['key'], v['job'], args, v.get('msg') or '', dict(rank=v['rank'], case=v['case'], np=v['np'], signal=v['sig'], exit=v['exit'], output=v.get('out'), events=v.get('events')))
    for key, n in sorted(notes.items()):
        if (pid, key) in kf:
            seen_known[key] = n['n']
        else:
            j = jobs[n['job']]; report(key, n['job'], ['--prop', j['p'], '--seed', str(a.seed * 64 + n['job']), '--first', n['case'] or '0', '--count', '1'], n['msg'], dict(case=n['case']))
    for (p_, key), what in sorted(kf.items()):
        if p_ == pid: print(f'KNOWN-FINDING: property={pid} {key}: {what} (seen in {seen_known.get(key, 0)} runs)')
    if errs and rc == 0:
        print('CHECK-ERROR', errs[0][:3000]); rc = 2
    if trunc[0] and rc == 0 and done[0] == 0: rc = 2
    # evidence
    byjob = {}; 
    for ji, s in samples: byjob.setdefault(ji, []).append(s)
    smp = []
    for ji in sorted(byjob): smp += byjob[ji][:3]
    cov = dict(evaluations=done[0], distinct_nontrivial=len(sigs), rule=P['rule'], samples=smp[:24] or ['none'],
               distinct_case_and_schedule_pairs=len(pairs), scheduler_steps_observed=steps[0], process_groups_started=worlds[0],
               monitor_counts=dict(sorted(counts.items())), cases_per_job=perjob, tasks_cut_by_time=trunc[0], build_s=round(tb, 2))
    ev = dict(property=pid, tier=tier, seed=a.seed, level='exploration', coverage=cov, assumptions=P.get('assume', []) , wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{VERIF}/evidence/{pid}.json', 'w'), indent=1)
    print(f'{pid} {tier} seed={a.seed}: cases={done[0]} distinct={len(sigs)} schedules={len(pairs)} steps={steps[0]} build={tb:.1f}s wall={time.time()-t0:.1f}s violations={nviol}')
    return rc

if __name__ == '__main__':
    sys.exit(main())
