#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's current source.

For every contract harness (job) of the property:
  1. the sources are extracted mechanically from /repo (lib/gen.py);
  2. CBMC generates the obligations and discharges them (SAT back end);
     a second run must be able to reach every VP_COVER point (no vacuity);
  3. the same contracts are executed natively on the unmodified code, on the
     inputs of a counterexample, if there is one, and on generated inputs.
Exit 0: no obligation failed. Exit 1: VIOLATION line.
"""
import os, sys, re, json, time, shutil, subprocess, tempfile, threading, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'proofs'))
import gen
import jobs as J

REPO = os.environ.get('VP_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
NCPU = int(os.environ.get('VP_JOBS', '8'))
slots = threading.BoundedSemaphore(NCPU)
stop = threading.Event()
procs = set(); plock = threading.Lock()
T0 = time.time()
BUDGET = 840 if TIER == 'quick' else 6000   # wall clock of one check

def run(cmd, timeout, cwd=None, out=None, mem=None):
    """(rc, output). rc is None on timeout or stop."""
    if stop.is_set():
        return None, ''
    timeout = min(timeout, max(1, BUDGET - (time.time() - T0)))
    f = open(out, 'w+', errors='replace') if out else tempfile.TemporaryFile('w+', errors='replace')
    def pre():
        os.setsid()
        if mem:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
    p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                         cwd=cwd, preexec_fn=pre)
    with plock:
        procs.add(p)
    rc = None
    end = time.time() + timeout
    while time.time() < end and not stop.is_set():
        try:
            rc = p.wait(timeout=0.2)
            break
        except subprocess.TimeoutExpired:
            pass
    if rc is None:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    with plock:
        procs.discard(p)
    f.seek(0)
    txt = f.read()
    f.close()
    return rc, txt

class Res:
    def __init__(self, job):
        self.job = job
        self.status = 'undecided'   # proved | failed | undecided
        self.why = ''
        self.obl = self.dis = 0
        self.covers = self.covers_hit = 0
        self.solver_s = 0.0
        self.native = None          # dict
        self.failed = []            # [(obligation, description, inputs)]
        self.cmd = ''
        self.log = ''
        self.notes = []
        self.cex = None             # (replay inputs file, text)

def defs_for(prop, job):
    on = [prop] + [x for x in job.get('also', '').split() if x != prop]
    return ['-DVP_ON_%s=1' % x for x in on] + list(job.get('defs', []))

def generate(job, d, native):
    os.makedirs(d, exist_ok=True)
    missing = []
    srcs = job.get('nsrc' if native else 'src', {})
    for f, stubs in srcs.items():
        src = os.path.join(SRC, f)
        if not os.path.exists(src):
            missing.append(f)
            continue
        missing += gen.gen(src, os.path.join(d, f), stubs=stubs, bitfields=not native)
    return missing

def incs(job, d):
    return ['-I' + d, '-I' + os.path.join(HERE, 'lib'), '-I' + os.path.join(HERE, 'proofs'), '-I' + SRC]

REPODEFS = ['-DNOOPENSSL', '-DNOURING', '-DNOMIMALLOC', '-D_GNU_SOURCE']

def native_build(prop, job, d):
    g = os.path.join(d, 'ngen')
    miss = generate(job, g, True)
    if miss:
        return None, 'native extraction: not found: ' + ', '.join(miss)
    exe = os.path.join(d, 'native')
    cmd = (['gcc', '-std=gnu11', '-w', '-g', '-O1', '-fsanitize=address',
            '-fwrapv', '-fno-omit-frame-pointer'] +
           REPODEFS + defs_for(prop, job) + list(job.get('ndefs', [])) + incs(job, g) +
           ['-DVP_HARNESS=' + job['fn'], os.path.join(HERE, 'proofs', job['file']),
            os.path.join(HERE, 'lib', 'vpnative.c')] +
           [os.path.join(SRC, x) for x in job.get('nlink', [])] + ['-o', exe, '-lm', '-lpthread'] )
    rc, out = run(cmd, 180)
    if rc != 0:
        return None, 'native build failed: ' + out[-1500:]
    return exe, ''

NENV = 'ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:allocator_may_return_null=1 UBSAN_OPTIONS=print_stacktrace=0'

def native_run(exe, args, timeout):
    return run(['env'] + NENV.split() + [exe] + args, timeout)

def inputs_of(trace):
    return [int(m.group(1)) for m in re.finditer(r'^\s*vp_trace_val=(\d+)ul', trace, re.M)]

def parse_cbmc(txt):
    """[(id, description, status)], {id: trace}"""
    res = []
    body = txt.split('** Results:')[-1] if '** Results:' in txt else ''
    head = body.split('Trace for ')[0]
    cur = ''
    for line in head.splitlines():
        m = re.match(r'\[(\S+)\] (?:line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$', line)
        if m:
            res.append((m.group(1), m.group(2), m.group(3)))
    traces = {}
    parts = re.split(r'^Trace for (\S+):$', body, flags=re.M)
    for i in range(1, len(parts) - 1, 2):
        traces[parts[i]] = parts[i + 1]
    return res, traces

def cbmc_cmd(job, gb):
    c = ['cbmc', gb, '--drop-unused-functions', '--object-bits', str(job.get('objbits', 10))]
    if job.get('unwind'):
        c += ['--unwind', str(job['unwind'])]
    for u in job.get('unwindset', []):
        c += ['--unwindset', u]
    c += ['--unwinding-assertions']
    c += job.get('checks', ['--no-standard-checks'])
    if job.get('solver', 'minisat') != 'minisat':
        c += job['solver'].split()
    return c + job.get('cbmc', [])

def cbmc_build(prop, job, d, extra, name):
    gb = os.path.join(d, name + '.gb')
    cmd = (['goto-cc', '-std=gnu11', '-DVP_CBMC', '-DNO48BITPTRS'] + REPODEFS + defs_for(prop, job) +
           list(job.get('cdefs', [])) + extra + incs(job, os.path.join(d, 'gen')) +
           ['--function', job['fn'], os.path.join(HERE, 'proofs', job['file']), '-o', gb])
    rc, out = run(cmd, 120)
    if rc != 0:
        return None, 'goto-cc failed: ' + '\n'.join(l for l in out.splitlines() if 'warning' not in l)[-1500:]
    for ins in job.get('instrument', []):
        g2 = gb + '.i'
        rc, out = run(['goto-instrument'] + ins + [gb, g2], 300)
        if rc != 0:
            return None, 'goto-instrument failed: ' + out[-1500:]
        os.replace(g2, gb)
    return gb, ''

def prove(prop, job, d, r, res):
    miss = generate(job, os.path.join(d, 'gen'), False)
    if miss:
        r.why = 'extraction: not found in the current source: ' + ', '.join(miss)
        return
    gb, err = cbmc_build(prop, job, d, [], 'proof')
    if not gb:
        r.why = err
        return
    cmd = cbmc_cmd(job, gb) + ['--trace']
    r.cmd = ' '.join(cmd).replace(d + '/', '')
    t = time.time()
    with slots:
        rc, txt = run(cmd, job.get('timeout', 400), mem=job.get('mem', 10))
    r.solver_s += time.time() - t
    r.log = os.path.join(d, 'cbmc.txt')
    open(r.log, 'w').write(txt)
    if rc is None:
        r.why = 'verifier did not finish within the time limit'
        return
    obls, traces = parse_cbmc(txt)
    if not obls:
        r.why = 'verifier error: ' + txt[-600:]
        return
    r.obl = len(obls)
    r.dis = sum(1 for o in obls if o[2] == 'SUCCESS')
    bad = [o for o in obls if o[2] != 'SUCCESS']
    if not bad:
        r.status = 'proved'
    else:
        real = [o for o in bad if '.unwind.' not in o[0] and '.recursion' not in o[0] and
                not o[1].startswith('LIMIT') and o[2] == 'FAILURE']
        if real:
            r.status = 'failed'
            # own obligations first
            real.sort(key=lambda o: 0 if o[1].startswith(prop) else 1)
            r.failed = [(o[0], o[1], inputs_of(traces.get(o[0], ''))) for o in real]
            r.why = 'obligation failed: [%s] %s' % (real[0][0], real[0][1])
        else:
            r.why = 'loop or model bound exceeded: ' + '; '.join('[%s] %s' % (o[0], o[1]) for o in bad[:4])

def vacuity(prop, job, d, r):
    gb, err = cbmc_build(prop, job, d, ['-DVP_VACUITY'], 'vac')
    if not gb:
        return
    cmd = cbmc_cmd(dict(job, checks=['--no-standard-checks']), gb)
    cmd = [c for c in cmd if c != '--unwinding-assertions'] + ['--no-unwinding-assertions']
    with slots:
        rc, txt = run(cmd, job.get('timeout', 400), mem=job.get('mem', 10))
    if rc is None:
        r.notes.append('vacuity run did not finish')
        return
    obls, _ = parse_cbmc(txt)
    cov = [o for o in obls if o[1].startswith('COVER')]
    r.covers = len(cov)
    r.covers_hit = sum(1 for o in cov if o[2] == 'FAILURE')
    r.vac_miss = [o[1] for o in cov if o[2] != 'FAILURE']

def do_job(prop, job, work, results):
    d = os.path.join(work, job['name'])
    os.makedirs(d, exist_ok=True)
    r = Res(job)
    results.append(r)
    exe = None
    if not job.get('nonative'):
        exe, err = native_build(prop, job, d)
        if not exe:
            r.notes.append(err)
        else:
            secs = job.get('nsecs', 3) * (1 if TIER == 'quick' else 20)
            native_gen(r, exe, d, secs)
    if r.cex:
        stop.set()
        return r
    if job.get('nocbmc'):
        r.status = 'rac'
        r.why = 'executed contracts only (no proof)'
        return r
    ths = []
    th = threading.Thread(target=prove, args=(prop, job, d, r, results))
    generate(job, os.path.join(d, 'gen'), False)
    th.start()
    if not job.get('novacuity'):
        tv = threading.Thread(target=vacuity, args=(prop, job, d, r))
        tv.start()
        ths.append(tv)
    th.join()
    if r.status == 'failed' and exe:
        # replay counterexamples on the real code
        for n, (oid, desc, inp) in enumerate(r.failed[:12]):
            f = os.path.join(d, 'cex%d.in' % n)
            open(f, 'w').write(''.join('%d\n' % x for x in inp))
            rc, out = native_run(exe, ['replay', f], 40)
            if rc is not None and rc not in (0, 11):
                r.cex = (f, out[-3000:], desc)
                break
        if not r.cex:
            native_gen(r, exe, d, 60, seed=SEED + 1000)
    elif r.status == 'undecided' and exe and not stop.is_set():
        native_gen(r, exe, d, job.get('fsecs', 25), seed=SEED + 2000)
        r.notes.append('fallback: contracts executed on generated inputs (bounded)')
    if r.cex:
        stop.set()
    for t in ths:
        t.join()
    return r

def native_gen(r, exe, d, secs, seed=None):
    f = os.path.join(d, 'gen.in')
    with slots:
        rc, out = native_run(exe, ['gen', str(SEED if seed is None else seed), str(secs), '100000000', f], secs + 60)
    m = re.search(r'trials=(\d+) accepted=(\d+) covers=(\d+)', out)
    if m:
        n = r.native or dict(trials=0, accepted=0, covers=0)
        for k, g in zip(('trials', 'accepted', 'covers'), m.groups()):
            n[k] += int(g)
        r.native = n
    if rc is not None and rc != 0 and os.path.exists(f):
        # must reproduce from the recorded inputs
        rc2, out2 = native_run(exe, ['replay', f], 40)
        if rc2 is not None and rc2 not in (0, 11):
            m = re.search(r'CONTRACT VIOLATED.*', out2)
            r.cex = (f, out2[-3000:], m.group(0) if m else 'contract violated at run time')
        else:
            r.notes.append('run-time alarm did not reproduce (rc %s then %s): %s' % (rc, rc2, out[-300:]))

def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                out.append(line[len('finding: '):])
    return out

def main():
    prop = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    P = J.PROPS[prop]
    jobs = [j for j in J.JOBS if prop in j['props'] and (TIER == 'thorough' or j.get('tier', 'quick') == 'quick')]
    if only:
        jobs = [j for j in jobs if re.search(only, j['name'])]
    jobs.sort(key=lambda j: -j.get('weight', 1))
    work = tempfile.mkdtemp(prefix='vp-%s-' % prop, dir=os.environ.get('VP_TMP', '/var/tmp'))
    results = []
    try:
        with ThreadPoolExecutor(max(1, len(jobs))) as ex:
            fs = [ex.submit(do_job, prop, j, work, results) for j in jobs]
            for f in fs:
                f.result()
        rc = report(prop, P, results, work)
    finally:
        if not os.environ.get('VP_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('kept', work)
    sys.exit(rc)

def report(prop, P, results, work):
    viol = None
    for r in results:
        if r.cex:
            viol = (r, True)
            break
    if not viol:
        for r in results:
            if r.status == 'failed':
                viol = (r, False)
                break
    unb = [r for r in results if not r.job.get('bounded')]
    bnd = [r for r in results if r.job.get('bounded')]
    jd = []
    for r in sorted(results, key=lambda r: r.job['name']):
        jd.append(dict(job=r.job['name'], harness=r.job['fn'],
                       functions=r.job.get('functions', []), status=r.status,
                       kind=('bounded: ' + r.job['bounded']) if r.job.get('bounded') else 'proof (complete for all inputs of the contract)',
                       obligations=r.obl, discharged=r.dis, solver_s=round(r.solver_s, 2),
                       cover_points=r.covers, cover_points_reached=r.covers_hit,
                       not_covered=getattr(r, 'vac_miss', []),
                       executed_contracts=r.native or {}, why=r.why[:600], notes=[n[:600] for n in r.notes]))
    trusted = list(J.TRUSTED)
    for r in results:
        for t in r.job.get('trusted', []):
            if t not in trusted:
                trusted.append(t)
    cov = dict(
        obligations=sum(r.obl for r in unb), discharged=sum(r.dis for r in unb),
        bounded_obligations=sum(r.obl for r in bnd), bounded_discharged=sum(r.dis for r in bnd),
        checker_cmd='cbmc 6.11.0 (SAT: minisat2/cadical/kissat), e.g. ' + next((r.cmd for r in results if r.cmd), ''),
        trusted_base=trusted,
        functions_under_contract=sorted({f for r in results for f in r.job.get('functions', [])}),
        solver_time_s=round(sum(r.solver_s for r in results), 2),
        vacuity=dict(cover_points=sum(r.covers for r in results), reached=sum(r.covers_hit for r in results)),
        executed_contracts=dict(trials=sum((r.native or {}).get('trials', 0) for r in results),
                                accepted=sum((r.native or {}).get('accepted', 0) for r in results)),
        undecided=[r.job['name'] + ': ' + r.why[:300] for r in results if r.status == 'undecided'],
        jobs=jd)
    level = P.get('level', 'proof')
    if level == 'other':
        cov['explanation'] = P['explanation']
    if level == 'exploration':
        cov['evaluations'] = sum((r.native or {}).get('trials', 0) for r in results)
        cov['distinct_nontrivial'] = sum((r.native or {}).get('accepted', 0) for r in results)
    ev = dict(property=prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=level,
              coverage=cov, assumptions=P.get('assumptions', []), wall_s=round(time.time() - T0, 2),
              violations=1 if viol else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for r in sorted(results, key=lambda r: r.job['name']):
        print('%-28s %-9s obligations %d/%d %s covers %d/%d native %s  %.1fs %s' % (
            r.job['name'], r.status, r.dis, r.obl, 'bounded' if r.job.get('bounded') else 'proof',
            r.covers_hit, r.covers, (r.native or {}).get('accepted', '-'), r.solver_s, r.why[:200]))
        for n in r.notes:
            print('    note:', n[:1500].replace('\n', '\n      '))
        if getattr(r, 'vac_miss', None):
            print('    not covered:', r.vac_miss)
    for k in known_findings(prop):
        print('KNOWN-FINDING: ' + k)
    if not viol:
        return 0
    r, repro = viol
    rd = os.path.join(HERE, 'replays')
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, '%s-%s.txt' % (prop, r.job['name']))
    with open(path, 'w') as f:
        f.write('property: %s\njob: %s\nharness: proofs/%s:%s\n' % (prop, r.job['name'], r.job['file'], r.job['fn']))
        f.write('replay: VP_REPO=/repo %s/replay.sh %s\n' % (HERE, path))
        if repro:
            f.write('violated: %s\n\n--- native replay on the real code\n%s\n' % (r.cex[2], r.cex[1]))
            f.write('\n--- inputs\n' + open(r.cex[0]).read())
        else:
            for oid, desc, inp in r.failed:
                f.write('failed obligation: [%s] %s\n' % (oid, desc))
            f.write('\n--- verifier output\n' + open(r.log).read()[-200000:])
    what = r.cex[2] if repro else r.failed[0][1]
    print('violated: %s' % what)
    print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if repro else ' no-failing-input-found'))
    return 1

if __name__ == '__main__':
    main()
