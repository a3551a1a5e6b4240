#!/usr/bin/env python3
"""Deterministic-simulation checks for odeint.

  check.py P01 quick|thorough     search: seeded simulated runs, exit 0 / 1 (+ VIOLATION line)
  check.py --replay FILE          replay one violation file in a fresh process
  check.py --build                compile every simulator (used by setup_cmd)
  check.py --determinism [N]      same seeds twice, at two worker counts, compare event-log hashes

The simulators use only the documented interface of the library.  When one of them is rejected by the compiler (it compiles
on the unchanged tree), a documented way to call the library is gone; that is reported as a violation, its replay file holds
the compiler's messages and replaying it compiles again.

Any exit status other than 0 and 1 is an error of the check itself.
"""
import os, sys, json, time, hashlib, subprocess, shutil, tempfile, struct, fcntl, re
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, '.build')
REPLAYS = os.path.join(HERE, 'replays')
EVID = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known_findings.txt')
JOBS = 8
from simdefs import BINARIES, PLAN, PROPS, COMPONENTS

ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=1'
ENV['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=86'
for v in ('CPATH', 'CPLUS_INCLUDE_PATH', 'LIBRARY_PATH', 'CXXFLAGS', 'OMP_NUM_THREADS', 'LD_PRELOAD'):
    ENV.pop(v, None)


def die(msg, code=2):
    print('ERROR: ' + msg)
    sys.stdout.flush()
    sys.exit(code)


class Rejected(Exception):
    """the compiler rejects a simulator"""
    def __init__(self, name, out):
        Exception.__init__(self, name)
        self.name, self.out = name, out


# ------------------------------------------------------------------ build
def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        if os.path.isfile(base):
            h.update(base.encode()); h.update(open(base, 'rb').read()); continue
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()


def obj_cmd(b, src, out):
    flags = b['flags'] if os.path.basename(src) not in b.get('plain_src', []) else b['plain_flags']
    return ['g++', '-std=gnu++14', '-w', '-g1'] + flags + \
        [x.replace('@SIM@', os.path.join(HERE, 'sim')) for x in b.get('inc_first', [])] + \
        ['-I' + REPO + '/include', '-I' + os.path.join(HERE, 'sim')] + b.get('inc', []) + ['-c', src, '-o', out]


def build(names, quiet=False):
    """returns {name: path}; every binary is keyed by the content of /repo/include and of the simulator"""
    t0 = time.time()
    base = tree_hash([os.path.join(REPO, 'include'), os.path.join(HERE, 'sim')])
    os.makedirs(BUILD, exist_ok=True)
    res, todo = {}, []
    for n in names:
        b = BINARIES[n]
        key = hashlib.sha256((base + json.dumps(b, sort_keys=True)).encode()).hexdigest()[:16]
        d = os.path.join(BUILD, n + '-' + key)
        res[n] = os.path.join(d, n)
        if not os.path.exists(res[n]):
            todo.append((n, b, d))
    if todo:
        lock = open(os.path.join(BUILD, '.lock'), 'w')
        fcntl.flock(lock, fcntl.LOCK_EX)
        jobs = []
        for n, b, d in todo:
            if os.path.exists(res[n]):
                continue
            for old in os.listdir(BUILD):       # drop stale builds of this simulator
                if old.rsplit('-', 1)[0] == n and os.path.join(BUILD, old) != d:
                    shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            for s in b['src']:
                src = os.path.join(HERE, 'sim', s)
                jobs.append((n, src, os.path.join(d, s.replace('/', '_') + '.o')))

        def run(j):
            n, src, out = j
            p = subprocess.run(obj_cmd(BINARIES[n], src, out), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
            return j, p.returncode, p.stdout.decode(errors='replace')
        with ThreadPoolExecutor(JOBS) as ex:
            for j, rc, o in ex.map(run, jobs):
                if rc == 1 and re.search(r'^\S+:\d+:\d+: (fatal )?error: ', o, re.M) and not re.search(r'internal compiler error|No space left|virtual memory exhausted|cannot allocate|Killed', o):
                    raise Rejected(j[0], o)
                if rc:
                    die('the simulator %s does not compile against %s:\n%s' % (j[1], REPO, o[:4000]))
        for n, b, d in todo:
            if os.path.exists(res[n]):
                continue
            objs = [os.path.join(d, s.replace('/', '_') + '.o') for s in b['src']]
            tmp = res[n] + '.tmp%d' % os.getpid()
            p = subprocess.run(['g++'] + b.get('link', b['flags']) + objs + ['-o', tmp] + b.get('libs', []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
            if p.returncode:
                die('link of %s failed:\n%s' % (n, p.stdout.decode(errors='replace')[:4000]))
            os.rename(tmp, res[n])
            for o in objs:
                os.unlink(o)
        lock.close()
    if not quiet:
        print('build: %s in %.1fs' % (', '.join(names), time.time() - t0))
    return res


# ------------------------------------------------------------------ one replay in a fresh process
def crash_code(rc, err):
    m = re.search(r'AddressSanitizer: ([a-zA-Z0-9-]+)', err)
    if m:
        k = m.group(1)
        if k in ('SEGV', 'DEADLYSIGNAL', 'BUS', 'ABRT', 'FPE'):
            k = 'signal'
        if k == 'signal':
            m2 = re.search(r"Assertion '", err)
            return 'crash:assertion' if m2 else 'crash:signal'
        return 'crash:' + k
    if 'runtime error:' in err:
        return 'crash:ubsan'
    if "Assertion '" in err:
        return 'crash:assertion'
    if rc == 97:
        return 'crash:hang'
    if rc < 0:
        return 'crash:signal%d' % -rc
    return 'crash:exit%d' % rc


def replay(binary, prop, tape, trace=False, timeout=60):
    f = tempfile.NamedTemporaryFile('w', suffix='.tape', delete=False)
    f.write(' '.join(map(str, tape))); f.close()
    try:
        cmd = [binary, '--prop', prop, '--tape', f.name]
        if trace:
            cmd += ['--trace', '1']
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout)
        except subprocess.TimeoutExpired:
            return {'violated': True, 'code': 'crash:hang', 'msg': 'no end within %d s' % timeout, 'hash': 'hang', 'scenario': '', 'used': len(tape)}
        out = p.stdout.decode(errors='replace')
        if p.returncode in (0, 1):
            try:
                return json.loads(out)
            except ValueError:
                pass
        err = p.stderr.decode(errors='replace')
        code = crash_code(p.returncode, err)
        frames = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+).*?(/repo/\S+|boost/numeric/odeint\S+)', err)
        where = frames[0][1] if frames else ''
        return {'violated': True, 'code': code, 'msg': ('process died: exit %d ' % p.returncode) + (err.strip().splitlines()[0][:200] if err.strip() else '') + ' ' + where,
                'hash': code, 'scenario': '', 'used': len(tape), 'trace': err.strip().splitlines()[:60]}
    finally:
        os.unlink(f.name)


def same(a, b):
    return a['violated'] and a['code'] == b['code'] and (a['scenario'] == b['scenario'] or not a['scenario'] or not b['scenario'])


def minimise(binary, prop, tape, ref, seconds=40):
    """shorten / lower the tape while the same violation class persists; candidates run in parallel"""
    t0 = time.time()
    tape = list(tape)
    if ref.get('used', len(tape)) < len(tape):
        tape = tape[:ref['used']]
    tests = 0
    ex = ThreadPoolExecutor(JOBS)

    def first_ok(cands):
        nonlocal tests
        for i in range(0, len(cands), JOBS):
            if time.time() - t0 > seconds:
                return None
            batch = cands[i:i + JOBS]
            tests += len(batch)
            rs = list(ex.map(lambda c: replay(binary, prop, c, timeout=30), batch))
            for c, r in zip(batch, rs):
                if same(r, ref):
                    return c[:r['used']] if 0 < r.get('used', len(c)) < len(c) else c
        return None
    changed = True
    while changed and time.time() - t0 < seconds:
        changed = False
        n = len(tape)
        size = max(1, n // 2)
        while size >= 1 and time.time() - t0 < seconds:
            cands = [tape[:i] + tape[i + size:] for i in range(0, len(tape) - size + 1, size)]
            c = first_ok(cands)
            if c is not None and len(c) < len(tape):
                tape = c; changed = True
                size = min(size, max(1, len(tape) // 2))
                continue
            size //= 2
        for i in range(len(tape)):
            if time.time() - t0 > seconds:
                break
            if i < len(tape) and tape[i]:
                v = tape[i]
                vals = sorted(set([0, 1, v // 2, v - 1]) - {v})
                c = first_ok([tape[:i] + [x] + tape[i + 1:] for x in vals if x < v])
                if c is not None and (len(c) < len(tape) or c != tape):
                    tape = c; changed = True
    while tape and tape[-1] == 0:           # exhausted tape reads as zeros
        if not same(replay(binary, prop, tape[:-1]), ref):
            break
        tape = tape[:-1]
    ex.shutdown()
    return tape, tests


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    res = []
    if not os.path.exists(KNOWN):
        return res
    for line in open(KNOWN):
        line = line.strip()
        m = re.match(r'finding: property=(\S+) binary=(\S+) code=(\S+) match="([^"]*)" tape=(\S+) (.*)', line)
        if m and m.group(1) == prop:
            res.append({'binary': m.group(2), 'code': m.group(3), 'match': m.group(4), 'tape': m.group(5), 'what': m.group(6)})
    return res


def listed(known, binary, v):
    for k in known:
        if k['binary'] == binary and k['code'] == v['code'] and re.search(k['match'], v['msg']):
            return k
    return None


# ------------------------------------------------------------------ search
def search(name, binary, prop, seed, count, cap, maxviol=3):
    work = tempfile.mkdtemp(prefix='simrun')
    procs = []
    try:
        for w in range(JOBS):
            n = (count - w + JOBS - 1) // JOBS
            if n <= 0:
                continue
            out, prog = os.path.join(work, 'o%d' % w), os.path.join(work, 'p%d' % w)
            err = open(os.path.join(work, 'e%d' % w), 'wb')
            p = subprocess.Popen([binary, '--prop', prop, '--seed', str(seed), '--first', str(w), '--count', str(n), '--step', str(JOBS),
                                  '--time', str(cap), '--progress', prog, '--out', out, '--maxviol', str(maxviol)], stdout=err, stderr=err, env=ENV)
            procs.append((w, p, out, prog, err))
        results, crashes = [], []
        deadline = time.time() + cap + 90
        for w, p, out, prog, err in procs:
            try:
                rc = p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill(); rc = 97
            err.close()
            if rc == 0 and os.path.exists(out):
                results.append(json.load(open(out)))
            else:
                raw = open(prog, 'rb').read() if os.path.exists(prog) else b''
                if len(raw) < 24:
                    die('worker of %s died before its first run: %s' % (name, open(err.name, errors='replace').read()[:2000]))
                run, ln, st = struct.unpack('<3Q', raw[:24])
                if not st:
                    die('worker of %s died outside a run: %s' % (name, open(err.name, errors='replace').read()[:2000]))
                tape = list(struct.unpack('<%dQ' % ln, raw[24:24 + 8 * ln]))
                crashes.append({'run': run, 'tape': tape, 'scenario': '', 'code': crash_code(rc, open(err.name, errors='replace').read()), 'msg': 'worker died', 'hash': ''})
                results.append({'runs': run // JOBS + 1, 'partial': True})
        return results, crashes
    finally:
        for _, p, _, _, _ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(work, ignore_errors=True)


def add(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def errors_of(out):
    return [l[:400] for l in out.splitlines() if re.search(r': (fatal )?error: ', l)][:12]


def report_rejected(prop, tier, seed, r, t0):
    os.makedirs(REPLAYS, exist_ok=True); os.makedirs(EVID, exist_ok=True)
    path = os.path.join(REPLAYS, '%s-build-%s.json' % (prop, r.name))
    json.dump({'property': prop, 'binary': r.name, 'seed': seed, 'code': 'build', 'msg': 'the compiler rejects documented calls', 'errors': errors_of(r.out)}, open(path, 'w'), indent=1)
    print('%s: the simulator %s, which uses the documented interface only, is rejected by the compiler:' % (prop, r.name))
    for l in errors_of(r.out):
        print('   | ' + l)
    print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(path, HERE)))
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': {
        'evaluations': 1, 'distinct_nontrivial': 1, 'rule': 'the simulator was compiled; it was rejected, no run was made', 'samples': errors_of(r.out) or ['rejected'],
        'simulated_runs_per_hour': 0, 'seed': seed, 'real_components': COMPONENTS[prop]['real'], 'stubbed_components': COMPONENTS[prop]['stub']},
        'assumptions': PROPS[prop].get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': 1}, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    return 1


def run_check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    plan = PLAN[prop]
    try:
        bins = build([e['bin'] for e in plan])
    except Rejected as r:
        return report_rejected(prop, tier, seed, r, t0)
    known = known_findings(prop)
    violations, tot = [], {'runs': 0, 'skipped': 0, 'nontrivial': 0, 'distinct': 0, 'events': 0, 'simtime': 0.0}
    faults, probes, scen, samples, timed_out, hits = {}, {}, {}, [], False, {}
    unstable = []
    t_search = time.time()
    print('seed %d tier %s property %s' % (seed, tier, prop))
    for e in plan:
        count, cap = e[tier]
        b = bins[e['bin']]
        results, crashes = search(e['bin'], b, prop, seed, count, cap, maxviol=3 if not known else 200)
        # a gate: the same seeds give the same event logs in another process
        if not crashes:
            chk = subprocess.run([b, '--prop', prop, '--seed', str(seed), '--first', '0', '--count', '40', '--step', str(JOBS), '--maxviol', '1000'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)
            chk2 = subprocess.run([b, '--prop', prop, '--seed', str(seed), '--first', '0', '--count', '40', '--step', str(JOBS), '--maxviol', '1000'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)
            if chk.returncode == 0 and chk2.returncode == 0 and json.loads(chk.stdout)['allhash'] != json.loads(chk2.stdout)['allhash']:
                unstable.append(e['bin'])
        for r in results:
            tot['runs'] += r['runs']
            if r.get('partial'):
                continue
            for k in ('skipped', 'nontrivial', 'distinct', 'events', 'simtime'):
                tot[k] += r[k]
            add(faults, r['faults']); add(probes, r['probes']); add(scen, r['scenarios'])
            timed_out |= r['timed_out']
            for s in r['samples']:
                if len(samples) < 12 and not any(s.split(' draws')[0].split('scenario ')[1] in x for x in samples):
                    samples.append(e['bin'] + ': ' + s)
            violations += [(e['bin'], v) for v in r['violations']]
        violations += [(e['bin'], v) for v in crashes]
    search_s = time.time() - t_search
    # known findings: shown by replaying their committed history
    for k in known:
        tape = [int(x) for x in open(os.path.join(HERE, k['tape'])).read().split()]
        r = replay(bins[k['binary']] if k['binary'] in bins else build([k['binary']], True)[k['binary']], prop, tape)
        if r['violated'] and r['code'] == k['code'] and re.search(k['match'], r['msg']):
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    exitcode, reported, seen = 0, 0, set()
    violations.sort(key=lambda x: (len(x[1]['tape']), x[1]['run']))
    for name, v in violations:
        if listed(known, name, v):
            hits[v['code']] = hits.get(v['code'], 0) + 1
            continue
        sig = (name, v['scenario'], v['code'])
        if sig in seen or reported >= 3:
            continue
        seen.add(sig)
        b = bins[name]
        r1, r2 = replay(b, prop, v['tape']), replay(b, prop, v['tape'])
        if not (r1['violated'] and r2['violated']):
            die('a violation did not reproduce from its tape (%s, run %d): %s / %s' % (v['code'], v['run'], r1.get('code'), r2.get('code')))
        if listed(known, name, r1):
            continue
        if not (r1['code'] == r2['code'] and r1['hash'] == r2['hash']):
            print('%s: the history differs from replay to replay, the code under test depends on something outside the simulation (uninitialised memory, addresses)' % prop)
        mt, tests = minimise(b, prop, v['tape'], r1)
        r3, r4 = replay(b, prop, mt, trace=True), replay(b, prop, mt, trace=True)
        if not (same(r3, r1) and r3['hash'] == r4['hash']):
            mt = v['tape']; r3 = replay(b, prop, mt, trace=True)
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, '%s-%s-%s.json' % (prop, re.sub(r'\W', '_', r3['scenario'] or v['scenario'] or 'crash'), re.sub(r'\W', '_', r3['code'])))
        json.dump({'property': prop, 'binary': name, 'seed': seed, 'run': v['run'], 'scenario': r3['scenario'], 'code': r3['code'], 'msg': r3['msg'],
                   'hash': r3['hash'], 'tape': mt, 'original_tape_length': len(v['tape']), 'minimiser_runs': tests, 'trace': r3.get('trace', [])}, open(path, 'w'), indent=1)
        print('%s seed=%d run=%d scenario=%s code=%s: %s' % (prop, seed, v['run'], r3['scenario'] or v['scenario'], r3['code'], r3['msg']))
        for line in r3.get('trace', [])[:40]:
            print('   | ' + line)
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(path, HERE)))
        sys.stdout.flush()
        exitcode = 1
        reported += 1
    if unstable and not exitcode:
        die('not deterministic: %s' % ', '.join(unstable))
    wall = time.time() - t0
    if tot['runs'] == 0:
        die('no run was made')
    cov = {
        'evaluations': tot['runs'], 'distinct_nontrivial': min(tot['nontrivial'], tot['distinct']),
        'rule': 'One evaluation is one simulated run, a pure function of (VERIF_SEED, property, run index). ' + PROPS[prop]['rule'] +
                ' Distinct: different hash of the recorded event history (times, states, faults), counted per worker; the smaller of the non-trivial and the distinct count is given.',
        'samples': samples or ['(crashed before the first sample)'],
        'simulated_runs_per_hour': int(tot['runs'] / max(search_s, 1e-3) * 3600), 'seed': seed,
        'runs_nontrivial': tot['nontrivial'], 'runs_distinct_history': tot['distinct'], 'runs_skipped_outside_quantifier': tot['skipped'],
        'simulated_time_units': tot['simtime'], 'simulated_events': tot['events'],
        'faults_injected': faults, 'probes_hit': probes, 'runs_per_scenario': scen, 'stopped_by_time_cap': timed_out,
        'known_finding_hits': hits, 'real_components': COMPONENTS[prop]['real'], 'stubbed_components': COMPONENTS[prop]['stub'], 'search_s': round(search_s, 2)}
    os.makedirs(EVID, exist_ok=True)
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'assumptions': PROPS[prop].get('assumptions', []),
               'wall_s': round(wall, 2), 'violations': reported}, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    print('%s: %d runs (%d non-trivial), %d events, faults %s, %.1fs, %s' % (prop, tot['runs'], tot['nontrivial'], tot['events'], json.dumps(faults), wall, 'VIOLATED' if exitcode else 'held'))
    return exitcode


def determinism(n):
    bad = 0
    bins = build(sorted(BINARIES))
    for prop in sorted(PLAN):
        for e in PLAN[prop]:
            b = bins[e['bin']]

            def one(a):
                seed, first, step = a
                p = subprocess.run([b, '--prop', prop, '--seed', str(seed), '--first', str(first), '--count', str(n), '--step', str(step), '--maxviol', '1000000'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)
                return json.loads(p.stdout)['allhash'] if p.returncode == 0 else 'exit%d' % p.returncode
            jobs = [(s, f, 3) for s in (1, 2, 77) for f in (0, 1, 2)]
            with ThreadPoolExecutor(8) as ex:
                a = list(ex.map(one, jobs))
            with ThreadPoolExecutor(3) as ex:
                c = list(ex.map(one, jobs))
            ok = a == c and not any(x.startswith('exit') for x in a)
            bad += not ok
            print(prop, e['bin'], 'identical event logs' if ok else 'DIFFERENT %s %s' % (a, c))
    return bad


def main():
    a = sys.argv[1:]
    if a and a[0] == '--build':
        try:
            build(sorted(BINARIES))
        except Rejected as r:       # the checks that need it report it
            print('rejected: %s\n%s' % (r.name, '\n'.join(errors_of(r.out))))
        return 0
    if a and a[0] == '--determinism':
        return 1 if determinism(int(a[1]) if len(a) > 1 else 300) else 0
    if a and a[0] == '--replay':
        d = json.load(open(a[1]))
        try:
            b = build([d['binary']])[d['binary']]
        except Rejected as r:
            print('rejected by the compiler:\n%s\n%s' % ('\n'.join(errors_of(r.out)), 'as recorded' if errors_of(r.out) == d.get('errors') else 'not as recorded'))
            print('VIOLATION property=%s replay=%s' % (d['property'], a[1]))
            return 1
        if d['code'] == 'build':
            print('the simulator compiles'); return 0
        r = replay(b, d['property'], d['tape'], trace=True)
        for line in r.get('trace', []):
            print('   | ' + line)
        print('%s %s' % (r['code'], r['msg']))
        if r['violated']:
            print('same history as recorded' if r['hash'] == d['hash'] else 'a different history than recorded (the code has changed)')
            print('VIOLATION property=%s replay=%s' % (d['property'], a[1]))
            return 1
        return 0
    if len(a) == 2 and a[0] in PLAN and a[1] in ('quick', 'thorough'):
        return run_check(a[0], a[1])
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
