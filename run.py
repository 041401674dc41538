#!/usr/bin/env python3
"""Build the simulator from /repo's working tree and decide one property by seeded search.

usage: run.py build | run.py check C01 [--tier quick|thorough] | run.py replay FILE | run.py determinism C01
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Anything else: the check itself failed.
"""
import sys, os, json, hashlib, subprocess, shutil, time, tempfile, glob, re, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, 'sim')
REPO = os.environ.get('SIM_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
BUILD = os.path.join(HERE, '.build')
SAN = '-fsanitize=address -fsanitize=bounds,null,return,unreachable,integer-divide-by-zero,vla-bound,object-size -fno-sanitize-recover=all'
VARIANTS = {'pattern': (['-ftrivial-auto-var-init=pattern'], []),
            'zero': (['-ftrivial-auto-var-init=zero'], ['-DSIM_FILL=0'])}
WRAP = '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free'
# simulated runs per check (all workers together) and wall-clock cap in seconds, per tier
PLAN = json.load(open(os.path.join(SIM, 'plan.json')))


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:32]


def rd(p):
    with open(p, 'rb') as f: return f.read()


def walk(root, exts):
    out = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        out += [os.path.join(d, f) for f in sorted(files) if f.endswith(exts)]
    return out


# properties for which a store into the library's statics is a scheduling point too
FINE = ('C06',)


def build(prop=None, log=sys.stderr):
    """Returns {variant: path of simulator}; objects are cached by content."""
    os.makedirs(os.path.join(BUILD, 'o'), exist_ok=True)
    libsrc = walk(SRC, ('.c', '.cpp', '.cc'))
    hdrs = walk(SRC, ('.h', '.hpp', '.inl', '.table', '.def', '.inc'))
    libh = digest(*[x for p in hdrs for x in (os.path.relpath(p, SRC), rd(p))])
    simh = digest(*[rd(p) for p in walk(SIM, ('.h',))])
    jobs, link = [], {}
    for var, (lf, hf) in VARIANTS.items():
        link[var] = []
        for p in libsrc:
            cpp = not p.endswith('.c')
            cmd = (['clang++', '-std=c++17'] if cpp else ['clang']) + ['-g', '-O2'] + SAN.split() + lf + ['-fsanitize-coverage=trace-pc-guard' + (',trace-stores' if prop in FINE else ''), '-I' + SRC, '-DUSE_STDONLY', '-w', '-c', p]
            o = os.path.join(BUILD, 'o', 'lib-' + digest(libh, rd(p), ' '.join(cmd)) + '.o')
            jobs.append((cmd, o)); link[var].append(o)
        for p in sorted(glob.glob(os.path.join(SIM, '*.cpp'))):
            isref = os.path.basename(p) == 'ref.cpp'
            cmd = ['clang++', '-std=c++17'] + (['-O3'] if isref else ['-g', '-O1', '-fsanitize=address'] + hf) + ['-I' + SRC, '-DUSE_STDONLY', '-w', '-c', p]
            o = os.path.join(BUILD, 'o', digest(simh, b'' if isref else libh, rd(p), ' '.join(cmd)) + '.o')
            jobs.append((cmd, o)); link[var].append(o)
    todo = {}
    for cmd, o in jobs:
        if not os.path.exists(o): todo[o] = cmd

    def comp(it):
        o, cmd = it
        t = o + '.%d.tmp' % os.getpid()
        rc, out = sh(cmd + ['-o', t])
        if rc == 0: os.replace(t, o)
        return rc, out, cmd
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for rc, out, cmd in ex.map(comp, sorted(todo.items(), key=lambda x: 'stream.cpp' not in x[1][-1])):
            if rc: log.write('compile failed: %s\n%s\n' % (' '.join(cmd), out[:4000])); return None
    bins = {}
    for var in VARIANTS:
        lds = os.path.join(SIM, 'statics.ld')
        b = os.path.join(BUILD, 'sim-%s-%s' % (var, digest(rd(lds), *link[var])))
        if not os.path.exists(b):
            cmd = ['clang++', '-fsanitize=address,undefined'] + link[var] + [WRAP, '-o', b + '.tmp']
            rc, out = sh(cmd + ['-Wl,-T,' + lds])   # gathers the library's writable statics in one region
            if rc: rc, out = sh(cmd)                # without it the scheduler merely loses a hint
            if rc: log.write('link failed\n' + out[:4000]); return None
            os.replace(b + '.tmp', b)
        bins[var] = b
    prune(set(o for l in link.values() for o in l), set(bins.values()))
    return bins


def prune(objs, bins):
    """Bound the cache: keep what is in use plus the most recent few hundred objects."""
    for pat, keep, n in ((os.path.join(BUILD, 'o', '*.o'), objs, 400), (os.path.join(BUILD, 'sim-*'), bins, 8)):
        fs = sorted((f for f in glob.glob(pat) if f not in keep), key=lambda f: os.path.getmtime(f), reverse=True)
        for f in fs[n:]:
            try: os.unlink(f)
            except OSError: pass


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) class=(\S+) match=/(.*)/ (.*)', l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def replay_once(bins, path):
    var = 'pattern'
    for l in open(path, errors='replace'):
        if l.startswith('variant '): var = l.split()[1]
        if l.startswith('trace'): break
    r = subprocess.run([bins[var], 'replay', path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode(errors='replace')
    m = re.search(r'replay verdict=(\d+) class=(.*) hash=([0-9a-f]+)', out)
    return (r.returncode, m.group(2), m.group(3)) if m else (r.returncode, None, None), out


def check(prop, tier, seed):
    t0 = time.time()
    bins = build(prop)
    if not bins: print('BUILD-ERROR: the simulator does not build against %s' % SRC); return 2
    tb = time.time() - t0
    rc, out = sh([bins['pattern'], 'selftest'])
    if rc: print('reference self-test failed: ' + out); return 2
    runs, cap = PLAN[tier].get(prop, PLAN[tier]['default'])
    nw = 8
    tmp = tempfile.mkdtemp(prefix='run-', dir=BUILD)
    rdir = os.path.join(HERE, 'evidence', 'replays'); os.makedirs(rdir, exist_ok=True)
    try:
        procs = []
        for w in range(nw):
            var = list(VARIANTS)[w % len(VARIANTS)]
            o = os.path.join(tmp, 'o%d.json' % w); rp = os.path.join(tmp, 'r%d.replay' % w)
            lg = open(os.path.join(tmp, 'l%d' % w), 'w')
            p = subprocess.Popen([bins[var], 'run', prop, str(seed), str(w), str(nw), str((runs + nw - 1) // nw), str(cap), o, rp], stdout=lg, stderr=lg)
            procs.append((p, o, rp, w))
        pend = list(procs); found = False
        while pend:
            for x in list(pend):
                c = x[0].poll()
                if c is None: continue
                pend.remove(x)
                if c == 1: found = True
            if found:
                for x in pend: x[0].terminate()
                for x in pend: x[0].wait()
                break
            time.sleep(0.05)
        res, err, hit = [], None, None
        for p, o, rp, w in procs:
            try: d = json.load(open(o))
            except Exception:
                if not found: err = err or 'worker %d ended with %s: %s' % (w, p.returncode, open(os.path.join(tmp, 'l%d' % w)).read()[-500:])
                continue
            res.append(d)
            if d['error'] and not err: err = d['error']
            if d['found'] and not hit: hit = (d, rp)
        verdict, note = 0, []
        if hit:
            d, rp = hit
            a, txt = replay_once(bins, rp); b, _ = replay_once(bins, rp)
            want = None
            for l in open(rp, errors='replace'):
                if l.startswith('class '): cls = l[6:].strip()
                if l.startswith('hash '): want = l.split()[1]; break
            if a != b or a[0] != 1 or a[1] != cls or a[2] != want:
                print('CHECK-ERROR: the violation does not replay identically in fresh processes: %s %s want %s %s' % (a, b, cls, want)); verdict = 2
            else:
                kf = [k for k in known_findings(prop) if k[0] == d['class'] and k[1].search(d['detail'])]
                if kf:
                    print('KNOWN-FINDING: property=%s %s' % (prop, kf[0][2])); note.append(kf[0][2])
                else:
                    dst = os.path.join(rdir, '%s-%s.replay' % (prop, want)); shutil.copy(rp, dst)
                    print('class: %s\ndetail: %s\nseed %d (base %d, variant %s), %d choices minimised to %d\n%s' % (d['class'], d['detail'], d['seed'], seed, d['variant'], d['choices_before'], d['choices_after'], txt[:3000]))
                    print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(dst, HERE))); verdict = 1
        elif err:
            print('CHECK-ERROR: ' + err); verdict = 2
        wall = time.time() - t0
        evidence(prop, tier, seed, res, wall, tb, verdict, tmp, note)
        if verdict == 0:
            e = sum(d['runs'] for d in res)
            print('%s: held on %d simulated runs (%d steps) in %.1f s' % (prop, e, sum(d['steps'] for d in res), wall))
        return verdict
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def evidence(prop, tier, seed, res, wall, tb, verdict, tmp, note):
    import struct
    meta = json.load(open(os.path.join(SIM, 'meta.json')))
    me = meta['checks'][prop]
    hs = set()
    for w in range(8):
        p = os.path.join(tmp, 'o%d.json.hashes' % w)
        if os.path.exists(p): b = rd(p); hs.update(struct.unpack('<%dQ' % (len(b) // 8), b))
    cn = {}
    for d in res:
        for k, (t, r) in d['counters'].items():
            x = cn.setdefault(k, [0, 0]); x[0] += t; x[1] += r
    em = 0
    for d in res: em |= int(d['edgemap'], 16)
    runs = sum(d['runs'] for d in res); sw = max([d['wall'] for d in res] or [0.001])
    pick = lambda pre: {k[len(pre):]: {'times': v[0], 'runs': v[1]} for k, v in sorted(cn.items()) if k.startswith(pre)}
    cov = {
        'evaluations': runs, 'distinct_nontrivial': len(hs), 'rule': me['rule'],
        'samples': [s for d in res for s in d['samples']][:4],
        'distinct_measure': 'distinct 64-bit hashes of the complete event log (every delivery, fault, schedule switch and observed result) among runs marked non-trivial',
        'nontrivial_runs': sum(d['nontrivial'] for d in res),
        'seeds': {'base': seed, 'indices': '0..%d in steps of 8 per worker' % max(0, runs - 1)},
        'runs_per_hour': int(runs / sw * 3600), 'search_wall_s': round(sw, 2), 'build_wall_s': round(tb, 2),
        'simulated_time_steps': sum(d['steps'] for d in res),
        'simulated_time_unit': 'instrumented basic blocks of library code executed by the simulated device',
        'faults_injected': pick('fault.'), 'schedule_events': pick('sched.'), 'rare_conditions_hit': pick('probe.'), 'message_kinds': pick('kind.'),
        'library_edges_reached': bin(em).count('1'), 'library_edges_total': max([d['edges_total'] for d in res] or [0]),
        'determinism_reruns': sum(d['determinism_checks'] for d in res),
        'build_variants': {v: sum(d['runs'] for d in res if d['variant'] == v) for v in VARIANTS},
        'real_components': meta['real'], 'stub_components': meta['stub'],
        'known_findings_hit': note,
    }
    hit = [d for d in res if d['found']]
    if hit: cov['violation'] = {k: hit[0][k] for k in ('class', 'detail', 'seed', 'choices_before', 'choices_after', 'shrink_tries')}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': meta['assumptions'] + me.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': 1 if verdict == 1 else 0}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    p = os.path.join(HERE, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f: json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


def determinism(prop, n=400):
    """Same seeds at several worker counts, each run twice in separate processes: event-log hashes must agree."""
    bins = build(prop); seed = int(os.environ.get('VERIF_SEED', '1')); bad = 0
    for var in VARIANTS:
        ref = None
        for nw in (1, 3, 8, 8):
            ps = [subprocess.Popen([bins[var], 'hashes', prop, str(seed), str(w), str(nw), str(len(range(w, n, nw)))], stdout=subprocess.PIPE, text=True) for w in range(nw)]
            got = {}
            for p in ps:
                for l in p.communicate()[0].split('\n'):
                    if l: k, v, h = l.split(); got[int(k)] = (v, h)
            if ref is None: ref = got
            elif ref != got: bad += 1; print('%s %s: %d of %d seeds differ at %d workers' % (prop, var, sum(ref[k] != got.get(k) for k in ref), n, nw))
        print('%s %s: %d seeds x 4 process layouts: %s' % (prop, var, n, 'identical' if not bad else 'DIFFER'))
    return 2 if bad else 0


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if '--tier' in a: i = a.index('--tier'); tier = a[i + 1]; del a[i:i + 2]
    if a[:1] == ['build']: return 0 if all([build(), build('C06')]) else 2
    if a[:1] == ['check'] and len(a) == 2: return check(a[1], tier, seed)
    if a[:1] == ['replay'] and len(a) == 2:
        bins = build(next((l.split()[1] for l in open(a[1], errors='replace') if l.startswith('property ')), None))
        if not bins: return 2
        r, out = replay_once(bins, a[1]); print(out, end=''); return r[0]
    if a[:1] == ['determinism'] and len(a) >= 2: return determinism(a[1], int(a[2]) if len(a) > 2 else 400)
    print(__doc__); return 2


if __name__ == '__main__': sys.exit(main())
