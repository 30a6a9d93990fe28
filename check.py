#!/usr/bin/env python3
"""Runs one check:  check.py C05 [--tier quick|thorough] [--seed N]   or replays:  check.py C05 --replay FILE
exit 0: held on everything explored; 1: violation (line on stdout); 2: the check itself could not run."""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, time, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = HERE + '/src'
WRAPS = open(SRC + '/wraps.txt').read().split()
NJ = os.cpu_count() or 4


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg):
    print('CHECK-ERROR: ' + msg)
    sys.exit(2)


def build(prop, spec, bdir):
    """compiles the harness against /repo's working tree; returns the executable"""
    h = spec['harness']
    os.makedirs(bdir, exist_ok=True)
    inc = ['-I' + REPO + '/src', '-I' + REPO + '/libhifir/include', '-I' + SRC]
    jobs, objs = [], []
    clang = shutil.which('clang++') and not h.get('gcc')
    if h['kind'] == 'asan':
        base = ['clang++' if clang else 'g++', '-std=c++14', '-w', '-g1', '-O0', '-fsanitize=address']
    elif h['kind'] == 'sched':  # simulated threads: compiler instrumentation, our own runtime behind it
        base = ['g++', '-std=c++14', '-w', '-g1', '-fno-pie', '-no-pie']
    else:
        base = ['g++', '-std=c++14', '-w', '-g1', '-O1']
    inst = ['-O1', '-fsanitize=thread', '-fopenmp', '-D_GLIBCXX_EXTERN_TEMPLATE=0'] if h['kind'] == 'sched' else []
    sim = ['-O2', '-fno-threadsafe-statics'] if h['kind'] == 'sched' else []
    core = [('sim.cpp', ['-O1', '-fno-sanitize=address'] if h['kind'] == 'asan' else sim), ('main.cpp', sim)]
    if h['kind'] == 'sched':
        core.append(('sched.cpp', sim))
    if not h.get('nofault'):
        core.append(('fault.cpp', (['-O1', '-fno-sanitize=address'] if h['kind'] == 'asan' else sim) + h.get('fault_flags', [])))
    if h.get('disk'):
        core.append(('disk.cpp', ['-O1', '-fno-sanitize=address'] if h['kind'] == 'asan' else sim))
    for f, fl in core:
        o = bdir + '/' + f.replace('.cpp', '.o')
        jobs.append((base + inc + fl + ['-c', SRC + '/' + f, '-o', o], o))
    for c in h['cfgs']:
        o = bdir + '/h%s.o' % c
        jobs.append((base + inc + inst + ['-DCFG=%s' % c] + h['flags'] + h.get('cflags', []) + ['-c', SRC + '/' + h['src'], '-o', o], o))
    for i, (f, fl) in enumerate(h.get('extra', [])):
        o = bdir + '/x%d.o' % i
        f = f.replace('$REPO', REPO).replace('$SRC', SRC)
        jobs.append((base + inc + inst + h['flags'] + fl + ['-c', f, '-o', o], o))
    jobs.sort(key=lambda j: '/h' not in j[1] and '/x' not in j[1])
    with ThreadPoolExecutor(NJ) as ex:
        rs = list(ex.map(lambda j: sh(j[0]), jobs))
    for j, r in zip(jobs, rs):
        if r.returncode:
            die('build failed: %s\n%s' % (' '.join(j[0]), r.stdout[-3000:]))
        if h.get('localize') and '/h' in j[1][len(bdir):]:
            r = sh(['objcopy', '--wildcard', '--localize-symbol=' + h['localize'], j[1]])
            if r.returncode:
                die('objcopy failed\n' + r.stdout)
        objs.append(j[1])
    exe = bdir + '/sim_' + prop.lower()
    wr = WRAPS if h.get('wrap_lapack') else []
    if h['kind'] == 'sched':
        wr = wr + ['-Wl,--wrap=' + f for f in ('memcpy memmove memset malloc __cxa_allocate_exception backtrace_symbols pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_once').split()] + ['-lpthread']
    r = sh(base + objs + wr + h.get('ldflags', []) + ['-llapack', '-lblas', '-ldl', '-o', exe])
    if r.returncode:
        die('link failed\n' + r.stdout[-3000:])
    return exe


def known_findings(prop):
    out = []
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) class=(\S+) match="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def symbolize(exe, msg):
    offs = re.findall(r'\+0x([0-9a-f]+)\)', msg)[:14]
    if not offs:
        return ''
    r = sh(['addr2line', '-Cfspe', exe] + ['0x' + x for x in offs])
    return r.stdout[:3000]


def replay(exe, prop, tape, out):
    sh([exe, 'replay', '--prop', prop, '--tape', tape, '--out', out])
    return json.load(open(out))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--replay')
    a = ap.parse_args()
    prop, t0 = a.prop, time.time()
    spec = CHECKS[prop]
    bdir = HERE + '/build/' + prop
    shutil.rmtree(bdir, ignore_errors=True)
    exe = build(prop, spec, bdir)
    tb = time.time() - t0
    if a.replay:
        r = replay(exe, prop, a.replay, bdir + '/replay.json')
        print(r['trace'])
        if not r['violated']:
            print('no violation in this execution, event hash ' + r['hash'])
            sys.exit(0)
        print('class %s\n%s\nevent hash %s' % (r['class'], r['msg'], r['hash']))
        want = re.search(r'"hash": "([0-9a-f]+)"', open(a.replay).read())
        if want:
            print('identical execution' if want.group(1) == r['hash'] else 'NOTE: the execution differs from the recorded one (different code or harness)')
        print(symbolize(exe, r['msg']))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(a.replay, HERE)))
        sys.exit(1)
    budget = a.budget or spec['quick' if a.tier == 'quick' else 'thorough']
    out = bdir + '/out'
    os.makedirs(out, exist_ok=True)
    ts = time.time()
    ps = [subprocess.Popen([exe, 'run', '--prop', prop, '--seed', str(a.seed), '--start', str(i), '--stride', str(NJ), '--budget', str(budget),
                            '--out', out + '/o%d.json' % i, '--outdir', out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for i in range(NJ)]
    first = None
    while any(p.poll() is None for p in ps):
        time.sleep(0.1)
        if first is None and glob.glob(out + '/cand-*.json'):
            first = time.time()
        if first and time.time() - first > 1.5 and not os.path.exists(out + '/STOP'):
            open(out + '/STOP', 'w').close()
    if any(p.returncode for p in ps):
        die('a worker ended with status %s' % [p.returncode for p in ps])
    search = time.time() - ts
    tot = dict(runs=0, nontrivial=0, det_checked=0, det_bad=0)
    ctr, sigs, samples, viol = {}, set(), [], []
    for i in range(NJ):
        d = json.load(open(out + '/o%d.json' % i))
        for k in tot:
            tot[k] += d[k]
        for k, v in d['counters'].items():
            ctr[k] = ctr.get(k, 0) + v
        sigs.update(d['sigs'])
        samples += d['samples']
        viol += d['violations']
    if tot['runs'] == 0:
        die('no run completed')
    # gate candidates: twice the same class and hash in fresh processes, then minimise, then replay the result
    kf, kf_seen, reported, unconfirmed = known_findings(prop), {}, [], []
    rdir = HERE + '/replays'
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(rdir + '/%s-*.json' % prop):
        os.remove(f)
    done = set()
    viol.sort(key=lambda v: v['tape_len'])
    for v in viol:
        if v['class'] in done or len(reported) >= 3:
            continue
        r1, r2 = replay(exe, prop, v['file'], bdir + '/r1.json'), replay(exe, prop, v['file'], bdir + '/r2.json')
        if not (r1['violated'] and r2['violated'] and r1['class'] == r2['class'] == v['class'] and r1['hash'] == r2['hash']):
            unconfirmed.append(v['class'])
            continue
        k = next((k for k in kf if k[0] == v['class'] and k[1] in r1['msg'] + r1['trace']), None)
        if k:
            kf_seen[k] = kf_seen.get(k, 0) + 1
            continue
        done.add(v['class'])
        f = rdir + '/%s-%d-%d.json' % (prop, a.seed, v['run'])
        mb = 15 if a.tier == 'quick' and not reported else 5 if a.tier == 'quick' else 60
        m = sh([exe, 'min', '--prop', prop, '--tape', v['file'], '--budget', str(mb), '--out', f])
        ok = m.returncode == 0 and os.path.exists(f)
        if ok:
            r = replay(exe, prop, f, bdir + '/r1.json')
            ok = r['violated'] and r['class'] == v['class']
        if not ok:  # keep the unminimised tape
            shutil.copy(v['file'], f)
            r = r1
        reported.append((v, f, r))
    wall = time.time() - t0
    cov = dict(evaluations=tot['runs'], distinct_nontrivial=len(sigs), rule=spec['rule'], samples=samples[:6] or [{'run': 0, 'case': 'see counters'}],
               nontrivial_runs=tot['nontrivial'], runs_per_hour=int(tot['runs'] / max(search, 1e-3) * 3600), seeds_per_hour=int(tot['runs'] / max(search, 1e-3) * 3600),
               search_s=round(search, 2), build_s=round(tb, 2), workers=NJ,
               faults_injected={k[6:]: v for k, v in sorted(ctr.items()) if k.startswith('fault.')},
               probes_and_operations={k: v for k, v in sorted(ctr.items()) if not k.startswith(('fault.', 'sim.', 'simtime.'))},
               simulated_time_s=round(ctr.get('simtime.ms', 0) / 1000.0, 3), scheduling_and_fault_choices=ctr.get('sim.choices', 0),
               determinism=dict(runs_repeated=tot['det_checked'], differing=tot['det_bad']),
               distinct_measure=spec.get('measure', 'number of different run signatures, see rule'),
               real_components=spec['real'], simulated_components=spec['stub'], unconfirmed_candidates=unconfirmed)
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level=spec['level'], coverage=cov, wall_s=round(wall, 2), violations=len(reported),
              assumptions=spec.get('assumptions', ['the code outside the simulated seams behaves as in the tested build', 'seeded search samples executions; it does not enumerate all of them']))
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open(HERE + '/evidence/%s.json' % prop, 'w'), indent=1)
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
    print('%s: %d runs, %d distinct non-trivial, %.1f s search, %.1f s build, repeated %d (differing %d)' % (prop, tot['runs'], len(sigs), search, tb, tot['det_checked'], tot['det_bad']))
    if unconfirmed:
        print('note: %d candidate(s) did not reproduce and were not reported: %s' % (len(unconfirmed), ', '.join(sorted(set(unconfirmed)))))
    for v, f, r in reported:
        print('--- %s: %s' % (v['class'], r['msg'][:1200]))
        s = symbolize(exe, r['msg'])
        if s:
            print(s)
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(f, HERE)))
    sys.stdout.flush()
    sys.exit(1 if reported else 0)


main()
