#!/usr/bin/env python3
"""check.py <property> quick|thorough     decide one property by seeded simulation of the current /repo
   check.py replay <case file> [-v]       run one stored case; exit 1 when it is a violation
   check.py build                         build only

Exit status: 0 the property held in every simulated run, 1 a violation was found (and its replay file reproduces it in a
fresh process), 3 the machinery itself failed (no verdict).
"""
import resource
import fnmatch, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'sim'))
from table import CHECKS, REAL, STUBS, ASSUMPTIONS  # noqa: E402


def die(msg):
    sys.stderr.write(msg + '\n')
    sys.exit(3)


def build():
    p = subprocess.run([sys.executable, os.path.join(VERIF, 'sim', 'build.py')], stdout=subprocess.PIPE)
    if p.returncode:
        die('build failed')
    return p.stdout.decode().strip().split('\n')[-1]


def load_known():
    """Findings: 'finding: property=C00 case=<file> class=<class pattern> [filter=<class>] <text>'.

    The stored case must fail with a class that matches the pattern. Runs made from seeds are only ignored when their class
    is exactly the (optional) filter; without one the generator does not make programs that run into the finding.
    """
    r = []
    path = os.path.join(VERIF, 'known-findings.txt')
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r'finding: property=(\w+) case=(\S+) class=(\S+)(?: filter=(\S+))? (.*)', line)
        if m:
            r.append(dict(property=m[1], cls=m[3], filter=m[4], case=os.path.join(VERIF, m[2]), what=m[5].strip()))
    return r


def replay(out, path, extra=()):
    for attempt in range(3):
        p = subprocess.run([os.path.join(out, 'sim'), 'replay', path, *extra], stdout=subprocess.PIPE, stderr=None if extra else subprocess.PIPE)
        lines = p.stdout.decode(errors='replace').strip().split('\n')
        if extra:
            print('\n'.join(lines[:-1]))
        try:
            return json.loads(lines[-1])
        except ValueError:
            # The simulator itself did not run (no memory, no processes): nothing was decided.
            time.sleep(1)
    return {'class': 'unreadable', 'hash': '', 'points': 0, 'status': 3, 'expected': '', 'reproduced': False,
            'msg': f'status {p.returncode}: ' + (p.stdout + (p.stderr or b'')).decode(errors='replace')[-500:]}


def main():
    if len(sys.argv) < 2:
        die(__doc__)
    if sys.argv[1] == 'build':
        print(build())
        return 0
    if sys.argv[1] == 'replay':
        r = replay(build(), sys.argv[2], tuple(a for a in sys.argv[3:]))
        print(f"class: {r['class'] or 'nothing wrong'}\nreproduced exactly: {r['reproduced']}\n{r['msg']}")
        return 1 if r['status'] == 2 else 0 if r['status'] == 1 else 3
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    ck = CHECKS[prop]
    t0 = time.time()
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    out = build()
    rep = os.path.join(VERIF, 'replays', prop)
    os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        os.unlink(os.path.join(rep, f))
    known = load_known()
    # Known findings are shown to be there by their own case.
    shown = []
    for k in known:
        if k['property'] != prop:
            continue
        r = replay(out, k['case'])
        if r['status'] == 2 and fnmatch.fnmatchcase(r['class'], k['cls']):
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
            shown.append(dict(cls=k['cls'], what=k['what'], case=os.path.relpath(k['case'], VERIF)))
        elif r['status'] == 2:
            # The stored history fails in another way: that is something else.
            print(f"VIOLATION property={prop} replay={k['case']}")
            print(r['class'] + ': ' + r['msg'])
            return 1
    kf = os.path.join(rep, 'known')
    open(kf, 'w').write(''.join(k['filter'] + '\n' for k in known if k['filter']))
    secs = ck.get('quick', 25) if tier == 'quick' else ck.get('thorough', 700)
    if os.environ.get('SIM_TIME'):
        secs = float(os.environ['SIM_TIME'])
    oj = os.path.join(rep, 'explore.json')
    cmd = [os.path.join(out, 'sim'), 'explore', '--profiles', ','.join(ck['profiles']), '--seed', str(seed), '--time', str(secs),
           '--replays', rep, '--minimise', '8' if tier == 'quick' else '60', '--early', '2' if tier == 'quick' else '60', '--out', oj, '--known', kf, '--workers', str(os.cpu_count() or 8)]
    p = subprocess.run(cmd)
    if not os.path.exists(oj):
        die('the simulator did not finish')
    o = json.load(open(oj))
    bad = []
    broken = o['harness']
    for v in o['violations']:
        if v['known']:
            continue
        if not v['path']:
            continue
        r = replay(out, v['path'])
        if r['status'] != 2 or not r['reproduced']:
            if v['cls'] in ('hang', 'died:signal14') or r['class'] == v['cls']:
                r['reproduced'] = r['class'] == v['cls']
            if not r['reproduced']:
                broken = f"replay of {v['path']} gave '{r['class']}' instead of '{v['cls']}' ({r['msg'][-300:]})"
                continue
        bad.append(v)
    known_hits = {}
    for v in o['violations']:
        if v['known']:
            known_hits[v['cls']] = known_hits.get(v['cls'], 0) + v['hits']
    hours = max(o['wall_s'], .01) / 3600
    samples = []
    for i in range(2 * len(ck['profiles'])):
        if len(samples) >= 3:
            break
        g = subprocess.run([os.path.join(out, 'sim'), 'gen', '--profiles', ','.join(ck['profiles']), '--seed', str(seed), '--index', str(i)], stdout=subprocess.PIPE)
        t = g.stdout.decode(errors='replace')
        if len(t) < 6000 or i > len(ck['profiles']):
            samples.append('\n'.join(l[:300] for l in t.split('\n'))[:4000])
    ev = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=o['runs'], distinct_nontrivial=o['distinct'],
            rule=ck['rule'] + ' A run is non-trivial when at least one pre-emption happened, a fault was injected, or one of the rare events below was reached; '
                 'runs are distinct when the hash over their scheduling decisions, lock order and everything observable differs.',
            samples=samples,
            runs_per_hour=round(o['runs'] / hours), seeds='one per run, derived from the base seed and the run index',
            simulated_seconds=o['simulated_s'], scheduling_points=o['points'], context_switches=o['switches'], synchronisation_operations=o['sync_points'],
            faults_injected=o['faults'], rare_events_reached=o['rare_events'], runs_per_profile=o['profiles'],
            determinism_pairs=o['determinism_pairs'],
            determinism='every n-th run was executed twice from its seed and had to give the same hash; every reported failure was repeated from its seed and replayed from its file in a fresh process',
            minimiser_runs=o['minimiser_runs'], known_findings=shown, known_finding_hits=known_hits,
            real_components=REAL + ck.get('real', []), stubbed_components=STUBS + ck.get('stubs', []),
            oracle=ck['oracle']),
        assumptions=ASSUMPTIONS + ck.get('assumptions', []),
        wall_s=round(time.time() - t0, 2), violations=len(bad))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ep = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(ep + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(ep + '.tmp', ep)
    print(f"{prop} {tier}: {o['runs']} simulated runs ({o['distinct']} distinct and non-trivial) in {o['wall_s']:.0f} s, {o['simulated_s']:.1f} s simulated, "
          f"{sum(o['faults'].values())} faults injected, {len(bad)} violations")
    for v in bad:
        print(f"VIOLATION property={prop} replay={v['path']}")
        print(f"  {v['cls']} ({v['hits']} runs): " + v['msg'].replace('\n', '\n  ')[:1500])
    if bad:
        return 1
    if broken:
        die('no verdict: ' + str(broken))
    if o['runs'] < 50:
        die('no verdict: only %d runs' % o['runs'])
    return 0


resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
sys.exit(main())
