#!/usr/bin/env python3
"""check.py PROP quick|thorough      decide one property
   check.py replay FILE              run a replay file again
   check.py setup                    build what the checks share

A check has two parts. First, Verus is given the contract units of the property,
generated from /repo's current sources, and has to accept every obligation. Then
the same contracts are executed as monitors against the real crate, which is what
turns a refused obligation into a concrete input.
"""
import fcntl, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import vf
from config import PROPS

TARGET = os.path.join(HERE, 'target')
ORACLE = os.path.join(TARGET, 'oracle', 'debug', 'oracle')


def sh_env():
    """The environment /opt/vp builds the repository with."""
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], stdout=subprocess.PIPE).stdout
    env = dict(kv.split('=', 1) for kv in out.decode().split('\0') if '=' in kv)
    env['CARGO_TARGET_DIR'] = os.path.join(TARGET, 'oracle')
    env['RUSTFLAGS'] = '-Awarnings'
    return env


def build():
    """Rebuild the monitors against /repo's working tree."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        p = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(HERE, 'oracle'), env=sh_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def monitors(prop, seed, ms, replay, work):
    stats = os.path.join(work, 'stats.json')
    p = subprocess.run([ORACLE, 'run', prop, str(seed), str(ms), replay, stats], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if not os.path.exists(stats):
        return None, p.stdout.decode('utf8', 'replace')
    return json.load(open(stats)), ''


def findings(prop):
    """Recorded genuine defects of this property: [(text, case)]."""
    out = []
    with open(os.path.join(HERE, 'known-findings.txt')) as f:
        for ln in f:
            if ln.startswith('finding: property=%s ' % prop):
                rest = ln.split(' ', 2)[2].strip()
                j, k = json.JSONDecoder().raw_decode(rest[len('case='):])
                out.append((rest[len('case='):][k:].strip(), j))
    return out


def one(case, work):
    f = os.path.join(work, 'finding.json')
    with open(f, 'w') as h: json.dump(case, h)
    return subprocess.run([ORACLE, 'one', f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).returncode


def main():
    if sys.argv[1] == 'setup':
        rc, out = build()
        print(out)
        sys.exit(rc)
    if sys.argv[1] == 'replay':
        rc, out = build()
        if rc: print(out); sys.exit(2)
        r = json.load(open(sys.argv[2]))
        if 'monitor' in r: sys.exit(subprocess.run([ORACLE, 'one', sys.argv[2]]).returncode)
        work = tempfile.mkdtemp()
        bad = 0
        for u in r['units']:
            x = vf.check_unit(u, work, probe=False)
            print(u, x['status'], json.dumps(x['failed'], indent=1)); bad |= x['status'] == 'failed'
        shutil.rmtree(work)
        sys.exit(1 if bad else 0)

    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cfg = PROPS[prop]
    start = time.time()
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    replay = os.path.join(HERE, 'evidence', 'replay-%s.json' % prop)
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    if os.path.exists(replay): os.remove(replay)
    try:
        code = decide(prop, tier, seed, cfg, start, work, replay)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, cfg, start, work, replay):
    with ThreadPoolExecutor(5) as ex:
        b = ex.submit(build)
        units = list(ex.map(lambda u: vf.check_unit(u, work), cfg['units']))
        rc, out = b.result()
    if rc:
        print('the monitors do not build against the current tree:\n' + out[-6000:])
        return 2
    for u in units:
        # of a unit that serves several properties, only some functions may bear on this one
        only = cfg.get('only', {}).get(u['unit'])
        if only and u['status'] == 'failed' and not any(f['function'] is None or re.search(only, f['function'].strip()) for f in u['failed']):
            u['status'] = 'undecided'
            u['reasons'].append('what is refused does not bear on this property')
    for u in units:
        print('contracts %s: %s, %d of %d obligations discharged, solver %d ms' % (u['unit'], u['status'], u['discharged'], u['obligations'], u['smt_ms']))
        for r in u['reasons']: print('   ' + r)
        for f in u['failed']: print('   refused in %s: %s' % (f['function'], f['obligation']))
    failed = [u for u in units if u['status'] == 'failed']
    undecided = [u for u in units if u['status'] == 'undecided']
    ms = cfg.get('ms', 12000) if tier == 'quick' else cfg.get('thorough_ms', 240000)
    if (failed or undecided) and tier == 'quick': ms *= 3
    st = None
    violations = 0
    line = None
    if cfg.get('monitors', True):
        st, err = monitors(prop, seed, ms, replay, work)
        if st is None:
            print('the monitors did not run:\n' + err); return 2
        print('monitors: %d evaluations, %d distinct and non-trivial, %.1f s' % (st['evaluations'], st['distinct_nontrivial'], st['wall_s']))
        if st['failure']:
            violations = 1
            print('FAILED %s on %r: %s' % (st['failure']['monitor'], st['failure']['input'][:300], st['failure']['failure'][:1500]))
            line = 'VIOLATION property=%s replay=%s' % (prop, replay)
    if line is None and failed:
        violations = 1
        with open(replay, 'w') as h:
            json.dump({'property': prop, 'units': [u['unit'] for u in failed], 'refused_obligations': [dict(f, unit=u['unit']) for u in failed for f in u['failed']],
                       'note': 'the verifier accepted these obligations on the recorded tree and refuses them now; executing the contracts found no concrete input'}, h, indent=1)
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay)
    for what, case in findings(prop):
        if line is None and one(case, work) != 0:
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
    evidence(prop, tier, seed, cfg, units, undecided, st, violations, time.time() - start)
    if line:
        print(line)
        return 1
    return 0


def evidence(prop, tier, seed, cfg, units, undecided, st, violations, wall):
    cov = {}
    if units:
        cov.update({
            'obligations': sum(u['obligations'] for u in units), 'discharged': sum(u['discharged'] for u in units),
            'checker_cmd': 'verus (Z3 back end) on each unit generated by tools/vf.py from /repo/src and contracts/*.vrs',
            'trusted_base': ['Verus 0.2026.09.13, Z3 and rustc 1.98.1', 'tools/vf.py: extraction drops comments, attributes, visibility and log macros, and applies the rewrites listed'] + sorted(set(a for u in units for a in u['assumptions'])),
            'functions_under_contract': sorted(set(f for u in units for f in u['functions'])),
            'types_extracted': sorted(set(f for u in units for f in u['types'])),
            'rewrites': sorted(set(f for u in units for f in u['rewrites'])),
            'vacuity_probes': sum(u.get('probed', 0) for u in units),
            'solver_ms': sum(u['smt_ms'] for u in units),
            'units': [{k: u[k] for k in ('unit', 'status', 'obligations', 'discharged', 'smt_ms', 'reasons')} for u in units],
            'refused': [dict(f, unit=u['unit'], verifier=f['verifier'][:400]) for u in units for f in u['failed']],
        })
    if st:
        cov.update({
            'evaluations': st['evaluations'], 'dropped_as_slow': st.get('dropped_slow', 0), 'distinct_nontrivial': st['distinct_nontrivial'], 'samples': st['samples'],
            'rule': 'bounded companion, never counted as proved: the contract is executed on the real crate for generated inputs; distinct = different monitor, input and settings; non-trivial = the monitor says the contract\'s subject occurs in the input',
            'monitors': {k: {'evaluations': v[0], 'distinct_nontrivial': v[1]} for k, v in st['monitors'].items()},
        })
    level = cfg['level'] if not undecided else 'exploration'
    if undecided: cov['explanation'] = 'the verifier gave no answer for %s: this run is bounded only' % ', '.join(u['unit'] for u in undecided)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': cfg.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': violations}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as h: json.dump(ev, h, indent=1, ensure_ascii=False)


if __name__ == '__main__':
    main()
