#!/usr/bin/env python3
"""Runs the model checker for one property.

  bin/check.py C01 [--tier quick|thorough]     decide the property
  bin/check.py --replay replays/C01-....json   rerun one recorded execution

Exit 0: held on everything explored.  1: violated (a VIOLATION line on stdout).  2: no verdict.
"""
import concurrent.futures as cf, copy, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
WORK = os.path.join(V, 'work')
MEM = 12 << 30

class NoVerdict(Exception):
    pass

class Build:
    """One harness crate in one configuration."""
    tier = None # the one asked for
    def __init__(self, crate, features=('std',), release=False, bin=None):
        self.crate, self.features, self.release, self.bin = crate, tuple(features), release, bin or crate
    @property
    def config(self):
        return '%s[%s]%s' % (self.crate, '+'.join(self.features), '-release' if self.release else '')
    @property
    def target(self):
        return os.path.join(WORK, 'target-' + re.sub(r'[^a-z0-9]+', '-', self.config))
    def build(self):
        cmd = ['cargo', 'build', '--offline', '-q', '--bin', self.bin, '--no-default-features']
        if self.features:
            cmd += ['--features', ','.join(self.features)]
        if self.release:
            cmd.append('--release')
        env = dict(os.environ, CARGO_TARGET_DIR=self.target, CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings', CARGO_INCREMENTAL='0')
        p = subprocess.run(cmd, cwd=os.path.join(V, 'mc', self.crate), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            sys.stderr.write(p.stdout[-6000:])
            raise NoVerdict('build of %s failed' % self.config)
        return os.path.join(self.target, 'release' if self.release else 'debug', self.bin)

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def run(exe, args, timeout):
    p = subprocess.Popen([exe] + args, preexec_fn=limits, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', cwd=WORK)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise NoVerdict('%s timed out' % exe)
    return p.returncode, out, err

def execute(prop, b, exe, tier, cap, tag=''):
    """Runs one harness binary; returns its coverage record (violations inside)."""
    out = os.path.join(WORK, '%s-%s%s.json' % (prop, re.sub(r'[^a-z0-9]+', '-', b.config), tag))
    if os.path.exists(out):
        os.unlink(out)
    common = ['--tier', tier, '--out', out, '--config', b.config, '--cap', str(cap)]
    rc, so, se = run(exe, [prop] + common, cap + 150)
    sys.stderr.write(se[-20000:])
    if rc in (0, 1):
        cov = json.load(open(out))
        if (rc == 1) != bool(cov['violations']):
            raise NoVerdict('exit status %d of %s contradicts its report' % (rc, b.config))
        return cov
    if rc == 3 or rc == 101:
        raise NoVerdict('engine error in %s (exit %d)' % (b.config, rc))
    # The process died. Find the execution that killed it and confirm by replaying just that one.
    log = out + '.trace'
    rc, so, se = run(exe, [prop] + common + ['--workers', '1', '--trace-log', log], cap + 150)
    if rc in (0, 1):
        raise NoVerdict('crash of %s did not reproduce' % b.config)
    line = open(log).read().split('\n')[0]
    scenario, _, trace = line.partition(' ')
    deaths = []
    for _ in range(2):
        rc, so, se = run(exe, [prop] + common + ['--replay', scenario, trace], 120)
        deaths.append(rc)
    if deaths[0] < 0 and deaths[0] == deaths[1]:
        try:
            name = signal.Signals(-deaths[0]).name
        except ValueError:
            name = str(-deaths[0])
        return {'states': 1, 'transitions': 1, 'executions': 1, 'replayed_twice': 1, 'samples': [line], 'scenarios': [], 'assumptions': [], 'exhaustive': False, 'wall_s': 0,
                'violations': [{'scenario': scenario, 'config': b.config, 'trace': [int(x) for x in trace.split(',') if x], 'detail': 'the process died with %s' % name, 'steps': []}]}
    raise NoVerdict('crash of %s not confirmed by replay' % b.config)

def known_findings(prop):
    """Entries `known: property=<id> match=<regex over the violation's detail> :: <what fails>`."""
    out = []
    for l in open(os.path.join(V, 'known-findings.txt')):
        m = re.match(r'known: property=(\S+) match=(.*?) :: (.*)', l.strip())
        if m and m.group(1) == prop:
            out.append((re.compile(m.group(2)), m.group(3)))
    return out

def save_replay(prop, tier, b, v):
    os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
    rec = {'property': prop, 'tier': tier, 'crate': b.crate, 'features': list(b.features), 'release': b.release, 'bin': b.bin,
           'scenario': v['scenario'], 'trace': v['trace'], 'detail': v['detail'], 'steps': v.get('steps', [])}
    if 'other' in v:
        rec['other'] = v['other']
    h = hashlib.sha256(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join('replays', '%s-%s.json' % (prop, h))
    json.dump(rec, open(os.path.join(V, path), 'w'), indent=1)
    return path

def compare(prop, tier, runs, skip, cap):
    """The digests of equally named scenarios must be the same in all configurations."""
    first = {}
    for b, exe, c in runs:
        for s in c['scenarios']:
            if s['name'] in skip or not s['exhaustive']:
                continue
            b0, exe0, d0 = first.setdefault((s['name'], b.tier), (b, exe, s['digest']))
            if d0 == s['digest']:
                continue
            # Find an execution that differs.
            seen = []
            for e, bb in ((exe0, b0), (exe, b)):
                dump = os.path.join(WORK, '%s-%s.dump' % (prop, re.sub(r'[^a-z0-9]+', '-', bb.config)))
                run(e, [prop, '--tier', bb.tier or tier, '--dump', dump, '--config', bb.config, '--cap', str(cap)], cap + 150)
                seen.append({l.split()[1] if l.count(' ') == 2 and l.split(' ')[1] else '': l.split()[-1] for l in open(dump) if l.startswith(s['name'] + ' ')})
                os.unlink(dump)
            diff = sorted((t for t in seen[0].keys() | seen[1].keys() if seen[0].get(t) != seen[1].get(t)), key=lambda t: (len(t), t))
            if not diff:
                raise NoVerdict('results of %s in %s and %s differ but not when run again' % (s['name'], b0.config, b.config))
            t = diff[0]
            return b, {'scenario': s['name'], 'config': b.config, 'trace': [int(x) for x in t.split(',') if x], 'steps': [],
                       'other': {'features': list(b0.features), 'release': b0.release},
                       'detail': '%s and %s give different results in scenario %s, execution [%s] (and %d more)' % (b0.config, b.config, s['name'], t, len(diff) - 1)}
    return None

def main():
    from registry import PROPS, CUSTOM, COMPARE, MORE
    args = sys.argv[1:]
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    if args and args[0] == '--replay':
        rec = json.load(open(args[1]))
        if rec.get('custom'):
            return CUSTOM[rec['property']].replay(rec)
        b = Build(rec['crate'], rec['features'], rec['release'], rec['bin'])
        exe = b.build()
        if 'other' in rec:
            # Two configurations disagree: show the execution in both.
            outs = []
            for bb in (b, Build(rec['crate'], rec['other']['features'], rec['other']['release'], rec['bin'])):
                rc, so, se = run(bb.build(), [rec['property'], '--tier', rec['tier'], '--replay', rec['scenario'], ','.join(map(str, rec['trace']))], 600)
                print('%s:\n%s' % (bb.config, so))
                outs.append(so)
            return 0 if outs[0] == outs[1] else 1
        rc, so, se = run(exe, [rec['property'], '--tier', rec['tier'], '--replay', rec['scenario'], ','.join(map(str, rec['trace']))], 600)
        sys.stdout.write(so); sys.stderr.write(se)
        return 0 if rc == 0 else 1
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    cap = 60 if tier == 'quick' else 600
    if '--cap' in args:
        cap = int(args[args.index('--cap') + 1])
    covs, viols = [], []
    builds = list(PROPS.get(prop, []))
    if tier != 'quick':
        cap = cap // max(1, len(builds)) // (2 if prop in MORE else 1)
    if tier != 'quick' and prop in MORE:
        have = {b.config for b in builds}
        for b in MORE[prop]():
            if b.config not in have:
                b.tier = 'quick'
                builds.append(b)
        # The configurations compared with each other are explored to the same depth.
        for b in builds[:2]:
            q = copy.copy(b)
            q.tier = 'quick'
            builds.append(q)
    with cf.ThreadPoolExecutor(8) as ex:
        exes = [ex.submit(b.build) for b in builds]
        custom = CUSTOM.get(prop)
        if custom:
            c = custom.check(prop, tier, cap)
            covs.append(c)
            viols += [(None, v) for v in c['violations']]
        runs = []
        for b, f in zip(builds, exes):
            c = execute(prop, b, f.result(), b.tier or tier, cap)
            covs.append(c)
            runs.append((b, f.result(), c))
            viols += [(b, v) for v in c['violations']]
        if prop in COMPARE and not viols:
            d = compare(prop, tier, runs, COMPARE[prop], cap)
            viols += [d] if d else []
    known, fresh = [], []
    kf = known_findings(prop)
    for b, v in viols:
        hit = next((t for rx, t in kf if rx.search(v['detail'])), None)
        (known.append(hit) if hit else fresh.append((b, v)))
    for rx, t in kf:
        if t in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, t))
    tot = lambda k: sum(c[k] for c in covs)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('states'), 'transitions': tot('transitions'), 'traces_validated_against_impl': tot('executions'),
            'samples': [s[:600] for c in covs for s in c['samples']][:16],
            'executions_replayed_twice': tot('replayed_twice'),
            'exhaustive': all(c['exhaustive'] for c in covs),
            'scenarios': [s for c in covs for s in c['scenarios']],
            'explanation': 'stateless exploration of the real code: every execution is a trace of the implementation compared with the reference model; states are distinct fingerprints of (observed outcome of) an execution, transitions are explored choices plus steps of the system under test',
        },
        'assumptions': sorted({a for c in covs for a in c['assumptions']}),
        'wall_s': round(time.time() - t0, 2), 'violations': len(fresh),
    }
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    if fresh:
        for b, v in fresh[:1]:
            path = v['replay'] if b is None else save_replay(prop, b.tier or tier, b, v)
            sys.stderr.write('%s\n' % v['detail'])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('%s held: %d executions, %d states, %d transitions in %.1fs' % (prop, tot('executions'), tot('states'), tot('transitions'), time.time() - t0))
    return 0

if __name__ == '__main__':
    try:
        sys.exit(main())
    except NoVerdict as e:
        sys.stderr.write('NO VERDICT: %s\n' % e)
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
