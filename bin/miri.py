"""C26: a part of the executions again under Miri, which stops at undefined behaviour."""
import concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, time
from check import V, WORK, NoVerdict
SHARDS = 8
FLAGS = '-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-preemption-rate=0'

def miri(args, shard, timeout):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(WORK, 'target-m-miri'), CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings', CARGO_INCREMENTAL='0', MIRIFLAGS=FLAGS, MC_SHARD=shard)
    cmd = ['cargo', '+nightly', 'miri', 'run', '--offline', '-q', '--bin', 'm', '--', 'C26', '--workers', '1', '--hang', '700', '--config', 'm[miri]'] + args
    try:
        p = subprocess.run(cmd, cwd=os.path.join(V, 'mc', 'm'), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout)
    except subprocess.TimeoutExpired:
        raise NoVerdict('Miri timed out')
    return p.returncode, p.stdout, p.stderr

def ub(err):
    m = re.search(r'error: (Undefined Behavior: .*)', err)
    return m and m.group(1)

def one(k, tier, cap):
    out = os.path.join(WORK, 'C26-miri-%d.json' % k)
    log = out + '.trace'
    if os.path.exists(out):
        os.unlink(out)
    rc, so, se = miri(['--tier', tier, '--out', out, '--cap', str(cap), '--trace-log', log], '%d/%d' % (k, SHARDS), cap + 250)
    if rc in (0, 1) and os.path.exists(out):
        cov = json.load(open(out))
        if (rc == 1) == bool(cov['violations']):
            for v in cov['violations']:
                v['shard'] = k
            return cov
    if not ub(se):
        sys.stderr.write(se[-4000:])
        raise NoVerdict('Miri gave no result (exit %d)' % rc)
    line = open(log).read().split('\n')[0]
    scenario, _, trace = line.partition(' ')
    rc, so, se2 = miri(['--tier', tier, '--replay', scenario, trace], '%d/%d' % (k, SHARDS), 400)
    if not ub(se2):
        raise NoVerdict('undefined behaviour (%s) not confirmed by replay' % ub(se))
    return {'states': 1, 'transitions': 1, 'executions': 1, 'replayed_twice': 1, 'samples': [line], 'scenarios': [], 'assumptions': [], 'exhaustive': False, 'wall_s': 0,
            'violations': [{'shard': k, 'scenario': scenario, 'trace': [int(x) for x in trace.split(',') if x], 'detail': ub(se2), 'steps': se2[-3000:].split('\n')}]}

def check(prop, tier, cap):
    t0 = time.time()
    with cf.ThreadPoolExecutor(SHARDS) as ex:
        covs = list(ex.map(lambda k: one(k, tier, 600), range(SHARDS)))
    for v in (v for c in covs for v in c['violations']):
        rec = {'property': prop, 'custom': True, 'shard': v['shard'], 'tier': tier, 'scenario': v['scenario'], 'trace': v['trace'], 'detail': v['detail'], 'steps': v.get('steps', [])}
        v['replay'] = os.path.join('replays', 'C26-%s.json' % hashlib.sha256(json.dumps(rec).encode()).hexdigest()[:10])
        os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
        json.dump(rec, open(os.path.join(V, v['replay']), 'w'), indent=1)
    tot = lambda k: sum(c[k] for c in covs)
    names = list(dict.fromkeys(s['name'] for c in covs for s in c['scenarios']))
    add = lambda n, k: sum(s[k] for c in covs for s in c['scenarios'] if s['name'] == n)
    return {'states': tot('states'), 'transitions': tot('transitions'), 'executions': tot('executions'), 'replayed_twice': tot('replayed_twice'), 'samples': [s for c in covs for s in c['samples'][:2]],
            'scenarios': [{'name': 'miri: ' + n, 'executions': add(n, 'executions'), 'distinct_states': add(n, 'distinct_states'), 'transitions': add(n, 'transitions')} for n in names],
            'assumptions': sorted({a for c in covs for a in c['assumptions']}), 'exhaustive': all(c['exhaustive'] for c in covs), 'violations': [v for c in covs for v in c['violations']], 'wall_s': time.time() - t0}

def replay(rec):
    rc, so, se = miri(['--tier', rec['tier'], '--replay', rec['scenario'], ','.join(map(str, rec['trace']))], '%d/%d' % (rec['shard'], SHARDS), 600)
    sys.stdout.write(so)
    sys.stderr.write(se[-4000:])
    return 0 if rc == 0 else 1
