"""C13 and C14: the derive macro, on every definition that derive_gen enumerates."""
import concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, time
import derive_gen as g
from check import V, WORK, NoVerdict, Build, execute, run
CRATE = os.path.join(V, 'mc', 'd')
PARTS = 8

def rs(s):
    h = '#' * 3
    return 'r%s"%s"%s' % (h, s, h)
def lit(s):
    return json.dumps(s, ensure_ascii=False).replace('\\b', '\\x08').replace('\\f', '\\x0c')

def definition(d):
    """The module of a definition, with a function that builds a value and serializes it."""
    inst = d.inst or [('u32' if not x.startswith("'") else "'_") for x in d.generics if not x.startswith("'")]
    inst = ["'_" for x in d.generics if x.startswith("'")] + [x for x in inst if not x.startswith("'")]
    ty = 'S' if d.wrap else d.name
    fields = ', '.join('%s: match v[%d] { %s _ => %s }' % (f.ident, i, ' '.join('%d => %s,' % (k, e) for k, (e, _) in enumerate(f.ty.vals[:-1])), f.ty.vals[-1][0]) for i, f in enumerate(d.fields))
    body = d.src() + '\n' + 'pub fn run(v: &[usize]) -> (Vec<super::Op>, std::option::Option<String>) { let x: %s%s = %s { %s }; super::outputs(&x) }' % (ty, '<%s>' % ', '.join(inst) if inst else '', ty, fields)
    return g.PRELUDE + 'use oauth1_request as oauth;\n' + body

def spec(d, i):
    fs = ', '.join('Fs { name: %s, enc: %s, dom: &[%s] }' % (lit(f.name()), str(f.enc).lower(), ', '.join('None' if t is None else 'Some(%s)' % lit(t) for t in (f.text(v) for _, v in f.ty.vals))) for f in d.fields)
    return 'Spec { src: %s, fields: &[%s], run: m%d::run },' % (rs(d.src()), fs, i)

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, 'w').write(text)

def cargo(args, gen, target, crate=CRATE):
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings --diagnostic-width=200', CARGO_INCREMENTAL='0', MC_GEN=gen, RUST_BACKTRACE='0')
    return subprocess.run(['cargo'] + args, cwd=crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')

def owner(span, path):
    """The line in our file that a span, seen through macro expansions, belongs to."""
    while span:
        if os.path.realpath(os.path.join(CRATE, span['file_name'])) == os.path.realpath(path):
            return span['line_start']
        span = (span.get('expansion') or {}).get('span')
    return None

# Where definitions are compiled: crate, target, and how their text has to be adapted.
same = lambda s: s
VARIANTS = {
    '': ('d', ['--bin', 'verdict'], same),
    'renamed': ('dr', ['--bin', 'verdict'], lambda s: s.replace('oauth1_request', 'renamed_oauth')),
    'e2015': ('de', ['--bin', 'e2015'], same), 'e2018': ('de', ['--bin', 'e2018'], same), 'e2024': ('de', ['--bin', 'e2024'], same),
    'nostd': ('dn', ['--lib'], lambda s: re.sub(r'\bstd::', 'core::', s)),
}
def diagnose(defs, name, target, variant=''):
    """Compiles all definitions in one crate; returns {index: [messages]} and errors not attributable."""
    gen = os.path.join(WORK, 'gen', name)
    path = os.path.join(gen, 'defs.rs')
    crate, select, adapt = VARIANTS[variant]
    head = g.PRELUDE.replace('\n', ' ') + 'use oauth1_request as oauth;'
    if variant == 'nostd':
        head = head.replace('std::borrow', 'alloc::borrow').replace('std::', 'core::') + ' use alloc::string::{String, ToString}; use alloc::boxed::Box;'
    sup = g.SUPPORT.replace('std::', 'core::') if variant == 'nostd' else g.SUPPORT
    lines, starts = ['extern crate oauth1_request;'] * (variant == 'e2015') + ['pub mod sup {'] + sup.split('\n') + ['}'], []
    for i, src in enumerate(defs):
        starts.append(len(lines) + 1)
        lines += ('pub mod m%d { %s %s }' % (i, adapt(head), adapt(src))).split('\n')
    starts.append(len(lines) + 1)
    write(path, '\n'.join(lines) + '\n')
    p = cargo(['check', '--offline', '-q'] + select + ['--message-format=json'], path, target, os.path.join(V, 'mc', crate))
    import bisect
    found, loose, seen = {}, [], False
    for l in p.stdout.split('\n'):
        if not l.startswith('{'):
            continue
        m = json.loads(l)
        if m.get('reason') == 'build-finished':
            seen = True
        if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error':
            continue
        m = m['message']
        spans = [s for s in m['spans'] if s['is_primary']]
        at = [x for x in (owner(s, path) for s in spans) if x]
        if at:
            i = bisect.bisect_right(starts, at[0]) - 1
            if 0 <= i < len(defs):
                found.setdefault(i, []).append(m['message'])
                continue
        if not m['message'].startswith(('aborting due to', 'could not compile')):
            loose.append(m['message'])
    if not seen:
        sys.stderr.write(p.stderr[-3000:])
        raise NoVerdict('compiling the definitions of %s gave no result' % name)
    return found, loose, path

def alone(src, target, variant=''):
    found, loose, _ = diagnose([src], 'alone', target, variant)
    return found.get(0, []), loose

def phase(name, defs, tier):
    """Checks the verdict on every definition; returns (violations, statistics)."""
    target = os.path.join(WORK, 'target-d-' + name)
    variant = name if name in VARIANTS else ''
    found, loose, _ = diagnose([s for s, _ in defs], name, target, variant)
    bad = []
    if loose:
        # A macro that fails as a whole (or a panic without a place) is looked for among the definitions.
        sys.stderr.write('%s: unattributed: %s\n' % (name, loose[:3]))
    for i, (src, ok) in enumerate(defs):
        if ok != (i not in found):
            errs, other = alone(src, target, variant)
            if ok and (errs or other):
                bad.append((src, ok, variant, 'a valid definition is rejected%s (%s): %s' % (variant and ' [%s]' % variant, '; '.join(errs + other)[:300], src)))
            elif not ok and not errs:
                bad.append((src, ok, variant, ('an invalid definition is rejected without an error at it: ' if other else 'an invalid definition is accepted: ') + src))
            if len(bad) >= 3:
                break
    return bad, len(defs)

def split(defs):
    return [[d for d, ok in defs if ok], [d for d, ok in defs if not ok]]

def c14(tier):
    t0 = time.time()
    macro = list(dict.fromkeys(g.macro_level(tier)))
    typed = list(dict.fromkeys(g.type_level(tier)))
    good = [(d.src(), True) for d in g.accepted(tier)]
    # Errors of one stage of the compiler hide those of later stages, so each stage has its own crate.
    ok_macro = [x for x in macro if x[1]] + [x for x in typed if x[1]]
    phases = [('macro', [x for x in macro if not x[1]]), ('valid', ok_macro), ('valid2', good), ('types', [x for x in typed if not x[1]]), ('resolve', g.RESOLVE), ('renamed', good[-260:])]
    # Everything but what the edition itself has no (`::core`, crate-relative uses), in every edition and without the standard library.
    step = 1 if tier == 'thorough' else 4
    for k, name in enumerate(['e2018', 'e2024', 'nostd', 'e2015']):
        phases.append((name, [(s, ok) for i, (s, ok) in enumerate(good) if (i >= len(good) - 260 or i % step == k % step) and not (name == 'e2015' and re.search(r' ::core|crate =|use ::', s))]))
    bad, n, rej, scen = [], 0, 0, []
    with cf.ThreadPoolExecutor(8) as ex:
        for (name, defs), (b, k) in zip(phases, ex.map(lambda p: phase(p[0], p[1], tier), phases)):
            bad += b
            n += k
            rej += sum(not ok for _, ok in defs)
            scen.append({'name': name, 'executions': k, 'states': len(set(defs)), 'transitions': k})
    viols = []
    for src, ok, variant, detail in bad[:3]:
        rec = {'property': 'C14', 'custom': True, 'source': src, 'accept': ok, 'variant': variant, 'detail': detail}
        path = os.path.join('replays', 'C14-%s.json' % hashlib.sha256(src.encode()).hexdigest()[:10])
        write(os.path.join(V, path), json.dumps(rec, indent=1))
        viols.append({'detail': detail, 'replay': path})
    return {'states': n, 'transitions': n, 'executions': n, 'replayed_twice': len(bad), 'samples': ['%s => %s' % (s, 'accept' if ok else 'reject') for _, ds in phases for s, ok in ds[::max(1, len(ds) // 3)]][:12],
            'scenarios': scen, 'assumptions': ['%d definitions had to be rejected, %d accepted' % (rej, n - rej), 'the verdict is that of the installed rustc; `option`, `fmt` and `skip_if` on a skipped field are not judged'],
            'exhaustive': True, 'violations': viols, 'wall_s': time.time() - t0}

def c13(tier, cap):
    """Builds the generated definitions; leaves out those the compiler rejects (C14 reports them)."""
    defs = g.accepted(tier)
    gen = os.path.join(WORK, 'gen', 'c13')
    parts = [defs[i::PARTS] for i in range(PARTS)]
    write(os.path.join(gen, 'sup.rs'), g.SUPPORT)
    def build(k):
        keep = list(enumerate(parts[k]))
        target = os.path.join(WORK, 'target-d-p%d' % k)
        path = os.path.join(gen, 'p%d.rs' % k)
        for attempt in range(4):
            lines, starts = [], []
            for i, d in keep:
                starts.append(len(lines) + 1)
                lines += ('#[allow(warnings)] mod m%d { %s }' % (i, definition(d))).split('\n')
            starts.append(len(lines) + 1)
            lines += ['static SPECS: &[Spec] = &[', *[spec(d, i) for i, d in keep], '];']
            write(path, '\n'.join(lines) + '\n')
            p = cargo(['build', '--offline', '-q', '--bin', 'p%d' % k, '--message-format=json'], gen, target)
            if p.returncode == 0:
                return os.path.join(target, 'debug', 'p%d' % k), len(parts[k]) - len(keep)
            import bisect
            drop = set()
            for l in p.stdout.split('\n'):
                if l.startswith('{'):
                    m = json.loads(l)
                    if m.get('reason') == 'compiler-message' and m['message']['level'] == 'error':
                        for s in m['message']['spans']:
                            x = owner(s, path)
                            if x:
                                i = bisect.bisect_right(starts, x) - 1
                                if 0 <= i < len(keep):
                                    drop.add(i)
            if not drop:
                sys.stderr.write(p.stderr[-3000:] + p.stdout[-3000:])
                raise NoVerdict('the generated definitions do not build')
            sys.stderr.write('left out (see C14): %s\n' % [keep[i][1].src()[:200] for i in sorted(drop)[:3]])
            keep = [x for i, x in enumerate(keep) if i not in drop]
        raise NoVerdict('the generated definitions do not build')
    covs, left = [], 0
    with cf.ThreadPoolExecutor(PARTS) as ex:
        exes = list(ex.map(build, range(PARTS)))
    for k, (exe, out) in enumerate(exes):
        left += out
        b = Build('d', bin='p%d' % k)
        c = execute('C13', b, exe, tier, cap, tag='-p%d' % k)
        for v in c['violations']:
            m = re.search(r' of (.*)', v['detail'], re.S)
            rec = {'property': 'C13', 'custom': True, 'tier': tier, 'part': k, 'scenario': v['scenario'], 'trace': v['trace'], 'detail': v['detail'], 'steps': v.get('steps', [])}
            path = os.path.join('replays', 'C13-%s.json' % hashlib.sha256(json.dumps(rec).encode()).hexdigest()[:10])
            write(os.path.join(V, path), json.dumps(rec, indent=1))
            v['replay'] = path
        covs.append(c)
    tot = lambda k: sum(c[k] for c in covs)
    if left == len(defs):
        raise NoVerdict('no definition is accepted')
    return {'states': tot('states'), 'transitions': tot('transitions'), 'executions': tot('executions'), 'replayed_twice': tot('replayed_twice'),
            'samples': [s for c in covs for s in c['samples'][:3]], 'scenarios': [s for c in covs for s in c['scenarios']],
            'assumptions': sorted({a for c in covs for a in c['assumptions']}) + ['%d definitions, %d left out because they were rejected' % (len(defs), left)],
            'exhaustive': all(c['exhaustive'] for c in covs), 'violations': [v for c in covs for v in c['violations']], 'build': build}

def check(prop, tier, cap):
    return c14(tier) if prop == 'C14' else c13(tier, cap)

def replay(rec):
    if rec['property'] == 'C14':
        errs, loose = alone(rec['source'], os.path.join(WORK, 'target-d-alone'), rec.get('variant', ''))
        print(rec['source'])
        print('expected: %s; errors at it: %s; elsewhere: %s' % ('accepted' if rec['accept'] else 'rejected', errs, loose))
        return 0 if (not errs and not loose if rec['accept'] else bool(errs)) else 1
    exe, _ = c13(rec['tier'], 60)['build'](rec['part'])
    rc, so, se = run(exe, ['C13', '--tier', rec['tier'], '--replay', rec['scenario'], ','.join(map(str, rec['trace']))], 600)
    sys.stdout.write(so)
    return 0 if rc == 0 else 1
