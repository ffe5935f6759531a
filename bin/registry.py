"""Which harness crates and configurations decide which property."""
import itertools
from check import Build

def H(bin, *more):
    """The harness `bin` of mc/h with the standard library and any further configurations."""
    return [Build('h', bin=bin)] + [Build('h', bin=bin, **m) for m in more]
ALLOC = dict(features=['alloc'])
REL = dict(release=True)
AR = dict(features=['alloc'], release=True)
def X(*features, release=False):
    return Build('x', features=features, release=release, bin='x')
RSA = Build('rsa', bin='rsah')

# The configurations of the library: features and the build profile.
FACTORS = [('std', 'alloc', '')] + [(0, 1)] * 9
NAMES = ['hmac', 'rsa06', 'rsa09', 'eithers', 'derive', 'test', 'serde', 'js']
DEFAULT = ('std', 1, 0, 0, 0, 1, 0, 0, 0, 0)
def covering(k, rows):
    """Configurations in which any k factors take all combinations of their values."""
    at = list(itertools.combinations(range(len(FACTORS)), k))
    of = lambda r: {(c, tuple(r[i] for i in c)) for c in at}
    left = {(c, v) for c in at for v in itertools.product(*[FACTORS[i] for i in c])}
    rows = list(rows)
    for r in rows:
        left -= of(r)
    every = list(itertools.product(*FACTORS))
    while left:
        rows.append(max(every, key=lambda r: len(of(r) & left)))
        left -= of(rows[-1])
    return [X(*[f for f, on in [(r[0], r[0])] + list(zip(NAMES, r[1:])) if on], release=bool(r[-1])) for r in rows]

PROPS = {
    'C01': H('c01', AR),
    'C02': H('c01', AR),
    'C03': H('c03', AR),
    'C04': H('c03', AR),
    'C05': H('c03', AR),
    'C06': H('c03', AR),
    'C07': [RSA],
    'C08': H('c08', REL),
    'C09': H('c09', ALLOC, REL),
    'C10': H('c09', REL),
    'C11': H('c11', AR),
    'C12': H('c12', AR),
    'C15': H('c15', REL, AR),
    'C16': H('c15', REL, AR),
    'C17': H('c15', AR) + [RSA],
    'C18': [Build('s', bin='s'), Build('s', bin='s', features=['alloc'], release=True)],
    'C19': H('c19', AR),
    'C20': H('c19', AR),
    'C21': H('c12', AR),
    'C22': [Build('v', bin='v')],
    'C25': [Build('v', bin='v')],
    'C26': [Build('m', bin='m')],
    'C24': covering(2, [DEFAULT, DEFAULT[:-1] + (1,)]),
    'C23': H('c12', AR),
}
# More configurations in the thorough tier, explored like in the quick one.
MORE = {'C24': lambda: covering(3, [DEFAULT])}
import derive, miri
CUSTOM = {'C13': derive, 'C14': derive, 'C26': miri}
# Properties whose scenarios must have the same results in all configurations.
COMPARE = {'C24': {'auto-nonce'}}  # except these scenarios
# id -> (technique or '', level note or '')
NOTES = {
    'C26': ('stateless bounded-exhaustive model checking of the real code, natively and under Miri as the monitor of undefined behaviour and data races', ''),
}
