# P07: only counter configurations with disjoint bins, valid sigmas and known, matching counters are accepted
import random
from registry import unit

FL = [0.0, 1.0, 2.0, 3.0, 512.0, float('inf'), float('-inf'), -1.0]
NAMES = ['ZeroCount', 'ExitStreamCount', 'ExitStreamLifeTime', 'NoSuchCounter', 'EntryConnectionCount', 'ExitStreamByteHistogram',
         'ExitDomainExactMatchCountList', 'ExitStreamTrafficModelDelayTime_x', 'ZeroCount_x']


def bound(E, i):
    return E.mklist([E.float('lo', gen=FL), E.float('hi', gen=FL)])


def key(E):
    return E.str('name', gen=NAMES)


def maybe(mk, field):
    """A counter entry that may lack the value it needs."""
    def f(E, k):
        return mk(E, k) if E.truth(E.bool('has_' + field)) else E.mkdict([('other', 1)])
    return f


def with_sigma(E, k):
    return E.mkdict([('sigma', E.float('sigma', finite=True, gen=[0.0, 1.0, -1.0, -1e-9]))])


def with_bins(E, k):
    return E.mkdict([('bins', E.list('bins', bound, shape='bound'))])


def disjoint(E, a, b):
    (l1, u1), (l2, u2) = [(E.item(x, 0), E.item(x, 1)) for x in (a, b)]
    return E.Or(E.le(u1, l2), E.le(u2, l1))


def known_names(E, a, k):
    """check_counter_names, by its contract: False if some name is unknown."""
    return E.func('known_names', 'bool', 0)


NC = {'counter.check_counter_names': lambda E, a: E.bool('names_known', inp=False),
      'counter.check_bin_count_matches_name': lambda E, a: E.bool('counts_match', inp=False)}


@unit('P07', 'sigmas', ['counter.check_sigmas_config'], summaries=NC, expects=['non-negative', 'unknown-refused'],
      shapes={'s': (lambda E, v: E.typename(v) == 'dict' and E.has(v, 'sigma') is True, with_sigma)})
def sigmas(E):
    g = E.str('g', gen=NAMES)
    d = E.dict('sigmas', key, with_sigma, generic=[g], shape='s')
    allow = E.bool('allow')
    here = bool(E.has(d, g))
    r = E.run(E.fn('counter.check_sigmas_config'), d, allow)
    E.prove('no-error', r.ok, r.where)
    if not r.ok:
        return
    if E.truth(r.value):
        if here:
            E.prove('non-negative', E.ge(E.item(E.item(d, g), 'sigma'), 0))
        if not E.truth(allow):
            E.prove('unknown-refused', names_ok(E, d))
    if E.concrete:
        E.prove('accepted-iff-valid', bool(r.value) == (all(v['sigma'] >= 0 for v in d.values()) and
                                                       (bool(allow) or names_ok(E, d))))


def names_ok(E, d):
    if E.concrete:
        return all(k in E.fn('counter.get_valid_counters')() for k in d)
    return E.gget('names') if E.gget('names') is not None else True


def valid_counters(E, a):
    """get_valid_counters: some collection of names (the event table is data)."""
    return E.gget('valid')


@unit('P07', 'names', ['counter.check_counter_names'], expects=['known'],
      summaries={'counter.get_valid_counters': valid_counters})
def names(E):
    g = E.str('g', gen=NAMES)
    d = E.dict('counters', key, with_sigma, generic=[g])
    here = bool(E.has(d, g))
    if E.concrete:
        valid = E.fn('counter.get_valid_counters')()
    else:
        valid = E.dict('valid', key, lambda E, k: 1, generic=[g])
    E.gset('valid', valid)
    known = (g in valid) if E.concrete else bool(E.has(valid, g))
    r = E.run(E.fn('counter.check_counter_names'), d)
    E.prove('no-error', r.ok, r.where)
    if r.ok and E.truth(r.value) and here:
        E.prove('known', known)
    if E.concrete:
        E.prove('accepted-iff-known', bool(r.value) == names_ok(E, d))


def single(name):
    t = name.partition('_')[0]
    return t.endswith('Count') or t.endswith('DelayTime')


@unit('P07', 'bin_count', ['counter.check_bin_count_matches_name'], expects=['count-single', 'others-multiple'],
      shapes={'b': (lambda E, v: E.typename(v) == 'dict' and E.has(v, 'bins') is True, with_bins)})
def bin_count(E):
    g = E.pick('g', ['ZeroCount', 'ExitStreamLifeTime', 'A_Count', 'ExitStreamTrafficModelDelayTime_x'])
    d = E.dict('counters', key, with_bins, generic=[g], shape='b')
    here = bool(E.has(d, g))
    n = E.len(E.item(E.item(d, g), 'bins')) if here else 0
    r = E.run(E.fn('counter.check_bin_count_matches_name'), d)
    E.prove('no-error', r.ok, r.where)
    if r.ok and here and E.truth(r.value):
        if single(g):
            E.prove('count-single', E.eq(n, 1))
        else:
            E.prove('others-multiple', E.gt(n, 1))
    if E.concrete:
        E.prove('accepted-iff-matching', bool(r.value) == all((len(v['bins']) == 1) == single(k) and v['bins']
                                                             for k, v in d.items()))


@unit('P07', 'bins', ['counter.check_bins_config'], summaries=NC, expects=['not-empty', 'disjoint', 'accepted'],
      bounded='one counter with at most 3 bins (any bounds); runtime: any number')
def bins(E):
    if E.concrete:
        n = E.rng.choice([1, 2, 3, 3, 4, 6])
        if E.rng.random() < 0.6:
            cuts = sorted(set(E.rng.choice(FL + [4.0, 5.0, 6.0, 7.0, 8.0]) for _ in range(n + 1)))
            bs = [[a, b] for a, b in zip(cuts, cuts[1:])]
            E.rng.shuffle(bs)
            if E.rng.random() < 0.4 and bs:
                x = E.rng.choice(bs)
                x[E.rng.choice([0, 1])] = E.rng.choice(FL)
            bs = E.draw('bins', lambda: bs, lambda v: v)
            if isinstance(bs, dict):
                return
        else:
            bs = E.list('bins', bound, lo=1, n=n)
    else:
        n = E.pick('n', [1, 2, 3])
        bs = E.list('bins', bound, n=n)
    for b in list(bs) if E.concrete else []:
        E.assume(b[0] == b[0] and b[1] == b[1])
    n = len(bs) if E.concrete else n
    for i in range(n):
        E.assume(E.And(E.eq(E.item(E.item(bs, i), 0), E.item(E.item(bs, i), 0)),
                       E.eq(E.item(E.item(bs, i), 1), E.item(E.item(bs, i), 1))))
    orig = E.copy(bs)
    r = E.run(E.fn('counter.check_bins_config'), E.mkdict([('AnyName', E.mkdict([('bins', bs)]))]), True)
    E.prove('no-error', r.ok, r.where)
    if not r.ok:
        return
    each = [E.lt(E.item(E.item(orig, i), 0), E.item(E.item(orig, i), 1)) for i in range(n)]
    pair = [disjoint(E, E.item(orig, i), E.item(orig, j)) for i in range(n) for j in range(i)]
    if E.truth(r.value):
        E.prove('not-empty', E.And(*each))
        E.prove('disjoint', E.And(*pair) if pair else True)
    else:
        E.prove('accepted', E.Not(E.And(*(each + pair))))


@unit('P07', 'same_counters', ['counter.check_combined_counters', 'counter.combine_counters'],
      expects=['same-set'], shapes={'b': (lambda E, v: E.typename(v) == 'dict' and E.has(v, 'bins') is True, with_bins),
                                    's': (lambda E, v: E.typename(v) == 'dict' and E.has(v, 'sigma') is True, with_sigma)})
def same_counters(E):
    g = E.str('g', gen=['A', 'B'])
    E.gset('g', g)
    ab = lambda E: E.str('name', gen=['A', 'B', 'Cc'])
    bins = E.dict('bins', ab, maybe(with_bins, 'bins'), generic=[g])
    sig = E.dict('sigmas', ab, maybe(with_sigma, 'sigma'), generic=[g])
    hb, hs = bool(E.has(bins, g)), bool(E.has(sig, g))
    ok = (not hb and not hs) or (hb and hs and E.has(E.item(bins, g), 'bins') is True and
                                 E.has(E.item(sig, g), 'sigma') is True)
    r = E.run(E.fn('counter.check_combined_counters'), bins, sig)
    E.prove('no-error', r.ok, (r.where, r.exc))
    if not r.ok:
        return
    if E.truth(r.value):
        E.prove('same-set', ok)
    if E.concrete:
        E.prove('accepted-iff-same', bool(r.value) == (set(bins) == set(sig) and all('bins' in v for v in bins.values()) and
                                                      all('sigma' in v for v in sig.values())))


def verdict(name, i):
    """The answer of a check of bins or sigmas: about these bins and sigmas, and about nothing else."""
    def check(E, a):
        given = E.gget('given')
        about = [[given[0], given[2]], [given[1], given[2]], [given[0], given[1]]][i]
        if all(E.truth(E.eq(x, y)) for x, y in zip(a, about)):
            return E.func(name, 'bool', 0)
        return E.bool('other', inp=False)
    return check


CHECKS = ['counter.check_bins_config', 'counter.check_sigmas_config', 'counter.check_combined_counters']


@unit('P07', 'all', ['counter.check_counters_config'], summaries=dict((n, verdict(n, i)) for i, n in enumerate(CHECKS)),
      expects=['all-three'])
def everything(E):
    if E.concrete:
        rng = random.Random(E.int('seed', 0, 10 ** 9))
        pool = ['ZeroCount', 'EntryConnectionCount', 'ExitStreamCount', 'ExitStreamByteHistogram']
        names = rng.sample(pool, rng.randint(1, 3))
        bins = dict((n, {'bins': [[0.0, float('inf')]] if n.endswith('Count') else [[0.0, 1.0], [1.0, 2.0]]}) for n in names)
        sigmas = dict((n, {'sigma': rng.choice([0.0, 1.0, 2.5])}) for n in names)
        trouble = rng.choice(['', '', 'extra sigma', 'extra bins', 'empty sigma', 'empty bins', 'negative', 'overlap', 'unknown', 'no sigmas', 'no bins'])
        n = rng.choice(names)
        other = rng.choice([x for x in pool if x not in names])
        if trouble == 'extra sigma':
            sigmas[other] = {'sigma': 1.0}
        elif trouble == 'extra bins':
            bins[other] = {'bins': [[0.0, float('inf')]]}
        elif trouble == 'empty sigma':
            sigmas[n] = {}
        elif trouble == 'empty bins':
            bins[n] = {}
        elif trouble == 'negative':
            sigmas[n] = {'sigma': -1.0}
        elif trouble == 'overlap':
            bins['ExitStreamByteHistogram'] = {'bins': [[0.0, 2.0], [1.0, 3.0]]}
            sigmas['ExitStreamByteHistogram'] = {'sigma': 1.0}
        elif trouble == 'unknown':
            bins['NoSuchCount'], sigmas['NoSuchCount'] = {'bins': [[0.0, float('inf')]]}, {'sigma': 1.0}
        elif trouble == 'no sigmas':
            sigmas = {}
        elif trouble == 'no bins':
            bins = {}
        allow = rng.choice([True, False])
        r = E.run(E.fn('counter.check_counters_config'), E.copy(bins), E.copy(sigmas), allow)
        ok = not trouble or (trouble == 'unknown' and allow)
        E.prove('all-three', bool(r.ok and r.value) == ok, (trouble, allow, r.ok and r.value, r.exc))
        return
    one = lambda k, v: E.mkdict([(k, v)])
    bins = E.mkdict([(n, one('bins', 'bins of ' + n)) for n in ('A', 'B')])
    sigmas = E.mkdict([(n, one('sigma', E.float('sigma', 0, 10))) for n in ('A', 'B', 'C')])
    allow = E.bool('allow')
    E.gset('given', [bins, sigmas, allow])
    r = E.run(E.fn('counter.check_counters_config'), bins, sigmas, allow)
    E.prove('all-three', r.ok and E.Iff(r.value, E.And(*[E.func(n, 'bool', 0) for n in CHECKS])))
