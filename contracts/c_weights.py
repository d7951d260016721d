# P09: noise weights and thresholds cannot be configured outside their safe range
from registry import unit

FP = ['*', 'A', 'B', 'F' * 40]
MAXC = 10 ** 6


def max_count(E):
    return E.run(E.fn('counter.max_tally_counter_value')).value


@unit('P09', 'threshold', ['counter.check_dc_threshold'], expects=['range'])
def threshold(E):
    t = E.int('t', gen=[0, 1, -1, MAXC, MAXC + 1, MAXC - 1])
    r = E.run(E.fn('counter.check_dc_threshold'), t)
    E.prove('no-error', r.ok, r.where)
    if r.ok:
        E.prove('range', E.Iff(r.value, E.And(E.le(1, t), E.le(t, MAXC))))


@unit('P09', 'weight', ['counter.check_noise_weight_value', 'counter.check_noise_weight_sum'], expects=['range', 'sum-range'])
def weight(E):
    m = max_count(E)
    w = E.float('w', finite=True, gen=[0.0, 1.0, -1e-9, 2.0 ** 63, 2.0 ** 70, 1e30]) if E.truth(E.bool('isfloat')) \
        else E.int('wi', gen=[0, m, m + 1, -1])
    good = E.And(E.le(0, w), E.le(w, m))
    r = E.run(E.fn('counter.check_noise_weight_value'), w)
    E.prove('no-error', r.ok, r.where)
    if r.ok:
        E.prove('range', E.Iff(r.value, good))
    r = E.run(E.fn('counter.check_noise_weight_sum'), w)
    if r.ok:
        E.prove('sum-range', E.Iff(r.value, good))


def key(E):
    return E.str('fp', gen=FP)


def val(E, k):
    return E.float('weight', finite=True, gen=[0.0, 1.0, 2.0, 10.0, -1.0, 2.0 ** 69, 2.0 ** 70])


def pos(E, k):
    return E.float('weight', lo=0, finite=True, gen=[0.0, 1.0, 2.0, 10.0])


def is_float(E, v):
    return E.typename(v) == 'float'


@unit('P09', 'lookup', ['counter.get_noise_weight', 'counter.has_noise_weight', 'counter.get_noise_weight_default',
                        'counter.has_noise_weight_default'], expects=['own', 'default', 'none', 'has'])
def lookup(E):
    fp = E.str('g', gen=FP)
    none = E.truth(E.bool('nofp'))
    d = E.dict('weights', key, val, generic=[fp, '*'])
    own = bool(E.has(d, fp))
    dflt = bool(E.has(d, '*'))
    a = None if none else fp
    r = E.run(E.fn('counter.get_noise_weight'), d, a)
    h = E.run(E.fn('counter.has_noise_weight'), d, a)
    E.prove('no-error', r.ok and h.ok, r.where)
    if not (r.ok and h.ok):
        return
    if own and not none:
        E.prove('own', E.And(E.Not(E.is_none(r.value)), E.eq(r.value, E.item(d, fp))))
    elif dflt:
        E.prove('default', E.And(E.Not(E.is_none(r.value)), E.eq(r.value, E.item(d, '*'))))
    else:
        E.prove('none', E.is_none(r.value))
    E.prove('has', E.Iff(h.value, (own and not none) or dflt))


def total(E, a, k):
    """sum(): some number; the obligations refer to it through ghost state."""
    s = E.float('sum', finite=True, inp=False)
    E.gset('sum', s)
    return s


@unit('P09', 'config', ['counter.check_noise_weight_config'], shapes={'w': (is_float, val)},
      expects=['threshold', 'enough-or-default', 'weight-range'],
      summaries={'builtin.sum': lambda E, a: total(E, a, None)})
def config(E):
    g = E.str('g', gen=FP)
    d = E.dict('weights', key, val if E.truth(E.bool('any')) else pos, generic=[g, '*'], shape='w')
    own, dflt = bool(E.has(d, g)), bool(E.has(d, '*'))
    t = E.int('t', gen=[0, 1, 2, 3, MAXC, MAXC + 1])
    n = E.len(d)
    r = E.run(E.fn('counter.check_noise_weight_config'), d, t)
    E.prove('no-error', r.ok, r.where)
    if not r.ok:
        return
    if not E.concrete:
        if not E.truth(r.value):
            return
        m = max_count(E)
        E.prove('threshold', E.And(E.le(1, t), E.le(t, MAXC)))
        E.prove('enough-or-default', E.Or(dflt, E.ge(n, t)))
        if own:
            w = E.item(d, g)
            E.prove('weight-range', E.And(E.le(0, w), E.le(w, m)))
        s = E.gget('sum')
        if s is not None:
            if dflt:
                w = E.item(d, '*')
                s = E.add(E.sub(s, w), E.mul(t, w))
            E.prove('sum-range', E.le(s, m))
    else:
        from fractions import Fraction as F
        m = max_count(E)
        good = 1 <= t <= MAXC and (len(d) >= t or '*' in d) and all(0 <= w <= m for w in d.values())
        if good:
            s = sum(F(w) for w in d.values()) + (F(d['*']) * (t - 1) if '*' in d else 0)
            if abs(s - m) < m // 1000000:
                return
            good = 0 <= s <= m
        E.prove('accepted-iff-safe', bool(r.value) == good)
