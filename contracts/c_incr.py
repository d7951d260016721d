# P06: an increment changes exactly the bins whose half-open interval contains the value
from registry import unit
import lib_counters as L
from c_tally import start, RSHAPES

SC = 'counter.SecureCounters.'
INF = float('inf')
VALS = [0.0, 0.5, 1.0, 2.0, 511.0, 512.0, 513.0, 1e9, INF, -INF, -1.0]


def inside(E, lo, hi, v):
    return E.And(E.ge(v, lo), E.Or(E.lt(v, hi), E.eq(hi, INF)))


@unit('P06', 'interval', [SC + 'is_in_bin'], expects=['half-open'])
def interval(E):
    lo, hi, v = E.float('lo', gen=VALS), E.float('hi', gen=VALS), E.float('v', gen=VALS)
    r = E.run(E.fn(SC + 'is_in_bin'), lo, hi, v)
    E.prove('no-error', r.ok, r.where)
    if r.ok:
        E.prove('half-open', E.Iff(r.value, inside(E, lo, hi, v)))


@unit('P06', 'one_bin', [SC + 'is_in_bin'], expects=['at-most-one'])
def one_bin(E):
    """Bins that do not overlap (the configuration check) never both count a value."""
    l1, u1, l2, u2 = [E.float(n, gen=VALS) for n in ('l1', 'u1', 'l2', 'u2')]
    if E.concrete:
        l1, u1, l2, u2 = sorted([l1, u1, l2, u2])
    v = E.float('v', gen=VALS)
    E.assume(E.And(E.lt(l1, u1), E.lt(l2, u2), E.le(u1, l2)))
    f = E.fn(SC + 'is_in_bin')
    a, b = E.run(f, l1, u1, v), E.run(f, l2, u2, v)
    E.prove('at-most-one', a.ok and b.ok and E.Not(E.And(a.value, b.value)))


@unit('P06', 'no_gap', [SC + 'is_in_bin'], expects=['exactly-one'])
def no_gap(E):
    """Adjacent bins: every value of the union is in exactly one of them."""
    lo, mid, hi = [E.float(n, gen=VALS) for n in ('lo', 'mid', 'hi')]
    v = E.float('v', gen=VALS)
    E.assume(E.And(E.lt(lo, mid), E.lt(mid, hi)))
    f = E.fn(SC + 'is_in_bin')
    a, b, c = E.run(f, lo, mid, v), E.run(f, mid, hi, v), E.run(f, lo, hi, v)
    E.prove('exactly-one', a.ok and b.ok and c.ok and E.And(E.Iff(c.value, E.Or(a.value, b.value)),
                                                          E.Not(E.And(a.value, b.value))))


@unit('P06', 'increment', [SC + 'increment', SC + 'is_single_bin_value'], shapes=RSHAPES,
      expects=['counted', 'others-unchanged', 'range', 'multi-bin-needs-value'])
def increment(E):
    cfg, g, i, m, s = start(E, [2 ** 70])
    a = E.int('before', 0, m - 1)
    bins = E.item(E.item(E.attr(s, 'counters'), g), 'bins')
    b = E.item(bins, i)
    E.put(b, 2, a)
    lo, hi = E.item(b, 0), E.item(b, 1)
    if E.concrete:
        before = E.copy(E.attr(s, 'counters'))
    name = E.str('name', gen=['A', 'B', 'Cc'])
    single = E.bool('single')
    v = E.attr(E.fn('counter.SecureCounters'), 'SINGLE_BIN') if E.truth(single) else E.float('value', gen=VALS)
    inc = E.int('inc')
    r = E.m(s, 'increment', name, v, inc)
    c = E.item(E.item(E.item(E.item(E.attr(s, 'counters'), g), 'bins'), i), 2)
    one = E.eq(E.len(bins), 1)
    mine = E.eq(name, g)
    if not r.ok:
        # only a value for a single-bin counter, or a missing value for a histogram, is refused
        E.prove('unchanged-on-error', E.eq(c, a))
        if E.concrete:
            E.prove('refusal-justified', name in before and (len(before[name]['bins']) == 1) != (v != v))
        return
    nanv = single if E.truth(single) else E.ne(v, v)
    E.prove('multi-bin-needs-value', E.Implies(mine, E.Iff(one, nanv)))
    eff = E.ite(one, 1.0, v)
    want = E.ite(E.And(mine, inside(E, lo, hi, eff)), E.mod(E.add(a, inc), m), a)
    E.prove('counted', E.Implies(mine, E.eq(c, want)))
    E.prove('others-unchanged', E.Implies(E.Not(mine), E.eq(c, a)))
    E.prove('range', E.And(E.le(0, c), E.lt(c, m)))
    if E.concrete:
        for k in before:
            for j, x in enumerate(before[k]['bins']):
                e = 1.0 if len(before[k]['bins']) == 1 else v
                w = (x[2] + inc) % m if k == name and x[0] <= e and (e < x[1] or x[1] == INF) else x[2]
                E.prove('exact-bins', s.counters[k]['bins'][j] == [x[0], x[1], w])


@unit('P06', 'fractional', [SC + 'increment'], expects=['refused'], shapes=RSHAPES)
def fractional(E):
    """A fractional increment is refused, not silently truncated."""
    cfg, g, i, m, s = start(E, [2 ** 70])
    inc = E.float('inc', lo=-1000, hi=1000, gen=[0.5, 1.5, -0.25])
    n = E.int('n', -1001, 1001, gen=[int(inc) if inc > 0 else int(inc) - 1] if E.concrete else None)
    E.assume(E.And(E.lt(n, inc), E.lt(inc, E.add(n, 1))))
    a = L.count(E, E.attr(s, 'counters'), g, i)
    r = E.m(s, 'increment', g, E.float('value', gen=VALS), inc)
    E.prove('refused', E.And(E.Not(r.ok), E.eq(L.count(E, E.attr(s, 'counters'), g, i), a)))
