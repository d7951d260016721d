# P03: signed reinterpretation of a blinded total
from registry import unit


@unit('P03', 'adjust_signed', ['counter.adjust_count_signed'], expects=['congruent', 'range', 'inverse'])
def adjust_signed(E):
    m = E.int('modulus', 1)
    c = E.int('count', 0)
    E.assume(E.lt(c, m))
    r = E.run(E.fn('counter.adjust_count_signed'), c, m)
    E.prove('accepts', r.ok, r.where)
    if not r.ok:
        return
    v = r.value
    # congruent to the count, and in the symmetric range: this determines the value uniquely
    E.prove('congruent', E.Or(E.eq(v, c), E.eq(v, E.sub(c, m))))
    lo, hi = E.sub(0, E.div(m, 2)), E.div(E.sub(m, 1), 2)
    E.prove('range', E.And(E.le(lo, v), E.le(v, hi)))
    E.prove('inverse', E.eq(E.mod(v, m), c))


@unit('P03', 'adjust_roundtrip', ['counter.adjust_count_signed'], expects=['identity'])
def adjust_roundtrip(E):
    m = E.int('modulus', 1)
    x = E.int('x')
    E.assume(E.And(E.le(E.sub(0, E.div(m, 2)), x), E.le(x, E.div(E.sub(m, 1), 2))))
    r = E.run(E.fn('counter.adjust_count_signed'), E.mod(x, m), m)
    E.prove('identity', E.And(r.ok, r.ok and E.eq(r.value, x)))


@unit('P03', 'adjust_rejects', ['counter.adjust_count_signed'], expects=['rejects'])
def adjust_rejects(E):
    m = E.int('modulus', 1)
    c = E.int('count')
    E.assume(E.ge(c, m))
    r = E.run(E.fn('counter.adjust_count_signed'), c, m)
    E.prove('rejects', E.And(E.Not(r.ok), r.exc == 'AssertionError'))


@unit('P03', 'limits', ['counter.counter_modulus', 'counter.min_blinded_counter_value',
                        'counter.max_blinded_counter_value', 'counter.min_tally_counter_value',
                        'counter.max_tally_counter_value', 'counter.add_counter_limits_to_config'],
      expects=['modulus', 'limits', 'config'], cases=2)
def limits(E):
    m = E.run(E.fn('counter.counter_modulus')).value
    E.prove('modulus', E.gt(m, 2 ** 64))
    lo = E.run(E.fn('counter.min_tally_counter_value')).value
    hi = E.run(E.fn('counter.max_tally_counter_value')).value
    b0 = E.run(E.fn('counter.min_blinded_counter_value')).value
    b1 = E.run(E.fn('counter.max_blinded_counter_value')).value
    E.prove('limits', E.And(E.eq(lo, -(m // 2)), E.eq(hi, (m - 1) // 2), E.eq(b0, 0), E.eq(b1, m - 1)))
    cfg = E.mkdict([('x', 1)])
    r = E.run(E.fn('counter.add_counter_limits_to_config'), cfg)
    E.prove('config', E.And(r.ok, E.eq(E.item(r.value, 'modulus'), m), E.eq(E.item(r.value, 'x'), 1),
                            E.eq(E.item(r.value, 'min_blinded_counter_value'), b0),
                            E.eq(E.item(r.value, 'max_blinded_counter_value'), b1),
                            E.eq(E.item(r.value, 'min_tally_counter_value'), lo),
                            E.eq(E.item(r.value, 'max_tally_counter_value'), hi),
                            E.Not(E.has(cfg, 'modulus'))))
