# P04: blinding values are sampled uniformly from the whole range, from the system CSPRNG
from registry import unit

MODULI = [1, 2, 3, 4, 5, 7, 8, 9, 2 ** 31, 2 ** 64, 2 ** 64 + 1, 2 ** 70, 2 ** 70 - 1]


def pow2(E, n):
    return 2 ** n if isinstance(n, int) or E.concrete else E.func('pow2', 'int', n)


def getrandbits(E, a, k):
    """The CSPRNG's contract: n independent uniform bits."""
    n = a[0]
    prev = E.gget('draw')
    if prev is not None and E.gget('m') is not None:
        # rejection sampling: only out-of-range draws may be discarded
        E.prove('no-draw-discarded', E.Not(E.And(E.le(0, prev), E.lt(prev, E.gget('m')))))
    if E.concrete:
        v = E.draw('draw', lambda: E.rng.getrandbits(n) if n > 0 else 0, int)
        E.assume(0 <= v < 2 ** n)
    else:
        v = E.int('draw', 0)
        E.assume(E.lt(v, pow2(E, n)))
    E.gset('draw', v)
    E.gset('bits', n)
    return v


def system_random(E, a, k):
    return E.stub('SystemRandom', getrandbits=getrandbits)


def sampled(E, fr):
    d = E.gget('draw')
    if d is None or E.gget('m') is None:
        return None
    return E.Not(E.And(E.le(0, d), E.lt(d, E.gget('m'))))


@unit('P04', 'sample', ['counter.sample'], loop_hints={'*': [sampled]}, contracts={'random.SystemRandom': system_random},
      expects=['is-last-draw', 'in-range', 'all-values-possible', 'no-draw-discarded'])
def sample(E):
    m = E.int('modulus', 1, gen=MODULI)
    E.gset('draw', -1)
    E.gset('m', m)
    r = E.run(E.fn('counter.sample'), m)
    E.prove('no-error', r.ok, r.where)
    if not r.ok:
        return
    d = E.gget('draw')
    E.prove('drew', E.ge(d, 0))
    # the result is the accepted draw itself, so it is uniform over the accepted draws
    E.prove('is-last-draw', E.eq(r.value, d))
    E.prove('in-range', E.And(E.le(0, r.value), E.lt(r.value, m)))
    E.prove('all-values-possible', E.ge(pow2(E, E.gget('bits')), m))


def sample_contract(E, a, k):
    m = a[0]
    if E.truth(E.le(m, 0)):
        E.raise_exc('AssertionError')
    v = E.int('sampled', 0)
    if E.concrete:
        v = v % m
    E.assume(E.lt(v, m))
    E.log('sample', m, v)
    return v


@unit('P04', 'sample_randint', ['counter.sample_randint'], contracts={'counter.sample': sample_contract},
      expects=['shifted-sample', 'whole-range'])
def sample_randint(E):
    a, b = E.int('a'), E.int('b')
    E.assume(E.le(a, b))
    r = E.run(E.fn('counter.sample_randint'), a, b)
    E.prove('no-error', r.ok, r.where)
    if not r.ok:
        return
    calls = E.logged('sample')
    E.prove('one-sample', len(calls) == 1)
    m, v = calls[0]
    E.prove('shifted-sample', E.eq(r.value, E.add(a, v)))
    E.prove('whole-range', E.eq(m, E.add(E.sub(b, a), 1)))


@unit('P04', 'derive', ['counter.derive_blinding_factor'], contracts={'counter.sample': sample_contract},
      expects=['fresh', 'complement', 'given'])
def derive(E):
    m = E.int('modulus', 1, gen=MODULI)
    positive = E.bool('positive')
    fresh = E.bool('fresh')
    if E.truth(fresh):
        secret = None
    else:
        secret = E.int('secret', 0)
        E.assume(E.lt(secret, m))
    r = E.run(E.fn('counter.derive_blinding_factor'), secret, m, positive)
    E.prove('no-error', r.ok, r.where)
    if not r.ok:
        return
    calls = E.logged('sample')
    if E.truth(fresh):
        E.prove('fresh', len(calls) == 1 and E.eq(calls[0][0], m))
        v = calls[0][1]
    else:
        E.prove('given', len(calls) == 0)
        v = secret
    E.prove('complement', E.ite(positive, E.eq(r.value, v), E.eq(E.add(r.value, v), m)))
