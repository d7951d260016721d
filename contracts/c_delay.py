# P08: a round with less noise waits for the configured delay after the last successful round
from registry import unit

CD = 'counter.CollectionDelay.'
SIG = [0.0, 1.0, 1.0 - 1e-6, 1.0 - 2e-6, 0.999, 2.0, 10.0, 1e6]


def needs(E, prev, prop, tol):
    return E.And(E.lt(prop, prev), E.gt(E.sub(prev, prop), tol))


def tolerance(E):
    return E.float('tol', lo=0, finite=True, gen=[1e-6, 0.0, 0.5])


def sigma1(E, k):
    return E.mkdict([('sigma', E.float('sigma', lo=0, finite=True, gen=SIG))])


def maybe_sigma(E, k):
    return sigma1(E, k) if E.truth(E.bool('has_sigma')) else E.mkdict([('note', 1)])


def is_sigma1(E, c):
    return E.typename(c) == 'dict' and E.has(c, 'sigma') is True and E.typename(E.item(c, 'sigma')) == 'float'


SHAPES = {'sigma1': (is_sigma1, sigma1)}


@unit('P08', 'sigma', [CD + 'sigma_change_needs_delay'], expects=['iff-decreased'])
def sigma(E):
    a, b = E.float('prev', lo=0, finite=True, gen=SIG), E.float('prop', lo=0, finite=True, gen=SIG)
    f = E.fn(CD + 'sigma_change_needs_delay')
    if E.truth(E.bool('default')):
        tol = 1e-6
        r = E.run(f, a, b)
    else:
        tol = tolerance(E)
        r = E.run(f, a, b, tol)
    E.prove('no-error', r.ok, r.where)
    if r.ok:
        E.prove('iff-decreased', E.Iff(r.value, needs(E, a, b, tol)))


def sigma_contract(E, args):
    return needs(E, args[0], args[1], args[2])


def key(E):
    return E.str('key', gen=['A', 'B', 'Cc'])


@unit('P08', 'skip_missing', ['counter._skip_missing'], expects=['kept-iff-present'], shapes=SHAPES)
def skip_missing(E):
    g = E.str('g', gen=['A', 'B'])
    d = E.dict('counters', key, maybe_sigma, generic=[g])
    present = bool(E.has(d, g)) and E.has(E.item(d, g), 'sigma') is True
    v = E.item(d, g) if present else None
    r = E.run(E.fn('counter.skip_missing_sigmas'), d, 'x')
    E.prove('no-error', r.ok, r.where)
    if not r.ok:
        return
    E.prove('kept-iff-present', bool(E.has(r.value, g)) == present)
    if present:
        E.prove('kept-iff-present', E.eq(E.item(E.item(r.value, g), 'sigma'), E.item(v, 'sigma')))


def skip_contract(E, args):
    """Contract of skip_missing_sigmas, proved by unit skip_missing (for an arbitrary counter)."""
    d = args[0]
    g = E.gget('g')
    out = E.dict('sigmas', key, sigma1, generic=[g], shape='sigma1')
    keep = bool(E.has(d, g)) and E.has(E.item(d, g), 'sigma') is True
    E.assume(bool(E.has(out, g)) == keep)
    if keep:
        E.put(out, g, E.item(d, g))
    return out


def allocation(E, name, g):
    return E.mkdict([('counters', E.dict(name, key, sigma1 if E.truth(E.bool('all_have')) else maybe_sigma, generic=[g]))])


def has_sigma(E, alloc, g):
    c = E.item(alloc, 'counters')
    return bool(E.has(c, g)) and bool(E.has(E.item(c, g), 'sigma'))


def reason(prev, prop, tol):
    """Runtime side: does the change from prev to prop need a delay?"""
    a = dict((k, v['sigma']) for k, v in prev['counters'].items() if 'sigma' in v)
    b = dict((k, v['sigma']) for k, v in prop['counters'].items() if 'sigma' in v)
    return set(a) != set(b) or any(b[k] < a[k] and a[k] - b[k] > tol for k in a)


@unit('P08', 'noise_change', [CD + 'noise_change_needs_delay', 'counter.skip_missing_sigmas', 'counter.common_counters'],
      summaries={'counter.skip_missing_sigmas': skip_contract, CD + 'sigma_change_needs_delay': sigma_contract},
      expects=['same-counters', 'no-sigma-decrease', 'first-round'], shapes=SHAPES)
def noise_change(E):
    g = E.str('g', gen=['A', 'B'])
    E.gset('g', g)
    tol = tolerance(E)
    prop = allocation(E, 'proposed', g)
    f = E.fn(CD + 'noise_change_needs_delay')
    if E.truth(E.bool('first')):
        r = E.run(f, None, prop, tol)
        E.prove('first-round', r.ok and E.Not(r.value))
        return
    prev = allocation(E, 'previous', g)
    a, b = has_sigma(E, prev, g), has_sigma(E, prop, g)
    r = E.run(f, prev, prop, tol)
    E.prove('no-error', r.ok, r.where)
    if not r.ok:
        return
    if not E.truth(r.value):
        E.prove('same-counters', a == b)
        if a and b:
            s = lambda x: E.item(E.item(E.item(x, 'counters'), g), 'sigma')
            E.prove('no-sigma-decrease', E.Not(needs(E, s(prev), s(prop), tol)))
    if E.concrete:
        E.prove('iff-changed', bool(r.value) == reason(prev, prop, tol))


def change_contract(E, a, k=None):
    """noise_change_needs_delay is a function of its arguments, False for the first allocation."""
    d = dict(zip(('previous_allocation', 'proposed_allocation', 'tolerance'), a))
    d.update(k or {})
    prev, prop = d['previous_allocation'], d['proposed_allocation']
    if E.is_none(prev):
        return False
    tol = d.get('tolerance', 1e-6)
    if tol not in TOLERANCES:
        E.fail('tolerance', 'not the tolerance configured')
    return E.func('changed', 'bool', E.item(prev, 'id'), E.item(prop, 'id'), TOLERANCES.index(tol))


def alloc_id(E, name):
    sigmas = [(n, E.mkdict([('sigma', E.float('sigma', lo=0, finite=True, gen=SIG))])) for n in ('A', 'B')]
    return E.mkdict([('id', E.int(name, 0, 3)), ('counters', E.mkdict(sigmas))])


def moment(E, name):
    return E.float(name, lo=0, hi=4e9, gen=[0.0, 100.0, 1000.0, 1500000000.0])


def state(E):
    d = E.new('counter.CollectionDelay')
    p = E.run(E.attr(d, 'get_next_round_start_time'), alloc_id(E, 'any'), E.float('p0', lo=0, finite=True))
    E.prove('fresh-any-time', p.ok and E.eq(p.value, 0))
    if E.truth(E.bool('had_round')):
        start = alloc_id(E, 'start')
        end = moment(E, 'end')
        E.set(d, 'starting_noise_allocation', start)
        E.set(d, 'last_round_end_time', end)
    else:
        start = end = None
    return d, start, end


TOLERANCES = [1e-6, 0.5]
CH = {CD + 'noise_change_needs_delay': change_contract}


def opts(E):
    """The arguments of a call, and the tolerance in force."""
    tol = E.pick('tolerance', [1e-6, 0.5])
    kw = dict(max_client_rtt=E.float('rtt', lo=0, hi=1e5), always_delay=E.bool('always'))
    if tol != 1e-6:
        kw['tolerance'] = tol
    return E.float('delay', lo=0, hi=1e9), kw['max_client_rtt'], kw['always_delay'], kw, tol


@unit('P08', 'start_time', [CD + 'get_next_round_start_time', CD + 'round_start_permitted'], contracts=CH,
      expects=['no-previous-round', 'delayed', 'not-delayed', 'permitted-iff', 'state-kept', 'fresh-any-time'])
def start_time(E):
    d, start, end = state(E)
    prop = alloc_id(E, 'prop')
    delay, rtt, always, kw, tol = opts(E)
    r = E.run(E.attr(d, 'get_next_round_start_time'), prop, delay, **kw)
    E.prove('no-error', r.ok, r.where)
    if not r.ok:
        return
    if end is None:
        E.prove('no-previous-round', E.eq(r.value, 0))
        want = 0
    elif E.truth(E.Or(always, change_contract(E, [start, prop, tol]))):
        want = E.add(E.add(end, delay), rtt)
        E.prove('delayed', E.eq(r.value, want))
    else:
        want = end
        E.prove('not-delayed', E.eq(r.value, want))
    t = moment(E, 't')
    p = E.run(E.attr(d, 'round_start_permitted'), prop, t, delay, **kw)
    E.prove('no-error', p.ok, p.where)
    if p.ok:
        E.prove('permitted-iff', E.Iff(p.value, E.ge(t, want)))
    E.prove('state-kept', E.same(E.attr(d, 'starting_noise_allocation'), start) if start is not None
            else E.is_none(E.attr(d, 'starting_noise_allocation')))


@unit('P08', 'stop', [CD + 'set_delay_for_stop'], contracts=CH,
      expects=['failed-round-ignored', 'end-time', 'starting-kept', 'starting-replaced'])
def stop(E):
    d, start, end = state(E)
    prop = alloc_id(E, 'prop')
    delay, rtt, always, kw, tol = opts(E)
    good = E.bool('success')
    t0 = moment(E, 't0')
    t1 = moment(E, 't1')
    E.assume(E.lt(t0, t1))
    r = E.run(E.attr(d, 'set_delay_for_stop'), good, prop, t0, t1, delay, **kw)
    E.prove('no-error', r.ok, (r.where, r.exc))
    if not r.ok:
        return
    now, t = E.attr(d, 'starting_noise_allocation'), E.attr(d, 'last_round_end_time')
    if not E.truth(good):
        E.prove('failed-round-ignored', E.is_none(now) if start is None else E.same(now, start))
        E.prove('failed-round-ignored', E.is_none(t) if end is None else E.eq(t, end))
        return
    E.prove('end-time', E.eq(t, t1))
    if start is None or E.truth(always) or E.truth(change_contract(E, [start, prop, tol])):
        E.prove('starting-replaced', E.same(now, prop))
    else:
        E.prove('starting-kept', E.same(now, start))
