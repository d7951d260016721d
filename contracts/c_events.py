# P19: a malformed event, or an event with a malformed field, is dropped whole
from registry import unit

MODS = ['tagged_event', 'config', 'log']
T = 'tagged_event.'
SAMPLES = ['A=1', 'B=2', 'A=2', 'Cc=', '', '=x', 'A', 'A=1=2', 'A= 1', 'A=\n', 'A=\r', 'A=\0', 'D=longer', 'A==']


def field(E, i):
    if E.concrete:
        return E.rng.choice(SAMPLES + SAMPLES[:6] * 2)
    k = E.str('key', inp=False)
    E.assume(E.Not(E.contains_str(k, '=')))
    return E.cat(k, '=', E.str('value', inp=False)) if E.choose(2) else k


def bad(E, s):
    """Not Key=Value."""
    parts = E.m(s, 'partition', '=').value
    return E.Or(E.eq(E.item(parts, 1), ''), E.eq(E.item(parts, 0), ''), E.contains_str(E.item(parts, 2), '='),
                *[E.contains_str(s, c) for c in (' ', '\r', '\n', '\0')])


def absent_not_parsed(E, fr):
    r = fr.vars.get('result')
    if r is None or E.gget('absent') is None:
        return None
    return E.Not(E.has(r, E.gget('absent')))


OPTS = dict(mods=MODS, strfacts=False, strings='abs', max_paths=8000)


@unit('P19', 'field', [T + 'parse_tagged_event'], expects=['present', 'malformed-drops-event', 'no-error'], **OPTS)
def parse_field(E):
    """An arbitrary field of an event with any number of fields."""
    fields = E.list('fields', field, generic=True)
    i = E.generic('i')
    E.assume(E.lt(i, E.len(fields)))
    f = E.item(fields, i)
    r = E.run(E.fn(T + 'parse_tagged_event'), fields)
    E.prove('no-error', r.ok, (r.exc, r.where))
    if E.truth(E.eq(f, '')):
        return
    if E.truth(bad(E, f)):
        E.prove('malformed-drops-event', E.eq(E.len(r.value), 0))
    elif E.truth(E.gt(E.len(r.value), 0)):
        parts = E.m(f, 'partition', '=').value
        E.prove('present', E.has(r.value, E.item(parts, 0)))
        E.prove('present', E.eq(E.get_or(r.value, E.item(parts, 0), None), E.item(parts, 2)))


def wellformed(E, key):
    v = E.str('value', gen=['', '1', 'a,b', '-2.5'], inp=False)
    for c in ('=', ' ', '\r', '\n', '\0'):
        E.assume(E.Not(E.contains_str(v, c)))
        E.assume(E.Not(E.contains_str(key, c)))
    E.assume(E.Not(E.eq(key, '')))
    return v


@unit('P19', 'repeated', [T + 'parse_tagged_event'], expects=['duplicate-drops-event', 'all-present', 'no-other'], **OPTS)
def parse_repeated(E):
    """Two well-formed fields, with other fields after them, or with empty ones between them."""
    ks = [E.str('key1', gen=['A', 'B']), E.str('key2', gen=['A', 'B', 'Cc'])]
    vs = [wellformed(E, k) for k in ks]
    fs = [E.cat(k, '=', v) for k, v in zip(ks, vs)]
    u = E.str('u', gen=['A', 'B', 'x', ''])
    same = E.truth(E.eq(ks[0], ks[1]))
    pad = [[], ['']][E.choose(2)]
    r = E.run(E.fn(T + 'parse_tagged_event'), E.mklist(pad + fs[:1] + pad + fs[1:] + pad))
    if same:
        E.prove('duplicate-drops-event', r.ok and E.eq(E.len(r.value), 0))
    else:
        E.prove('all-present', r.ok and E.And(*[E.eq(E.get_or(r.value, k, None), v) for k, v in zip(ks, vs)]))
        E.prove('no-other', E.eq(E.len(r.value), 2) and E.Iff(E.has(r.value, u), E.Or(E.eq(u, ks[0]), E.eq(u, ks[1]))))


INTS = ['0', '1', '2', '-1', '7', '123456789012345678901', '', 'x', '1.5', ' 3 ', '0x1', '1e3', '+4', '-']
FLOATS = ['0', '1.5', '-2.25', '1e3', 'inf', '-inf', 'nan', 'NaN', '', 'x', '3', '-0.0', '1.5.2']


def event(E, gen):
    """A parsed event that has the field, or has only another one."""
    s = E.str('text', gen=gen)
    there = E.truth(E.bool('there'))
    return s, there, E.mkdict([('Field', s), ('Other', 'x')] if there else [('Other', 'x')])


def limits(E, mk):
    return [mk(n) if E.truth(E.bool('has_' + n)) else None for n in ('min', 'max')]


def within(E, v, lo, hi):
    return E.And(True if lo is None else E.ge(v, lo), True if hi is None else E.le(v, hi))


def fetched(E, r, there, valid, want):
    """What get_*_value does, with the default 'none'."""
    if not there:
        E.prove('default', r.ok and E.eq(r.value, 'none'), (r.exc, r.where))
    elif valid:
        E.prove('value', r.ok and want(r.value), (r.exc, r.where))
    else:
        E.prove('invalid-asserts', not r.ok and r.exc == 'AssertionError', (r.exc, r.where))


BOTH = ['within-limits', 'missing', 'default', 'value']


@unit('P19', 'string', [T + 'is_string_valid', T + 'is_field_valid', T + 'get_string_value'], expects=BOTH, **OPTS)
def string_field(E):
    s, there, ev = event(E, ['', 'a', 'abc', 'abcdef'])
    must = E.truth(E.bool('mandatory'))
    lo, hi = limits(E, lambda n: E.int(n, 0, 6))
    r = E.run(E.fn(T + 'is_string_valid'), 'Field', ev, 'desc', is_mandatory=must, min_len=lo, max_len=hi)
    if there:
        E.prove('within-limits', r.ok and E.Iff(r.value, within(E, E.len(s), lo, hi)), (r.exc, r.where))
    else:
        E.prove('missing', r.ok and E.eq(r.value, not must))
    fetched(E, E.run(E.fn(T + 'get_string_value'), 'Field', ev, 'desc', default='none'), there, True, lambda v: E.eq(v, s))


def number(E, kind, conv, gen, mk):
    s, there, ev = event(E, gen)
    must = E.truth(E.bool('mandatory'))
    lo, hi = limits(E, mk)
    p = E.run(E.fn('builtin.' + conv), s)
    r = E.run(E.fn(T + 'is_%s_valid' % kind), 'Field', ev, 'desc', is_mandatory=must, min_value=lo, max_value=hi)
    isnan = p.ok and conv == 'float' and E.truth(E.Not(E.eq(p.value, p.value)))
    valid = p.ok and not isnan
    if not there:
        E.prove('missing', r.ok and E.eq(r.value, not must))
    elif not valid:
        E.prove('not-a-number', r.ok and E.eq(r.value, False), (r.exc, r.where))
    else:
        E.prove('within-limits', r.ok and E.Iff(r.value, within(E, p.value, lo, hi)), (r.exc, r.where))
    fetched(E, E.run(E.fn(T + 'get_%s_value' % kind), 'Field', ev, 'desc', default='none'), there, valid, lambda v: E.eq(v, p.value))


NUM = BOTH + ['not-a-number', 'invalid-asserts']


@unit('P19', 'int', [T + 'is_int_valid', T + 'get_int_value'], expects=NUM, **OPTS)
def int_field(E):
    number(E, 'int', 'int', INTS, lambda n: E.int(n, -3, 8))


@unit('P19', 'float', [T + 'is_float_valid', T + 'get_float_value'], expects=NUM, **OPTS)
def float_field(E):
    number(E, 'float', 'float', FLOATS, lambda n: E.float(n, gen=[0.0, 1.5, -1.0, 1000.0], finite=True))


@unit('P19', 'flag', [T + 'is_flag_valid', T + 'get_flag_value'], expects=NUM, **OPTS)
def flag_field(E):
    s, there, ev = event(E, INTS)
    must = E.truth(E.bool('mandatory'))
    p = E.run(E.fn('builtin.int'), s)
    valid = p.ok and E.truth(E.Or(E.eq(p.value, 0), E.eq(p.value, 1)))
    r = E.run(E.fn(T + 'is_flag_valid'), 'Field', ev, 'desc', is_mandatory=must)
    if not there:
        E.prove('missing', r.ok and E.eq(r.value, not must))
    else:
        E.prove('within-limits' if valid else 'not-a-number', r.ok and E.eq(r.value, valid), (r.exc, r.where))
    fetched(E, E.run(E.fn(T + 'get_flag_value'), 'Field', ev, 'desc', default='none'), there, valid,
            lambda v: E.typename(v) == 'bool' and E.Iff(v, E.eq(p.value, 1)))


@unit('P19', 'list', [T + 'is_list_valid', T + 'get_list_value'], expects=BOTH, **OPTS)
def list_field(E):
    n = E.choose(5)
    items = []
    for i in range(n):
        x = E.str('item%d' % i, gen=['', 'a', 'bc'])
        E.assume(E.Not(E.contains_str(x, ',')))
        items.append(x)
    text = []
    for i in range(n):
        text += [','] * (i > 0) + [items[i]]
    s = E.cat(*text) if n else ''
    if n == 1:
        E.assume(E.Not(E.eq(s, '')))
    there = E.truth(E.bool('there'))
    ev = E.mkdict([('Field', s)] if there else [])
    must = E.truth(E.bool('mandatory'))
    lo, hi = limits(E, lambda m: E.int(m, 0, 5))
    r = E.run(E.fn(T + 'is_list_valid'), 'Field', ev, 'desc', is_mandatory=must, min_count=lo, max_count=hi)
    if there:
        E.prove('within-limits', r.ok and E.Iff(r.value, within(E, n, lo, hi)), (r.exc, r.where))
    else:
        E.prove('missing', r.ok and E.eq(r.value, not must))
    fetched(E, E.run(E.fn(T + 'get_list_value'), 'Field', ev, 'desc', default='none'), there, True, lambda v: E.eq(v, E.mklist(items)))


@unit('P19', 'address', [T + 'is_ip_address_valid', T + 'get_ip_address_object', T + 'get_ip_address_value'],
      expects=['valid', 'missing', 'default', 'value', 'invalid-asserts'],
      contracts={'config.validate_ip_address': lambda E, a, k: E.gget('object')}, **OPTS)
def address_field(E):
    s, there, ev = event(E, ['1.2.3.4', '::1', '', 'x'])
    must = E.truth(E.bool('mandatory'))
    valid = E.truth(E.bool('valid'))
    o = '10.0.0.1' if valid else None
    E.gset('object', o)
    r = E.run(E.fn(T + 'is_ip_address_valid'), 'Field', ev, 'desc', is_mandatory=must)
    if there:
        E.prove('valid', r.ok and E.eq(r.value, valid))
    else:
        E.prove('missing', r.ok and E.eq(r.value, not must))
    for f in ('get_ip_address_object', 'get_ip_address_value'):
        fetched(E, E.run(E.fn(T + f), 'Field', ev, 'desc', default='none'), there, valid, lambda v: E.eq(v, o))
