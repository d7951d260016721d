# P01: the published tally is the sum of all reported counts and noise
from registry import unit
import lib_counters as L

SC = 'counter.SecureCounters.'


@unit('P01', 'init', [SC + '__init__'], expects=['zero', 'config-unchanged', 'ready'], shapes=L.SHAPES)
def init(E):
    cfg, g, i, (lo, hi) = L.config(E)
    n = E.len(E.item(E.item(cfg, g), 'bins'))
    m = E.int('modulus', 2)
    r = E.run(E.fn('counter.SecureCounters'), cfg, m)
    E.prove('ready', r.ok, r.where)
    if not r.ok:
        return
    s = r.value
    c = L.cell(E, E.attr(s, 'counters'), g, i)
    E.prove('zero', E.And(E.eq(E.len(c), 3), E.eq(E.item(c, 2), 0)))
    E.prove('config-unchanged', E.And(E.eq(E.len(L.cell(E, cfg, g, i)), 2),
                                      E.eq(E.len(E.item(E.item(E.attr(s, 'counters'), g), 'bins')), n)))




def bin3r(E, i):
    return E.mklist([E.float('lo'), E.float('hi'), E.int('cnt', 0, E.gget('m') - 1)])


def counter3r(E, k):
    return E.mkdict([('bins', E.list('bins', bin3r, lo=1, shape='bin3r')), ('sigma', E.float('sigma', lo=0, finite=True))])


def is_bin3r(E, b):
    return E.And(L.is_bin(3)(E, b), E.le(0, E.item(b, 2)), E.lt(E.item(b, 2), E.gget('m')))


RSHAPES = {'bin3r': (is_bin3r, bin3r), 'counter3r': (L.is_counter('bin3r'), counter3r)}
RSHAPES.update(L.SHAPES)


def well_formed(E, d, g, n):
    """The report d has counter g with n bins."""
    if not E.truth(E.has(d, g)):
        return False
    c = E.item(d, g)
    if not E.truth(E.has(c, 'bins')):
        return False
    return E.truth(E.eq(E.len(E.item(c, 'bins')), n))


def add_summary(E, args):
    """Contract of _tally_counter, proved by unit add_one."""
    s, d = args
    m, g, i = E.gget('m'), E.gget('g'), E.gget('i')
    old = E.attr(s, 'counters')
    if E.is_none(old):
        return False
    bins = E.item(E.item(old, g), 'bins')
    n = E.len(bins)
    # False: nothing is promised about the state; True: well-formed, and added
    # a report whose structure was found to match is accepted
    checked = E.gget('checked') is not None and E.same(E.gget('checked'), d)
    if not ((checked or E.truth(E.bool('accepted', inp=False))) and well_formed(E, d, g, n)):
        v = E.int('partial', 0, m - 1, inp=False)
        ok = False
    else:
        b = E.item(E.item(E.item(d, g), 'bins'), i)
        if not E.truth(E.eq(E.len(b), 3)):
            v = E.int('partial', 0, m - 1, inp=False)
            ok = False
        else:
            v = E.mod(E.add(L.count(E, old, g, i), E.item(b, 2)), m)
            ok = True
    E.havoc_rest(old, g, 'counter3r')
    E.havoc_rest(bins, i, 'bin3r')
    E.put(E.item(bins, i), 2, v)
    return ok


def check_summary(E, args):
    """Contract of _check_counter, proved by unit check_one."""
    s, d = args
    if not E.truth(E.bool('matches', inp=False)):
        return False
    E.gset('checked', d)
    g, i = E.gget('g'), E.gget('i')
    if not well_formed(E, d, g, E.len(E.item(E.item(E.attr(s, 'counters'), g), 'bins'))):
        return False
    return E.eq(E.len(L.cell(E, d, g, i)), 3)


@unit('P01', 'check_one', [SC + '_check_counter'], expects=['well-formed'], shapes=L.SHAPES)
def check_one(E):
    cfg, g, i, m, s = start(E, [2 ** 70])
    n = E.len(E.item(E.item(cfg, g), 'bins'))
    d = L.report(E, cfg, g)
    r = E.m(s, '_check_counter', d)
    E.prove('no-error', r.ok, r.where)
    if not r.ok:
        return
    if E.truth(r.value):
        E.prove('well-formed', well_formed(E, d, g, n))
        E.prove('well-formed', E.eq(E.len(L.cell(E, d, g, i)), 3))
    if E.concrete:
        ok = all(k in d and len(d[k]['bins']) == len(cfg[k]['bins']) and all(len(b) == 3 for b in d[k]['bins'])
                 for k in cfg)
        E.prove('accepts-well-formed', bool(r.value) == ok)


def start(E, ms):
    cfg, g, i, _ = L.config(E)
    m = E.pick('modulus', ms)
    E.gset('m', m)
    s = E.new('counter.SecureCounters', cfg, m)
    for k, v in (('s', s), ('g', g), ('i', i)):
        E.gset(k, v)
    return cfg, g, i, m, s


@unit('P01', 'add_one', [SC + '_tally_counter', SC + '_check_counter'],
      expects=['added', 'well-formed', 'range', 'kept'], shapes=L.SHAPES)
def add_one(E):
    cfg, g, i, m, s = start(E, [2 ** 70, 5])
    n = E.len(E.item(E.item(cfg, g), 'bins'))
    a = E.int('before', 0, m - 1)
    E.put(L.cell(E, E.attr(s, 'counters'), g, i), 2, a)
    d = L.report(E, cfg, g)
    b0 = E.copy(L.cell(E, E.attr(s, 'counters'), g, i))
    r = E.m(s, '_tally_counter', d)
    E.prove('total', r.ok, (r.where, r.exc, r.args))
    if not r.ok:
        return
    c = L.cell(E, E.attr(s, 'counters'), g, i)
    E.prove('kept', E.And(E.eq(E.len(c), 3), E.eq(E.len(E.item(E.item(E.attr(s, 'counters'), g), 'bins')), n)))
    E.prove('range', E.And(E.le(0, E.item(c, 2)), E.lt(E.item(c, 2), m)))
    if E.truth(r.value):
        E.prove('well-formed', well_formed(E, d, g, n))
        x = L.cell(E, d, g, i)
        E.prove('well-formed', E.eq(E.len(x), 3))
        E.prove('added', E.eq(E.item(c, 2), E.mod(E.add(a, E.item(x, 2)), m)))
    else:
        E.prove('rejected-unchanged', E.eq(E.item(c, 2), a))


def contribution(cfg, g, i):
    """One reported set of counters; its count in bin i of g is added to the ghost total."""
    def elem(E, j):
        d = L.report(E, cfg, g)
        if E.truth(E.has(d, g)):
            bins = E.item(E.item(d, g), 'bins')
            if E.truth(E.lt(i, E.len(bins))):
                b = E.item(bins, i)
                if E.truth(E.eq(E.len(b), 3)):
                    E.gset('total', E.add(E.gget('total'), E.item(b, 2)))
        return d
    return elem


def invariant(E, fr):
    s = E.gget('s')
    if s is None or E.gget('total') is None or E.is_none(E.attr(s, 'counters')):
        return None
    v = L.count(E, E.attr(s, 'counters'), E.gget('g'), E.gget('i'))
    return E.eq(E.mod(v, E.gget('m')), E.mod(E.gget('total'), E.gget('m')))


def bounded(E, fr):
    s = E.gget('s')
    if s is None or E.gget('total') is None or E.is_none(E.attr(s, 'counters')):
        return None
    v = L.count(E, E.attr(s, 'counters'), E.gget('g'), E.gget('i'))
    return E.And(E.le(0, v), E.lt(v, E.gget('m')))


@unit('P01', 'tally', [SC + 'tally_counters'], expects=['sum', 'signed-range', 'accepted'], shapes=RSHAPES,
      loop_hints={SC + 'tally_counters': [invariant, bounded]}, summaries={SC + '_tally_counter': add_summary})
def tally(E):
    cfg, g, i, m, s = start(E, [2 ** 70, 7, 2])
    E.gset('total', 0)
    cs = E.list('contributors', contribution(cfg, g, i), generic=False)
    r = E.m(s, 'tally_counters', cs)
    E.prove('accepted', r.ok, r.where)
    if not r.ok or not E.truth(r.value):
        return
    v = L.count(E, E.attr(s, 'counters'), g, i)
    E.prove('sum', E.eq(E.mod(v, m), E.mod(E.gget('total'), m)))
    E.prove('signed-range', E.And(E.le(-(m // 2), v), E.le(v, (m - 1) // 2)))
