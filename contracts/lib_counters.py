"""Shapes and inputs shared by the contracts on counters."""

FLOATS = [0.0, 0.5, 1.0, 2.0, 512.0, 1e9, float('inf'), float('-inf'), -1.0]


def key(E):
    return E.str('key', gen=['A', 'B', 'Cc', 'DdCount'])


def bin2(E, i):
    return E.mklist([E.float('lo', gen=FLOATS), E.float('hi', gen=FLOATS)])


def bin3(E, i):
    return E.mklist([E.float('lo', gen=FLOATS), E.float('hi', gen=FLOATS), E.int('cnt')])


def counter2(E, k):
    return E.mkdict([('bins', E.list('bins', bin2, lo=1, shape='bin2')),
                     ('sigma', E.float('sigma', lo=0, finite=True))])


def counter3(E, k):
    return E.mkdict([('bins', E.list('bins', bin3, lo=1, shape='bin3')),
                     ('sigma', E.float('sigma', lo=0, finite=True))])


def is_bin(n):
    def pred(E, b):
        if not (E.typename(b) == 'list' and E.eq(E.len(b), n) is True):
            return False
        return n == 2 or E.typename(E.item(b, 2)) == 'int'
    return pred


def is_counter(shape):
    def pred(E, c):
        return E.typename(c) == 'dict' and E.typename(E.item(c, 'bins')) == 'list' and \
            E.all_shaped(E.item(c, 'bins'), shape) and E.typename(E.item(c, 'sigma')) == 'float'
    return pred


SHAPES = {
    'bin2': (is_bin(2), bin2), 'bin3': (is_bin(3), bin3),
    'counter2': (is_counter('bin2'), counter2), 'counter3': (is_counter('bin3'), counter3),
}


def config(E, name='counters'):
    """A counter configuration with an arbitrary counter g and an arbitrary bin i of it."""
    g = E.str('g', gen=['A', 'B', 'Cc'])
    i = E.generic('i')
    cfg = E.dict(name, key, counter2, generic=[g], shape='counter2')
    E.assume(E.has(cfg, g))
    bins = E.item(E.item(cfg, g), 'bins')
    E.assume(E.lt(i, E.len(bins)))
    b = E.item(bins, i)
    return cfg, g, i, (E.item(b, 0), E.item(b, 1))


def cell(E, counters, g, i):
    return E.item(E.item(E.item(counters, g), 'bins'), i)


def count(E, counters, g, i):
    return E.item(cell(E, counters, g, i), 2)


def report(E, cfg, g, name='contrib', lo=None, hi=None):
    """Arbitrary reported counters; on the runtime side mostly matching the configuration."""
    if E.concrete:
        d = {}
        odd = E.rng.random() < 0.08
        for k in cfg:
            if odd and E.rng.random() < 0.2:
                continue
            bins = []
            for b in cfg[k]['bins']:
                if odd and E.rng.random() < 0.1:
                    continue
                bins.append([b[0], b[1], E.int('cnt', lo, hi)] if not (odd and E.rng.random() < 0.1) else [b[0], b[1]])
            d[k] = {'bins': bins}
            if E.rng.random() < 0.7:
                d[k]['sigma'] = cfg[k].get('sigma', 0.0)
        return d
    return E.dict(name, key, counter3, generic=[g], shape='counter3')
