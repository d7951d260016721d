# P20: every stream is counted exactly once in each breakdown of the stream counters
from registry import unit
from lib_counters import FLOATS

A = 'data_collector.Aggregator'
MODS = ['data_collector', 'match', 'config', 'counter', 'log']
INTERACTIVE = [22, 194, 994, 6660, 6661, 6662, 6663, 6664, 6665, 6666, 6667, 6668, 6669, 6670, 6679, 6697, 7000]
P2P = [(1214, 1214), (4661, 4666), (6346, 6429), (6699, 6699), (6881, 6999), (45682, 45682), (51413, 51413)]
PORTS = [80, 443, 22, 194, 7000, 6699, 1214, 6881, 6999, 4661, 4666, 6346, 6429, 45682, 51413, 0, 25, 81, 8080, 6680, 6345, 6430, 4660, 4667, 65535]


def increment(E, a, k):
    names = ['name', 'bin', 'inc']
    v = dict(zip(names, a))
    v.update(k)
    E.log('inc', v['name'], v['bin'], v.get('inc', 1))


def address(E, a, k):
    for text, v in E.logged_known('address'):
        if E.same(text, a[0]) or (E.concrete and text == a[0]):
            return v
    E.raise_exc('ValueError', 'other text')


def exact(E, a, k):
    for o, v in E.logged_known('in'):
        if E.same(o, a[0]):
            E.log('searched', a[1])
            return v
    return False


def suffix(E, a, k):
    E.log('suffix', a[0], a[1], k.get('separator', a[2] if len(a) > 2 else ''))
    return E.gget('suffix_bin')


def ratio_of(E, a):
    return E.func('ratio', 'float', a[0], a[1])


LIB = {'config.validate_ip_address': address, 'match.exact_match': exact, 'match.suffix_match': suffix}
TEXT = {A + '._encode_ratio': ratio_of}


def aggregator(E, **attrs):
    return E.raw(A, secure_counters=E.stub('counters', increment=increment), circ_info=E.mkdict([]), **attrs)


def literal(E, name):
    """A text, and the address it is (None: no address)."""
    t = E.pick(name, [None, 4, 6])
    s = {None: name + '.example', 4: '1.2.3.4', 6: '::1'}[t]
    if E.concrete:
        s = E.cat(s, ' ' + name)
    else:
        s = E.str(name + '_text', inp=False)
    E.log('address', s, None if t is None else E.stub('address', version=t))
    return s, t


def number(E, name, gen, conv='int'):
    """A field, and the number it stands for."""
    s = E.str(name, gen=[str(x) for x in gen])
    p = E.run(E.fn('builtin.' + conv), s)
    E.assume(p.ok)
    return s, p.value


KINDS = ['Interactive', 'Web', 'P2P', 'OtherPort']
COUNTS = ['StreamCount', 'StreamByteCount', 'StreamOutboundByteCount', 'StreamInboundByteCount']
HISTOGRAMS = ['StreamByteHistogram', 'StreamOutboundByteHistogram', 'StreamInboundByteHistogram', 'StreamByteRatio', 'StreamLifeTime']


def stream(E, lists):
    wants = [E.truth(E.bool('exact_lists')), E.truth(E.bool('suffix_lists'))] if lists else [False, False]
    exacts = [E.stub('list0'), E.stub('list1')]
    agg = aggregator(E, needs_domain_exact_match=wants[0], needs_domain_suffix_match=wants[1],
                     domain_exact_objs=E.mklist(exacts), domain_suffix_obj='suffixes')
    found = E.pick('found', [None, 0, 1]) if wants[0] else None
    for i in range(2):
        E.log('in', exacts[i], found == i)
    bin_s = E.pick('suffix', [None, 0, 1]) if wants[1] else None
    E.gset('suffix_bin', bin_s)
    chan, circ, strm = '7', '9', '3'
    if lists:
        port_s, port = '80', 80
        read_s, read, write_s, write = '5', 5, '7', 7
        start_s, start, end_s, end = '1.5', 1.5, '4.0', 4.0
    else:
        port_s, port = number(E, 'port', PORTS)
        read_s, read = number(E, 'read', [-1, 0, 1, 5, 10 ** 9])
        write_s, write = number(E, 'write', [-1, 0, 1, 7, 10 ** 9])
        start_s, start = number(E, 'start', [1.5, 100.25], 'float')
        end_s, end = number(E, 'end', [4.0, 100.25], 'float')
        E.assume(E.And(E.gt(start, -4e9), E.lt(start, 4e9), E.gt(end, -4e9), E.lt(end, 4e9)))
    old = {}
    if not lists and E.truth(E.bool('known_circuit')):
        for k in KINDS:
            old[k] = (E.int('old' + k, 0, 100), E.float('oldstart' + k, 0, 4e9, finite=True))
        E.put(E.attr(agg, 'circ_info'), 7, E.mkdict([(9, E.mkdict([
            ('num_streams', E.mkdict([(k, old[k][0]) for k in KINDS])),
            ('stream_starttimes', E.mkdict([(k, E.mklist([old[k][1]])) for k in KINDS]))]))]))
    before = E.len(E.attr(agg, 'circ_info'))
    nth_s, nth = number(E, 'nth', [1, 1, 2, 0])
    host, hv = literal(E, 'host') if not lists else literal_none(E, 'host')
    ip, iv = literal(E, 'ip') if not lists else literal_none(E, 'ip')
    r = E.m(agg, '_handle_stream_event', E.mklist([chan, circ, strm, port_s, read_s, write_s, start_s, end_s, host, ip, nth_s]))
    E.prove('accepted', r.ok and E.eq(r.value, True), (r.exc, r.where))
    incs = E.logged_known('inc')
    if E.truth(E.Or(E.lt(read, 0), E.lt(write, 0), E.le(E.add(read, write), 0))):
        E.prove('empty-not-counted', len(incs) == 0 and E.eq(E.len(E.attr(agg, 'circ_info')), before))
        return
    if E.truth(E.Or(E.eq(port, 80), E.eq(port, 443))):
        kind = 'Web'
    elif E.truth(E.Or(*[E.eq(port, p) for p in INTERACTIVE])):
        kind = 'Interactive'
    elif E.truth(E.Or(*[E.And(E.ge(port, lo), E.le(port, hi)) for lo, hi in P2P])):
        kind = 'P2P'
    else:
        kind = 'OtherPort'
    web = 'Web' if kind == 'Web' else 'NonWeb'
    place = 'Initial' if E.truth(E.eq(nth, 1)) else 'Subsequent'
    name = 'Hostname' if hv is None else 'IPv%dLiteral' % hv
    subs = ['', kind, place, name, name + place]
    if web == 'NonWeb':
        subs.append(web)
    if iv is not None:
        subs += ['IPv%d' % iv, 'IPv%d' % iv + place]
    if name == 'Hostname':
        subs += [name + web, name + web + place]
    total, life = E.add(read, write), E.sub(end, start)
    ratio = E.m(agg, '_encode_ratio', read, write).value
    want = []
    for s in subs:
        for n, b, i in (('StreamCount', '<', 1), ('StreamByteCount', '<', total), ('StreamOutboundByteCount', '<', write),
                        ('StreamInboundByteCount', '<', read)):
            want.append(('Exit' + s + n, b, i))
        want += histograms('Exit' + s, total, write, read, ratio, life)
    if name == 'Hostname' and web == 'Web' and place == 'Initial':
        if wants[0]:
            want += histograms('ExitDomain' + ('ExactMatch' if found == 0 else 'NoExactMatch') + 'WebInitial', total, write, read, ratio, life)
            want += listed('ExitDomainExactMatchWebInitial', float('inf') if found is None else found, total, write, read)
        if wants[1]:
            b = found if found is not None else bin_s
            want += histograms('ExitDomain' + ('SuffixMatch' if b == 0 else 'NoSuffixMatch') + 'WebInitial', total, write, read, ratio, life)
            want += listed('ExitDomainSuffixMatchWebInitial', float('inf') if b is None else b, total, write, read)
            for o, s, sep in E.logged_known('suffix'):
                E.prove('right-host', E.And(o == 'suffixes', E.eq(s, host), E.eq(sep, '.')))
        for s, in E.logged_known('searched'):
            E.prove('right-host', E.eq(s, host))
    else:
        E.prove('only-first-web-hosts', len(E.logged_known('searched')) + len(E.logged_known('suffix')) == 0)
    compare(E, incs, want)
    mine = E.item(E.item(E.attr(agg, 'circ_info'), 7), 9)
    for k in KINDS:
        n, t = (old[k][0], [old[k][1]]) if old else (0, [])
        E.prove('remembered', E.And(E.eq(E.item(E.item(mine, 'num_streams'), k), E.add(n, 1) if k == kind else n),
                                    E.eq(E.item(E.item(mine, 'stream_starttimes'), k), E.mklist(t + [start] if k == kind else t))))


def histograms(prefix, total, write, read, ratio, life):
    return [(prefix + n, b, 1) for n, b in zip(HISTOGRAMS, (total, write, read, ratio, life))]


def listed(prefix, b, total, write, read):
    return [(prefix + n + 'List', b, i) for n, i in zip(COUNTS, (1, total, write, read))]


def compare(E, incs, want):
    """Exactly the wanted increments, each once."""
    got = {}
    for n, b, i in incs:
        got.setdefault(n, []).append((b, i))
    E.prove('each-once', sorted(got) == sorted(set(w[0] for w in want)) and len(incs) == len(want),
            (sorted(set(got) - set(w[0] for w in want))[:5], sorted(set(w[0] for w in want) - set(got))[:5]))
    for n, b, i in want:
        E.prove('right-amounts', len(got[n]) == 1 and E.And(E.eq(got[n][0][1], i), single(E, got[n][0][0]) if isinstance(b, str) else E.eq(got[n][0][0], b)), n)


def single(E, b):
    """The placeholder of single-bin counters."""
    return E.typename(b) == 'float' and E.Not(E.eq(b, b))


def literal_none(E, name):
    s = E.str(name)
    E.log('address', s, None)
    return s, None


OPTS = dict(contracts=LIB, summaries=TEXT, mods=MODS, strfacts=False, strings='abs', max_paths=8000, time=200)
TARGETS = [A + '._handle_stream_event', A + '._increment_stream_end_counters', A + '._increment_stream_end_histograms', A + '._classify_port',
           A + '._classify_port_web', A + '._is_port_web', A + '._p2p_port_set']


@unit('P20', 'stream', TARGETS, expects=['accepted', 'empty-not-counted', 'each-once', 'right-amounts', 'remembered'], **OPTS)
def any_stream(E):
    """Any stream, without domain lists."""
    stream(E, False)


@unit('P20', 'lists', [A + '._handle_stream_event', A + '._increment_stream_end_count_lists', A + '._exact_match_bin'],
      expects=['each-once', 'right-amounts', 'right-host', 'only-first-web-hosts'], **OPTS)
def listed_stream(E):
    """Any host, with domain lists."""
    stream(E, True)


@unit('P20', 'ratio', [A + '._encode_ratio'], expects=['finite', 'no-traffic', 'one-way'], mods=MODS)
def encoded(E):
    agg = aggregator(E)
    into, out = E.int('in', 0, 2 ** 60), E.int('out', 0, 2 ** 60)
    r = E.m(agg, '_encode_ratio', into, out)
    E.prove('finite', r.ok, (r.exc, r.where))
    if E.truth(E.And(E.eq(into, 0), E.eq(out, 0))):
        E.prove('no-traffic', E.eq(r.value, 0))
    elif E.truth(E.eq(into, 0)):
        E.prove('one-way', E.And(E.gt(r.value, 100), E.lt(r.value, 10 ** 6)))
    elif E.truth(E.eq(out, 0)):
        E.prove('one-way', E.And(E.lt(r.value, -100), E.gt(r.value, -10 ** 6)))
    elif E.concrete:
        E.prove('finite', abs(2.0 ** r.value - out / float(into)) <= 1e-6 * (out / float(into)))
