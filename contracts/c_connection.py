# P22: every closed connection is counted exactly once in each breakdown of the connection counters
from registry import unit
from c_stream import A, MODS, number, aggregator
from lib_events import compare, events_of

EVENT = 'PRIVCOUNT_CONNECTION_CLOSE'


def address(E, a, k):
    return E.gget('address')


def as_number(E, a, k):
    E.log('lookup', a[0], a[1])
    return E.gget('as_number')


def exact(E, a, k):
    for o, what, hit in E.logged_known('in'):
        if E.same(o, a[0]):
            E.log('searched', what, a[1])
            return hit
    return False


LIB = {'config.validate_ip_address': address, 'match.exact_match': exact, 'match.ipasn_prefix_match': as_number}
OPTS = dict(contracts=LIB, mods=MODS, strfacts=False, strings='abs', max_paths=8000, time=300)
TARGETS = [A + '._handle_connection_close_event', A + '._increment_connection_close_variants', A + '._increment_connection_close_counts',
           A + '._increment_connection_close_histograms', A + '._increment_connection_close_count_lists', A + '._exact_match_bin',
           A + '.are_connection_close_fields_valid']


def optional(E, f, name, gen):
    if E.truth(E.bool('has_' + name)):
        f[name], v = number(E, name, gen)
        E.assume(E.ge(v, 0))
        return v
    return 0



def connection(E, amounts):
    events_of(E, 'ZeroCount')
    ip = 4 if amounts else E.pick('ip', [4, 6])
    addr = E.stub('address', version=ip)
    E.gset('address', addr)
    maps = dict((v, 'map%d' % v) for v in ([4, 6] if amounts or E.truth(E.bool('all_maps')) else [4]))
    as_nr = 1234 if amounts else E.pick('as', [None, 1234])
    E.gset('as_number', as_nr)
    country = 'de' if amounts else E.pick('country', [None, 'de'])
    hits = []
    agg = aggregator(E, country_exact_objs=E.mklist([E.stub('country%d' % i) for i in range(2)]),
                     as_exact_objs=E.mklist([E.stub('as%d' % i) for i in range(2)]),
                     as_prefix_map_objs=E.mkdict(sorted(maps.items())))
    for what in ('country', 'as'):
        hit = 0 if amounts else E.pick(what + '_list', [None, 0, 1])
        for i in range(2):
            E.log('in', E.item(E.attr(agg, what + '_exact_objs'), i), what, hit == i)
        hits.append(float('inf') if hit is None else hit)
    client = amounts or E.truth(E.bool('client'))
    f = {'ChannelId': '7', 'RemoteIsClientFlag': '1' if client else '0', 'RemoteIPAddress': '1.2.3.4'}
    if country is not None:
        f['RemoteCountryCode'] = country
    if amounts:
        start_s, start = number(E, 'start', [0.0, 1.5, 100.25], 'float')
        end_s, end = number(E, 'end', [4.0, 100.25], 'float')
        E.assume(E.And(E.ge(start, 0), E.lt(start, 4e9), E.ge(end, 0), E.lt(end, 4e9)))
        overlap_s, overlap = number(E, 'overlap', [0, 1, 2, 1000])
        E.assume(E.And(E.ge(overlap, 0), E.le(overlap, 2 ** 17)))
        relays_s, relays = number(E, 'relays', [0, 1, 2, 7])
        E.assume(E.And(E.ge(relays, 0), E.le(relays, 100)))
        into, out = optional(E, f, 'InboundByteCount', [0, 5, 10 ** 9]), optional(E, f, 'OutboundByteCount', [0, 7, 10 ** 8])
        cin, cout = optional(E, f, 'InboundCircuitCount', [0, 2, 300]), optional(E, f, 'OutboundCircuitCount', [0, 3, 40])
    else:
        start_s, start, end_s, end, overlap_s, overlap = '1.5', 1.5, '4.0', 4.0, '6', 6
        relays = E.pick('relays', [0, 1])
        relays_s = str(relays)
        f.update(InboundByteCount='5', OutboundByteCount='70', InboundCircuitCount='2', OutboundCircuitCount='11')
        into, out, cin, cout = 5, 70, 2, 11
    f.update(CreatedTimestamp=start_s, EventTimestamp=end_s, RemoteIPAddressConnectionCount=overlap_s, PeerIPAddressConsensusRelayCount=relays_s)
    r = E.m(agg, '_handle_connection_close_event', E.mkdict(sorted(f.items())))
    E.prove('accepted', r.ok and E.eq(r.value, True), (r.exc, r.where))
    heads = ['Entry' if client else 'NonEntry']
    heads.append(heads[0] + ('RelayOnAddress' if E.truth(E.gt(relays, 0)) else 'NoRelayOnAddress'))
    sums = [('', 1), ('Byte', E.add(into, out)), ('InboundByte', into), ('OutboundByte', out), ('Circuit', E.add(cin, cout)), ('InboundCircuit', cin),
            ('OutboundCircuit', cout)]
    counts = [(n + 'Count', '<', v) for n, v in sums]
    hists = [(n + 'Histogram', v, 1) for n, v in sums[1:] + [('Overlap', overlap)]] + [('LifeTime', E.sub(end, start), 1)]
    tails = counts + hists
    for what, b in (('Country', hits[0]), ('AS', hits[1])):
        tails += [(what + ('Match' if b == 0 else 'NoMatch') + n, x, i) for n, x, i in hists]
        tails += [(what + 'Match' + n + 'CountList', b, v) for n, v in sums]
    compare(E, [(h + 'Connection' + n, b, i) for h in heads for n, b, i in tails], EVENT)
    for what, value in E.logged_known('searched'):
        if what == 'country':
            E.prove('right-country', value == (country or '!!') if E.concrete else E.eq(value, country or '!!'))
        else:
            E.prove('right-network', E.is_none(value) if as_nr is None else E.eq(value, as_nr))
    for m, a in E.logged_known('lookup'):
        E.prove('right-address', E.And(E.same(a, addr), E.is_none(m) if ip not in maps else E.eq(m, maps[ip])))


@unit('P22', 'names', TARGETS, expects=['accepted', 'each-once', 'requested', 'right-amounts', 'right-country', 'right-network', 'right-address'], **OPTS)
def names(E):
    """Any client or relay, and any match of its country and network."""
    connection(E, False)


@unit('P22', 'amounts', TARGETS, expects=['accepted', 'each-once', 'right-amounts'], **OPTS)
def amounts(E):
    """Any numbers of bytes, circuits, relays and connections, and any times."""
    connection(E, True)
