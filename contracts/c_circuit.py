# P21: every closed circuit is counted exactly once in each breakdown of the circuit counters
from registry import unit
from c_stream import A, LIB, MODS, KINDS, number, ratio_of, aggregator, single
from lib_events import compare, events_of

EVENT = 'PRIVCOUNT_CIRCUIT_CLOSE'
HOPS = ['Origin', 'Entry', 'Mid', 'End']
ROLES = HOPS + ['Exit', 'Dir']
HIDDEN = ['HSDir', 'Intro', 'Rend']
CELLS = ['ReceivedCellCount', 'SentCellCount', 'ExitCellCount']


def flag(E, name):
    return E.truth(E.bool(name))


def fields_of(E, legacy, start, end, **more):
    f = {'EventTimestamp': end, 'CreatedTimestamp': start, 'IsLegacyCircuitEndEventFlag': legacy, 'StateString': 'open', 'PurposeCode': '5'}
    f.update(more)
    return f


def spread(base, *mods):
    out = ['']
    for m in mods:
        out += [o + m for o in out]
    return [base[0] + o + base[1] for o in out]


def breakdowns(roles, position, role, hop, version, active, failed):
    """The beginnings of the names of the counters of a circuit."""
    heads = list(roles)
    if position:
        for p in ['', role, hop + role] if role else ['']:
            heads += [position + p, position + p + version]
    out = []
    for h in heads:
        # exits, directories and hidden service directories are active by definition
        split = [] if h.startswith(('Exit', 'Dir', 'HSDir')) else ['Active' if active else 'Inactive']
        out += spread((h, 'Circuit'), *(split + ['Failure' if failed else 'Success']))
    return out


def circuit(E, roles, positions, counts):
    events_of(E, 'ZeroCount')
    f = fields_of(E, '0', '100.5', '200.25')
    start, end = 100.5, 200.25
    is_ = dict.fromkeys(ROLES + HIDDEN, False)
    place = E.pick('position', positions)
    for r in roles:
        is_[r] = flag(E, r)
        f['Is%sFlag' % r] = '1' if is_[r] else '0'
    for p in positions:
        if p is not None:
            is_[p] = p == place
            f['Is%sFlag' % p] = '1' if p == place else '0'
    failed = flag(E, 'failed')
    client = None if counts else E.pick('client', [None, True, False])
    version = E.pick('version', [None, 2] if counts else [None, 2, 3])
    if client is not None:
        f['IsHSClientSideFlag'] = '1' if client else '0'
    if version is not None:
        f['HiddenServiceVersionNumber'] = str(version)
    agg = aggregator(E, circuit_failure_exact_objs=E.mklist([E.stub('list0'), E.stub('list1')]))
    objs = E.attr(agg, 'circuit_failure_exact_objs')
    reason = None
    if failed:
        f['FailureReasonString'] = 'DESTROYED'
        reason = E.pick('reason', [None, 0, 1]) if counts else 1
        for i in range(2):
            E.log('in', E.item(objs, i), reason == i)
    into = out = 0
    if counts:
        start_s, start = number(E, 'start', [0.0, 1.5, 100.25], 'float')
        end_s, end = number(E, 'end', [4.0, 100.25], 'float')
        E.assume(E.And(E.ge(start, 0), E.lt(start, 4e9), E.ge(end, 0), E.lt(end, 4e9)))
        f.update(CreatedTimestamp=start_s, EventTimestamp=end_s)
        ins, outs = [], []
        for d, ns in (('Inbound', ins), ('Outbound', outs)):
            for c in CELLS:
                s, v = number(E, d + c, [0, 1, 3, 4, 5, 8, 1000])
                E.assume(E.ge(v, 0))
                f[d + c] = s
                ns.append(v)
        into, out = largest(E, ins), largest(E, outs)
        busy = E.truth(E.ge(E.add(into, out), 8))
    else:
        busy = flag(E, 'busy')
        out = 9 if busy else 0
        f['OutboundSentCellCount'] = str(out)
    r = E.m(agg, '_handle_circuit_close_event', E.mkdict(sorted(f.items())))
    E.prove('accepted', r.ok and E.eq(r.value, True), (r.exc, r.where))
    active = busy or is_['Exit'] or is_['Dir'] or is_['HSDir']
    if (is_['Intro'] or is_['Rend']) and version is None:
        active = False
    position = next((p for p in HIDDEN if is_[p]), None)
    role = None if client is None else 'Client' if client else 'Service'
    single = is_['Entry'] and is_['End']
    hop = 'MultiHop' if not single else 'Tor2web' if client else 'SingleOnion'
    roles = [x for x in ROLES if is_[x]] + (['SingleHop'] if single else [])
    heads = breakdowns(roles, position, role, hop, str(version or 'U'), active, failed)
    ratio = E.m(agg, '_encode_ratio', into, out).value
    suffixes = [('Count', '<', 1), ('InboundCellCount', '<', into), ('OutboundCellCount', '<', out), ('InboundCellHistogram', into, 1),
                ('OutboundCellHistogram', out, 1), ('LifeTime', E.sub(end, start), 1)]
    if active:
        suffixes.append(('CellRatio', ratio, 1))
    if failed:
        suffixes.append(('ReasonCountList', float('inf') if reason is None else reason, 1))
    want = [(h + s, b, i) for h in heads for s, b, i in suffixes]
    if is_['Exit']:
        want += [('ExitAndRend2ClientCircuitCount', '<', 1), ('ExitAndRend2ServiceCircuitCount', '<', 1)]
    elif is_['Rend'] and version == 2 and role:
        want.append(('ExitAndRend2%sCircuitCount' % role, '<', 1))
    compare(E, want, EVENT)


def largest(E, vs):
    m = vs[0]
    for v in vs[1:]:
        m = E.ite(E.gt(v, m), v, m)
    return m


OPTS = dict(contracts=LIB, summaries={A + '._encode_ratio': ratio_of}, mods=MODS, strfacts=False, strings='abs', max_paths=20000, time=400)
TARGETS = [A + '._handle_circuit_close_event', A + '._increment_circuit_close_counters', A + '._increment_circuit_close_status_counters',
           A + '._increment_circuit_close_hs_status_counters', A + '._get_cell_counts', A + '._is_circuit_active', A + '.get_hs_version',
           A + '.are_circuit_close_fields_valid', A + '.are_circuit_common_fields_valid']


@unit('P21', 'names', TARGETS, expects=['accepted', 'each-once', 'requested', 'right-amounts'], **OPTS)
def names(E):
    """Any mix of hops, with any position, side and version."""
    circuit(E, HOPS, [None, 'Exit', 'Dir', 'HSDir', 'Intro', 'Rend'], False)


@unit('P21', 'amounts', TARGETS, expects=['accepted', 'each-once', 'requested', 'right-amounts'], **OPTS)
def amounts(E):
    """Any cell counts and times."""
    circuit(E, [], ['Intro', 'Dir'], True)


def gaps(E, times):
    """The differences between successive times, in order."""
    ts = sorted(times)
    return [ts[i + 1] - ts[i] for i in range(len(ts) - 1)]


def known_address(E, a, k):
    return a[0]


LEGACY = [A + '._handle_circuit_close_event', A + '._handle_legacy_exit_circuit_event', A + '._get_cell_counts', A + '._is_circuit_active']
LEGACY_OPTS = dict(OPTS, contracts=dict(LIB, **{'config.validate_ip_address': known_address}))


def legacy_fields(E, **more):
    f = fields_of(E, '1', more.pop('start', '100.5'), '200.25', PreviousChannelId='7', PreviousCircuitId='9', InboundExitByteCount='10',
                  OutboundExitByteCount='20', PreviousNodeIPAddress='1.2.3.4', NextNodeIPAddress='5.6.7.8')
    f.update(more)
    return E.mkdict(sorted(f.items()))


@unit('P21', 'exits', LEGACY, expects=['accepted', 'each-once', 'requested', 'right-amounts', 'forgotten'],
      bounded='up to two streams of each class, with fixed times', **LEGACY_OPTS)
def exits(E):
    """Any circuit that exits here, with any streams before."""
    known = flag(E, 'known_circuit')
    nums, times = {}, {}
    agg = aggregator(E)
    more = E.truth(E.bool('more_circuits'))
    if known:
        for k in KINDS:
            n = E.pick('streams' + k, [0, 1, 2])
            nums[k] = n
            times[k] = [3.5 * len(k) + 2.0 * i * (-1) ** len(k) for i in range(n)]
        circ = [(9, E.mkdict([('num_streams', E.mkdict([(k, nums[k]) for k in KINDS])),
                              ('stream_starttimes', E.mkdict([(k, E.mklist(times[k])) for k in KINDS]))]))]
        if more:
            circ.append((10, 'other circuit'))
        E.put(E.attr(agg, 'circ_info'), 7, E.mkdict(circ))
    E.put(E.attr(agg, 'circ_info'), 8, E.mkdict([(9, 'circuit of another channel')]))
    r = E.m(agg, '_handle_circuit_close_event', legacy_fields(E, IsExitFlag='1', IsEntryFlag='0', IsEndFlag='0'))
    E.prove('accepted', r.ok and E.eq(r.value, True), (r.exc, r.where))
    incs = {}
    for n, b, i in E.logged_known('inc'):
        if 'Stream' in n or n in ['Exit%sCircuitCount' % k for k in KINDS]:
            incs.setdefault(n, []).append((b, i))
    want = {}
    total = sum(nums.values())
    if total > 0:
        want['ExitCircuitStreamHistogram'] = [(total, 1)]
        want['ExitCircuitInterStreamCreationTime'] = [(g, 1) for g in gaps(E, sum([times[k] for k in KINDS], []))]
        for k in KINDS:
            if nums[k] > 0:
                want['Exit%sCircuitCount' % k] = [('<', 1)]
                want['ExitCircuit%sStreamHistogram' % k] = [(nums[k], 1)]
                want['ExitCircuit%sInterStreamCreationTime' % k] = [(g, 1) for g in gaps(E, times[k])]
    want = dict((n, want[n]) for n in want if want[n])
    E.prove('each-once', sorted(incs) == sorted(want), (sorted(incs), sorted(want)))
    E.prove('requested', all(EVENT in (events_of(E, n) or ()) for n in want), sorted(want))
    for n in want:
        got = incs.get(n, [])
        E.prove('right-amounts', len(got) == len(want[n]), (n, got, want[n]))
        if len(got) != len(want[n]):
            continue
        if len(want[n]) == 1 and want[n][0][0] == '<':
            E.prove('right-amounts', E.And(single(E, got[0][0]), E.eq(got[0][1], 1)), n)
        else:
            E.prove('right-amounts', sorted(got) == sorted(want[n]), (n, got, want[n]))
    info = E.attr(agg, 'circ_info')
    mine = E.get_or(info, 7, None)
    E.prove('forgotten', E.And(E.is_none(mine) if not (known and more) else E.And(E.eq(E.len(mine), 1), E.has(mine, 10)),
                               E.eq(E.item(E.item(info, 8), 9), 'circuit of another channel')))


@unit('P21', 'clients', LEGACY, expects=['accepted', 'seen-now', 'seen-before', 'counted', 'others-kept'], **LEGACY_OPTS)
def clients(E):
    """Any circuit of a client, with any clients before."""
    def client(E, k):
        c = [('is_active', E.bool('was_active'))]
        if E.truth(E.bool('has_counts')):
            c += [('num_active_completed', E.int('n_active', 0, 1000)), ('num_inactive_completed', E.int('n_inactive', 0, 1000))]
        return E.mkdict(c)

    def old(E, d):
        c = E.get_or(d, '1.2.3.4', None)
        if E.is_none(c):
            return None
        return dict((n, E.get_or(c, n, 0)) for n in ('is_active', 'num_active_completed', 'num_inactive_completed'))
    now = E.mkdict([])
    before = E.mkdict([])
    for d, n in ((now, 'now'), (before, 'before')):
        if E.truth(E.bool('known_' + n)):
            E.put(d, '1.2.3.4', client(E, n))
        E.put(d, '9.9.9.9', n + ' other')
    was, was_before = old(E, now), old(E, before)
    rotated = E.float('rotated', 0, 4e9, finite=True)
    start_s, start = number(E, 'start', [1.5, 100.25], 'float')
    E.assume(E.And(E.ge(start, 0), E.lt(start, 4e9)))
    cells_s, cells = number(E, 'cells', [0, 7, 8, 9])
    E.assume(E.ge(cells, 0))
    agg = aggregator(E, cli_ips_current=now, cli_ips_previous=before, cli_ips_rotated=rotated)
    r = E.m(agg, '_handle_circuit_close_event', legacy_fields(E, start=start_s, IsEntryFlag='1', IsExitFlag='0', InboundSentCellCount=cells_s))
    E.prove('accepted', r.ok and E.eq(r.value, True), (r.exc, r.where))
    now, before = E.attr(agg, 'cli_ips_current'), E.attr(agg, 'cli_ips_previous')
    is_, was_b = old(E, now), old(E, before)
    active = E.ge(cells, 8)
    if is_ is None:
        E.fail('seen-now')
        return
    E.prove('seen-now', E.Iff(is_['is_active'], E.Or(was['is_active'] if was else False, active)))
    for n, a in (('num_active_completed', active), ('num_inactive_completed', E.Not(active))):
        E.prove('counted', E.eq(is_[n], E.add(was[n] if was else 0, E.ite(a, 1, 0))), n)
    if E.truth(E.lt(start, rotated)):
        E.prove('seen-before', was_b is not None and E.Iff(was_b['is_active'], E.Or(was_before['is_active'] if was_before else False, active)))
    else:
        E.prove('seen-before', (was_b is None) == (was_before is None) and (was_b is None or E.Iff(was_b['is_active'], was_before['is_active'])))
    E.prove('others-kept', E.And(E.eq(E.item(now, '9.9.9.9'), 'now other'), E.eq(E.item(before, '9.9.9.9'), 'before other')))


@unit('P21', 'rotation', [A + '._do_rotate'], expects=['rotated', 'totals', 'each-client-once', 'moved'], contracts=dict(LIB), mods=MODS,
      bounded='up to three clients')
def rotation(E):
    """Any clients of the window that ends."""
    def client(E, k):
        return E.mkdict([('is_active', E.bool('active')), ('num_active_completed', E.int('n_active', 0, 1000)),
                         ('num_inactive_completed', E.int('n_inactive', 0, 1000))])
    n = E.pick('clients', [0, 1, 2, 3])
    ips = ['10.0.0.%d' % i for i in range(n)]
    cs = [client(E, i) for i in ips]
    now = E.mkdict([('1.1.1.1', 'client')])
    agg = aggregator(E, cli_ips_current=now, cli_ips_previous=E.mkdict(list(zip(ips, cs))), cli_ips_rotated=5.0, num_rotations=4, last_event_time=1.0)
    E.assume(E.gt(E.clock(), 5.0))
    r = E.m(agg, '_do_rotate')
    E.prove('rotated', r.ok, (r.exc, r.where))
    active = 0
    for c in cs:
        active = E.add(active, E.ite(E.item(c, 'is_active'), 1, 0))
    incs = {}
    for name, b, i in E.logged_known('inc'):
        incs.setdefault(name, []).append((b, i))
    for name, want in (('EntryClientIPCount', n), ('EntryActiveClientIPCount', active), ('EntryInactiveClientIPCount', E.sub(n, active))):
        got = incs.get(name, [])
        E.prove('totals', len(got) == 1 and E.And(single(E, got[0][0]), E.eq(got[0][1], want)), name)
    for name, key in (('EntryClientIPActiveCircuitHistogram', 'num_active_completed'), ('EntryClientIPInactiveCircuitHistogram', 'num_inactive_completed')):
        got = incs.get(name, [])
        if E.concrete:
            E.prove('each-client-once', sorted(got) == sorted((c[key], 1) for c in cs), name)
            continue
        E.prove('each-client-once', len(got) == n and E.And(*[E.And(E.eq(b, E.item(c, key)), E.eq(i, 1)) for (b, i), c in zip(got, cs)]), name)
    E.prove('moved', E.And(E.same(E.attr(agg, 'cli_ips_previous'), now), E.eq(E.len(E.attr(agg, 'cli_ips_current')), 0),
                           E.Not(E.same(E.attr(agg, 'cli_ips_current'), now)), E.gt(E.attr(agg, 'cli_ips_rotated'), 5.0), E.eq(E.attr(agg, 'num_rotations'), 5)))
