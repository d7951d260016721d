# P12: the rounds of the tally server: shares before counting, everyone's counts before results
from registry import unit

PHASE = 'tally_server.CollectionPhase'
STATES = ['new', 'starting_dcs', 'starting_sks', 'started', 'stopping', 'stopped']
MODS = ['tally_server', 'log', 'config', 'counter', 'node']
OPTS = dict(mods=MODS, strfacts=False, strings='abs')
BINS = {'counter.count_bins': lambda E, a, k: E.int('bins', 0, 100, inp=False)}       # for log messages only
TEXT = {'tally_server.TallyServer.get_client_display_name': lambda E, a: E.str('text', inp=False)}
UIDS = ['a', 'b', 'c', 'd', 'e', 'f']


def uid(E, name):
    return E.str(name, gen=UIDS)


def any_uid(E):
    return E.str('uid', gen=UIDS, inp=False) if not E.concrete else E.rng.choice(UIDS)


def nothing(E, k):
    return None


def phase(E, xs, states=STATES):
    """A collection phase in an arbitrary state that satisfies the invariant for the (different) clients xs."""
    st = E.pick('state', states)
    error = E.truth(E.bool('error')) if st in ('stopping', 'stopped') else False
    unstarted = st == 'stopped' and E.truth(E.bool('never_started'))
    D, S, need, want, final = [], [], [], [], []
    for x in xs:
        role = E.pick('role', ['dc', 'sk', None])
        if role:
            (D if role == 'dc' else S).append(x)
        may = {'starting_dcs': role == 'dc', 'starting_sks': role == 'sk', 'stopping': True, 'stopped': True}.get(st, False)
        if may and E.truth(E.bool('in_need_shares')):
            need.append(x)
        asked = role and st == 'stopping' and E.truth(E.bool('in_need_counts'))
        if asked:
            want.append(x)
        elif role and st in ('stopping', 'stopped') and not unstarted and (not error or E.truth(E.bool('in_final'))):
            final.append(x)
    others = lambda n, ys, ok: E.dict(n, any_uid, lambda E, k: 'counts', has=ys, hasnot=[x for x in xs if not any(x is y for y in ys)]) if ok \
        else E.mkdict([])
    D, S = others('dcs', D, True), others('sks', S, True)
    if E.concrete:
        for x in list(S):
            if x in D:
                del S[x]
    p = E.new(PHASE, 100, E.mkdict([]), None, E.mkdict([]), E.mkdict([]), E.int('threshold', 1, 5), E.keys(S), E.mkdict([]), E.keys(D), 2 ** 70, 10,
              100, 1.0, *([E.mklist([])] * 8 + [E.mkdict([])]))
    some = lambda n, ys, ok: E.symset(n, any_uid, has=ys, hasnot=[x for x in xs if not any(x is y for y in ys)]) if ok else E.mkset([])
    E.set(p, 'state', st)
    E.set(p, 'starting_ts', None if st == 'new' or unstarted else E.float('t0', 0, 4e9))
    E.set(p, 'stopping_ts', E.float('t1', 0, 4e9) if st in ('stopping', 'stopped') else None)
    E.set(p, 'need_shares', some('need_shares', need, st not in ('new', 'started')))
    E.set(p, 'need_counts', some('need_counts', want, st == 'stopping'))
    E.set(p, 'final_counts', others('final', final, st in ('stopping', 'stopped') and not unstarted))
    E.set(p, 'error_flag', error)
    if E.concrete:
        n = E.attr(p, 'need_shares')
        pool = {'starting_dcs': D, 'starting_sks': S}.get(st, dict(D, **S))
        for x in list(n):
            if x not in pool and x not in xs:
                n.discard(x)
        for n in (E.attr(p, 'need_counts'), E.attr(p, 'final_counts')):
            for x in list(n):
                if x not in D and x not in S and x not in xs:
                    n.remove(x) if isinstance(n, set) else n.pop(x)
    E.assume(inv(E, p, D, S, xs))
    return p, D, S


def inv(E, p, D, S, xs):
    """The invariant of a phase, for the clients xs."""
    st, need, want = E.attr(p, 'state'), E.attr(p, 'need_shares'), E.attr(p, 'need_counts')
    final, error = E.attr(p, 'final_counts'), E.attr(p, 'error_flag')
    out = [E.Implies(error, E.Or(E.eq(st, 'stopping'), E.eq(st, 'stopped')))]
    for x in xs:
        n, w, f = E.has(need, x), E.has(want, x), E.has(final, x)
        member = E.Or(E.has(D, x), E.has(S, x))
        out += [E.Implies(E.eq(st, 'new'), E.Not(n)),
                E.Implies(E.eq(st, 'starting_dcs'), E.Implies(n, E.has(D, x))),
                E.Implies(E.eq(st, 'starting_sks'), E.Implies(n, E.has(S, x))),
                E.Implies(E.eq(st, 'started'), E.Not(n)),
                E.Implies(w, E.eq(st, 'stopping')), E.Implies(w, member),
                E.Implies(f, E.And(member, E.Not(w))),
                # everyone who has been asked and has answered has delivered counts, or the round has failed
                E.Implies(E.And(E.Or(E.eq(st, 'stopping'), E.eq(st, 'stopped')), E.Not(error), member, E.Not(w)),
                          E.Or(f, E.is_none(E.attr(p, 'starting_ts')))),
                E.Implies(f, E.Or(E.eq(st, 'stopping'), E.eq(st, 'stopped')))]
    return E.And(*out)


def snap(E, p, xs):
    return (E.attr(p, 'state'), [(E.has(E.attr(p, 'need_shares'), x), E.has(E.attr(p, 'need_counts'), x),
                                  E.has(E.attr(p, 'final_counts'), x)) for x in xs], E.attr(p, 'error_flag'))


def same(E, a, b):
    out = [E.eq(a[0], b[0]), E.Iff(a[2], b[2])]
    for x, y in zip(a[1], b[1]):
        out += [E.Iff(i, j) for i, j in zip(x, y)]
    return E.And(*out)


@unit('P12', 'shares', [PHASE + '.store_data'], summaries=TEXT, expects=['invariant', 'missing-changes-nothing', 'counted-once',
      'share-kept', 'sks-wait-for-all-dcs', 'started-after-all-sks', 'others-unchanged'], max_paths=20000, contracts=BINS, **OPTS)
def shares(E):
    u, v, s = uid(E, 'u'), uid(E, 'v'), uid(E, 's')
    E.assume(E.ne(u, v))
    p, D, S = phase(E, [u, v])
    enc = E.dict('enc', any_uid, lambda E, k: E.mklist(['old']), generic=[s])
    E.set(p, 'encrypted_shares', enc)
    if E.truth(E.bool('data_none')):
        data = None
    else:
        data = E.dict('data', any_uid, lambda E, k: 'new', generic=[s])
    b = snap(E, p, [u, v])
    had = E.truth(E.has(enc, s))
    r = E.run(E.attr(p, 'store_data'), u, data, True)
    E.prove('no-error', r.ok, (r.exc, r.where))
    a = snap(E, p, [u, v])
    E.prove('invariant', inv(E, p, D, S, [u, v]))
    isdc, n0 = E.has(D, u), b[1][0][0]
    enc = E.attr(p, 'encrypted_shares')
    if data is None:
        E.prove('missing-changes-nothing', same(E, a, b))
    took = E.And(isdc, n0, E.has(data, s)) if data is not None else False
    if E.truth(took):
        now = E.get_or(enc, s)
        E.prove('share-kept', E.And(E.eq(E.len(now), 2 if had else 1), E.eq(E.item(now, -1), 'new')))
    else:
        E.prove('counted-once', E.eq(E.has(enc, s), had) if not had else E.eq(E.len(E.get_or(enc, s)), 1))
    E.prove('counted-once', E.Implies(E.And(isdc, data is not None, E.eq(a[0], b[0])), E.Not(a[1][0][0])))
    # a change of phase needs the answer of every other client
    E.prove('sks-wait-for-all-dcs', E.Implies(E.And(E.ne(a[0], b[0]), E.eq(a[0], 'starting_sks')),
                                              E.And(E.eq(b[0], 'starting_dcs'), E.Not(b[1][1][0]), isdc,
                                                    E.Iff(a[1][0][0], E.has(S, u)), E.Iff(a[1][1][0], E.has(S, v)))))
    E.prove('started-after-all-sks', E.Implies(E.And(E.ne(a[0], b[0]), E.ne(a[0], 'starting_sks')),
                                               E.And(E.eq(b[0], 'starting_sks'), E.eq(a[0], 'started'), E.Not(b[1][1][0]), E.has(S, u))))
    E.prove('others-unchanged', E.Implies(E.eq(a[0], b[0]), E.Or(b[0] == 'stopping', b[0] == 'stopped', E.Iff(a[1][1][0], b[1][1][0]))))


@unit('P12', 'counts', [PHASE + '.store_data'], summaries=TEXT, expects=['invariant', 'counts-kept', 'incomplete-fails-round', 'once', 'others-unchanged'],
      max_paths=20000, contracts=BINS, **OPTS)
def counts(E):
    u, v = uid(E, 'u'), uid(E, 'v')
    E.assume(E.ne(u, v))
    p, D, S = phase(E, [u, v])
    kind = E.pick('data', ['none', 'full', 'empty', 'missing'])
    if kind == 'none':
        data = None
    else:
        data = E.mkdict([('Config', E.mkdict([('a', 1)]))] if E.truth(E.bool('config')) else [])
        if kind == 'full':
            data2 = E.dict('counts', any_uid, nothing, has=['label'])
            E.put(data, 'Counts', data2)
        elif kind == 'empty':
            E.put(data, 'Counts', E.mkdict([]))
    b = snap(E, p, [u, v])
    r = E.run(E.attr(p, 'store_data'), u, data, False)
    E.prove('no-error', r.ok, (r.exc, r.where))
    a = snap(E, p, [u, v])
    E.prove('invariant', inv(E, p, D, S, [u, v]))
    E.prove('others-unchanged', E.And(E.eq(a[0], b[0]), *[E.Iff(x, y) for x, y in zip(a[1][1], b[1][1])]))
    E.prove('others-unchanged', E.Iff(a[1][0][0], b[1][0][0]))
    final, wanted, err = E.attr(p, 'final_counts'), b[1][0][1], E.truth(b[2])
    if kind == 'none' or not E.truth(wanted):
        # a late, second or missing answer changes nothing
        E.prove('once', same(E, a, b))
        if E.truth(b[1][0][2]):
            E.prove('once', E.eq(E.item(final, u), 'counts'))
        return
    E.prove('once', E.Not(a[1][0][1]))
    if kind == 'full':
        E.prove('counts-kept', E.Iff(a[2], b[2]))
        if not err:
            E.prove('counts-kept', E.same(E.get_or(final, u), data2))
    else:
        E.prove('incomplete-fails-round', a[2])


@unit('P12', 'stop', [PHASE + '.stop'], summaries=TEXT, contracts=dict(BINS, **{'time.time': lambda E, a, k: E.clock()}),
      expects=['invariant', 'everyone-asked', 'aborted-without-counts', 'stopped-after-all', 'answers-kept'], max_paths=20000, **OPTS)
def stop(E):
    u, v = uid(E, 'u'), uid(E, 'v')
    E.assume(E.ne(u, v))
    p, D, S = phase(E, [u, v])
    b = snap(E, p, [u, v])
    r = E.run(E.attr(p, 'stop'))
    E.prove('no-error', r.ok, (r.exc, r.where))
    a = snap(E, p, [u, v])
    E.prove('invariant', inv(E, p, D, S, [u, v]))
    for x, (n, w, f) in zip((u, v), a[1]):
        if b[0] in ('starting_dcs', 'starting_sks', 'started'):
            E.prove('everyone-asked', E.And(E.eq(a[0], 'stopping'), E.Iff(w, E.Or(E.has(D, x), E.has(S, x)))))
        if b[0] == 'starting_dcs':
            E.prove('aborted-without-counts', a[2])
        E.prove('stopped-after-all', E.Implies(E.eq(a[0], 'stopped'), E.Not(w)))
    if b[0] in ('stopping', 'stopped'):
        E.prove('answers-kept', E.And(E.Or(E.eq(a[0], b[0]), E.eq(a[0], 'stopped')), E.Iff(a[2], b[2]),
                                      *[E.And(E.Iff(x[1], y[1]), E.Iff(x[2], y[2])) for x, y in zip(a[1], b[1])]))


@unit('P12', 'begin', [PHASE + '.start'], summaries=TEXT, contracts=dict(BINS, **{'time.time': lambda E, a, k: E.clock()}),
      expects=['invariant', 'every-dc-asked'], **OPTS)
def begin(E):
    u = uid(E, 'u')
    p, D, S = phase(E, [u])
    b = snap(E, p, [u])
    r = E.run(E.attr(p, 'start'))
    E.prove('no-error', r.ok, (r.exc, r.where))
    a = snap(E, p, [u])
    E.prove('invariant', inv(E, p, D, S, [u]))
    if b[0] == 'new':
        E.prove('every-dc-asked', E.And(E.eq(a[0], 'starting_dcs'), E.Iff(a[1][0][0], E.has(D, u))))
    else:
        E.prove('every-dc-asked', same(E, a, b))


@unit('P12', 'orders', [PHASE + '.get_start_config', PHASE + '.get_stop_config', 'tally_server.TallyServer.get_start_config',
                        'tally_server.TallyServer.get_stop_config'], summaries=TEXT,
      expects=['start-when-needed', 'sk-gets-its-shares', 'stop-when-needed', 'counts-only-without-error', 'idle-stopped'], contracts=BINS, **OPTS)
def orders(E):
    u = uid(E, 'u')
    p, D, S = phase(E, [u])
    E.set(p, 'encrypted_shares', E.dict('enc', any_uid, lambda E, k: E.mklist(['share of', k]), has=[u]))
    running = E.truth(E.bool('running'))
    client = E.mkdict([(u, E.mkdict([('state', E.pick('client', ['active', 'idle']))]))]) if E.truth(E.bool('known')) else E.mkdict([])
    ts = E.raw('tally_server.TallyServer', collection_phase=p if running else None, clients=client)
    b = snap(E, p, [u])
    r, q = E.m(ts, 'get_start_config', u), E.m(ts, 'get_stop_config', u)
    E.prove('no-error', r.ok and q.ok, (r.exc, r.where, q.exc, q.where))
    E.prove('orders-change-nothing', same(E, snap(E, p, [u]), b))
    need, want = b[1][0][0], b[1][0][1]
    got, stop = not E.is_none(r.value), not E.is_none(q.value)
    if not running:
        E.prove('start-when-needed', not got)
        active = E.len(client) == 1 and E.item(E.item(client, u), 'state') == 'active'
        E.prove('idle-stopped', stop == active and (not stop or E.eq(E.item(q.value, 'send_counters'), False)))
        return
    E.prove('start-when-needed', E.Implies(got, E.And(need, E.Or(E.And(b[0] == 'starting_dcs', E.has(D, u)),
                                                                  E.And(b[0] == 'starting_sks', E.has(S, u))))))
    E.prove('start-when-needed', E.Implies(E.And(need, E.Or(b[0] == 'starting_dcs', b[0] == 'starting_sks')), got))
    if got and b[0] == 'starting_sks':
        E.prove('sk-gets-its-shares', E.eq(E.item(r.value, 'shares'), E.mklist(['share of', u])))
    E.prove('stop-when-needed', E.Iff(stop, want))
    if stop:
        E.prove('counts-only-without-error', E.Iff(E.truth(E.item(q.value, 'send_counters')), E.Not(b[2])))


def tally(E, a, k):
    """SecureCounters of a tally."""
    def add(E, a, k):
        E.log('tallied', a[0])
        return E.truth(E.bool('tally_ok', inp=False))
    return E.stub('counters', tally_counters=add, detach_counts=lambda E, a, k: E.mkdict([]))


@unit('P12', 'results', [PHASE + '.write_results'],
      contracts=dict(BINS, **{'counter.SecureCounters': tally, 'config.normalise_path': lambda E, a, k: a[0]}), summaries=TEXT,
      expects=['stopped-only', 'no-tally-after-error', 'tally-of-all'], cases=400, max_paths=20000, **OPTS)
def results(E):
    u = uid(E, 'u')
    p, D, S = phase(E, [u])
    E.override(p, 'write_json_file', lambda E, a, k: E.log('file', a[2], a[0]) or 'path')
    E.override(p, 'get_result_context', lambda E, a, k: E.mkdict([]))
    b = snap(E, p, [u])
    final = E.attr(p, 'final_counts')
    E.clear_log()
    r = E.run(E.attr(p, 'write_results'), 'results', 100.0)
    files = E.logged_known('file')
    if b[0] != 'stopped':
        E.prove('stopped-only', len(files) == 0 and r.ok)
        return
    published = [x for x in files if x[0] == 'privcount.tallies'] + [x for x in files if not E.is_none(x[1]) and E.truth(E.has(x[1], 'Tally'))]
    if E.truth(b[2]):
        E.prove('no-tally-after-error', len(published) == 0)
    if published:
        t = E.logged_known('tallied')
        member = E.Or(E.has(D, u), E.has(S, u))
        E.prove('tally-of-all', len(t) == 1 and E.truth(E.Implies(member, E.has(final, u))))
