# P13: what a share keeper does with shares, and when; P14: the same for the rounds of a data collector
import base64
from registry import unit

SK, DC = 'share_keeper.ShareKeeper', 'data_collector.DataCollector'
MODS = ['share_keeper', 'data_collector', 'node', 'counter', 'crypto', 'log', 'config', 'traffic_model']
OPTS = dict(mods=MODS, strfacts=False, strings='abs')
NUM = {'counter.count_bins': lambda E, a, k: E.int('bins', 0, 100, inp=False)}      # for log messages only


def none_refused(E, fr):
    return None if E.gget('refused') is None else E.Not(E.gget('refused'))


def key(E):
    return E.str('key', gen=['a', 'b', 'c', 'd'], inp=False) if not E.concrete else E.rng.choice('abcd')


def private_key(E, a, k):
    return E.cat('key:', a[0])


def decrypt(E, a, k):
    return E.func('decrypt', 'str', a[0], a[1])


def keystore(E, a, k):
    """SecureCounters of a share keeper (its methods are checked under P02)."""
    def imported(E, a, k):
        share = a[0]
        E.gset('imports', E.add(E.gget('imports'), 1))
        if E.gget('mine') is not None and E.same(share, E.gget('mine')):
            E.gset('mine_done', E.add(E.gget('mine_done'), 1))
            E.gset('mine_secret', E.item(share, 'secret'))
        ok = E.bool('import_ok', inp=False)
        E.gset('refused', E.Or(E.gget('refused'), E.Not(ok)))
        return ok

    def detach(E, a, k):
        E.log('detach')
        return E.gget('counts')

    E.log('keystore', a, k)
    s = E.stub('keystore', import_blinding_share=imported, detach_counts=detach)
    E.gset('made', s)
    return s


def share(E, i):
    return E.mkdict([('secret', E.str('enc', gen=['x', 'y', 'z'], inp=False)), ('sk_uid', 'u')])


def is_share(E, v):
    return E.typename(v) == 'dict' and E.has(v, 'secret') is True and E.typename(E.item(v, 'secret')) == 'str'


REDACTED = '(encrypted blinding share, deleted by share keeper)'


def is_redacted(E, v):
    return is_share(E, v) and E.eq(E.item(v, 'secret'), REDACTED)


SHAPES = {'redacted': (is_redacted, lambda E, k: E.mkdict([('secret', REDACTED), ('sk_uid', 'u')])),
          'share': (is_share, lambda E, k: share(E, k))}


def sk_new(E):
    sk = E.new(SK, 'path')
    E.set(sk, 'config', E.mkdict([('key', E.str('path', gen=['k1', 'k2'])), ('delay_period', 10), ('always_delay', False),
                                  ('sigma_decrease_tolerance', 0.5)]))
    return sk


@unit('P13', 'start', [SK + '.do_start'], loop_hints={SK + '.do_start': [none_refused]}, shapes=SHAPES, 
      contracts={'counter.count_bins': NUM['counter.count_bins'], 'counter.SecureCounters': keystore, 'crypto.load_private_key_file': private_key, 'crypto.decrypt': decrypt,
                 'config.normalise_path': lambda E, a, k: a[0]},
      expects=['all-shares-taken', 'own-secret', 'only-valid-config', 'checked-counters', 'refused', 'redacted'], **OPTS)
def start(E):
    sk = sk_new(E)
    E.set(sk, 'keystore', E.stub('old') if E.truth(E.bool('still_running')) else None)
    E.gset('imports', 0), E.gset('mine_done', 0), E.gset('refused', False), E.gset('mine_secret', None), E.gset('mine', None)
    config = E.mkdict([('counters', 'offered'), ('noise', 'noise')])
    has = E.truth(E.bool('has_shares'))
    n = 0
    if has:
        shares = E.list('shares', share, generic=True, shape='share')
        E.put(config, 'shares', shares)
        n = E.len(shares)
        g = E.generic('g')
        if E.truth(E.lt(g, n)):
            mine = E.item(shares, g)
            E.gset('mine', mine)
            enc = E.item(mine, 'secret')
    valid = E.truth(E.bool('valid'))
    combined = E.mkdict([('c', 1)])

    def check(E, a, k):
        E.log('check', a[0], k)
        return combined if valid else None
    E.override(sk, 'check_start_config', check)
    earlier = E.pick('earlier', ['none', 'same', 'other'])
    E.set(sk, 'start_config', None if earlier == 'none' else E.opaque('earlier') if earlier == 'other' else E.copy(config))
    if E.concrete and E.rng.random() < 0.3:      # any history: here, the same command twice
        E.run(E.attr(sk, 'do_start'), E.copy(config))
        for name, v in (('imports', 0), ('mine_done', 0), ('refused', False), ('mine_secret', None)):
            E.gset(name, v)
        E.clear_log()
    r = E.run(E.attr(sk, 'do_start'), config)
    E.prove('no-error', r.ok, (r.exc, r.where))
    started = not E.is_none(r.value)
    if started:
        E.prove('only-valid-config', E.And(has, valid, E.Not(E.gget('refused'))))
        E.prove('all-shares-taken', E.same(E.attr(sk, 'keystore'), E.gget('made')))
        made = E.logged_known('keystore')
        E.prove('checked-counters', len(made) == 1 and E.same(made[0][0][0], combined) and E.eq(made[0][0][1], 2 ** 70))
        if E.gget('mine') is not None:
            E.prove('all-shares-taken', E.eq(E.gget('mine_done'), 1))
            E.prove('own-secret', E.eq(E.gget('mine_secret'), E.func('decrypt', 'str', E.cat('key:', E.item(E.attr(sk, 'config'), 'key')), enc)))
    else:
        E.prove('refused', E.Or(E.Not(has), E.Not(valid), E.gget('refused')))
        E.prove('refused', E.is_none(E.attr(sk, 'keystore')))
    # what is kept for the context of the results holds no secret
    kept = E.get_or(E.attr(sk, 'start_config'), 'shares', None)
    if has:
        E.prove('redacted', E.eq(E.len(kept), n))
        h = E.generic('h')
        if E.truth(E.lt(h, n)):
            E.prove('redacted', E.eq(E.item(E.item(kept, h), 'secret'), REDACTED))


@unit('P13', 'stop', [SK + '.do_stop'], 
      contracts={'counter.count_bins': NUM['counter.count_bins'], 'config.normalise_path': lambda E, a, k: a[0], 'counter.SecureCounters': keystore},
      expects=['counts-of-this-keystore', 'forgotten'], **OPTS)
def stop(E):
    sk = sk_new(E)
    counts = E.mkdict([('c', 1)])
    E.gset('counts', counts)
    running = E.truth(E.bool('running'))
    E.set(sk, 'keystore', keystore(E, [], {}) if running else None)
    E.clear_log()
    order = E.mkdict([('send_counters', E.bool('wanted'))])

    def check(E, a, k):
        E.log('answer', a[0], a[1], E.is_none(E.attr(sk, 'keystore')))
        return 'response'
    E.override(sk, 'check_stop_config', check)
    r = E.run(E.attr(sk, 'do_stop'), order)
    E.prove('no-error', r.ok, (r.exc, r.where))
    ans = E.logged_known('answer')
    E.prove('counts-of-this-keystore', len(ans) == 1 and E.same(ans[0][0], order) and r.value == 'response')
    E.prove('counts-of-this-keystore', E.same(ans[0][1], counts) if running else E.is_none(ans[0][1]))
    # nothing can be answered twice
    E.prove('forgotten', ans[0][2] and E.is_none(E.attr(sk, 'keystore')) and len(E.logged_known('detach')) == int(running))


KEYS = ['counters', 'noise', 'noise_weight', 'dc_threshold', 'collect_period']


SIGNATURES = {
    'permitted': ['noise_allocation', 'start_time', 'delay_period', 'max_client_rtt', 'always_delay', 'tolerance'],
    'delay': ['round_successful', 'noise_allocation', 'start_time', 'end_time', 'delay_period', 'max_client_rtt', 'always_delay', 'tolerance'],
    'counters_ok': ['bins', 'sigmas', 'allow_unknown_counters'], 'weights_ok': ['noise_weight_config', 'dc_threshold'], 'model_ok': ['model_config']}


def args(tag, a, k):
    """Arguments of a call by name, however they were passed."""
    d = dict((n, v) for n, v in zip(SIGNATURES[tag], a))
    d.update(k)
    return d


def verdict(name):
    def check(E, a, k):
        v = E.truth(E.bool(name, inp=False))
        E.log(name, v, args(name, a, k))
        return v
    return check


def client(E):
    cls = E.pick('client', [SK, DC])
    c = E.new(cls, 'path')
    E.set(c, 'config', E.mkdict([('key', 'k'), ('delay_period', E.int('delay_period', 0, 10 ** 9)), ('always_delay', E.bool('always_delay')),
                                 ('sigma_decrease_tolerance', E.float('tolerance', 0, 10)), ('name', 'me')]))
    return c


NODE = {'counter.count_bins': NUM['counter.count_bins'], 'counter.check_counters_config': verdict('counters_ok'), 'counter.check_noise_weight_config': verdict('weights_ok'),
        'counter.combine_counters': lambda E, a, k: E.mkdict([('bins', a[0]), ('sigmas', a[1])]),
        'traffic_model.check_traffic_model_config': verdict('model_ok'),
        'traffic_model.TrafficModel': lambda E, a, k: E.stub('model', register_counters=lambda E, a, k: None),
        'time.time': lambda E, a, k: E.clock(), 'config.normalise_path': lambda E, a, k: a[0]}


def imposed_limits(E):
    """Limits of the delay, as a server might send them."""
    return [('delay_period', E.int('server_delay', 0, 10 ** 9)), ('always_delay', E.bool('server_always')),
            ('sigma_decrease_tolerance', E.float('server_tolerance', 0, 10))] if E.truth(E.bool('imposed')) else []


def same_limits(E, d, conf):
    return E.And(E.eq(d['delay_period'], E.item(conf, 'delay_period')), E.Iff(d['always_delay'], E.item(conf, 'always_delay')),
                 E.eq(d['tolerance'], E.item(conf, 'sigma_decrease_tolerance')))


@unit('P15', 'start', ['node.PrivCountClient.check_start_config', 'node.PrivCountClient.set_round_start'], contracts=NODE,
      expects=['all-checks', 'own-limits', 'recorded', 'refused-unrecorded', 'strict', 'accepted'], **OPTS)
def check_start(E):
    c = client(E)
    conf = E.attr(c, 'config')
    noise = E.mkdict([('counters', 'sigmas')])
    offered = [('counters', 'bins'), ('noise', noise), ('noise_weight', 'weights'), ('dc_threshold', E.int('threshold')),
               ('collect_period', E.float('period', 0, 4e9)), ('traffic_model', 'model')]
    imposed = imposed_limits(E)
    missing = E.pick('missing', [None] + [k for k, _ in offered])
    start = E.mkdict([(k, v) for k, v in offered if k != missing] + imposed)
    old = [E.opaque('old') if E.truth(E.bool('earlier')) else None for _ in 'abc'][:1] * 3
    names = ('collect_period', 'last_noise_config', 'collection_start_time')
    for n, v in zip(names, old):
        E.set(c, n, v)
    E.set(c, 'collection_delay', E.stub('delay', round_start_permitted=verdict('permitted')))
    lax = E.truth(E.bool('allow_unknown'))
    E.clear_log()
    r = E.run(E.attr(c, 'check_start_config'), start, allow_unknown_counters=lax)
    E.prove('no-error', r.ok, (r.exc, r.where))
    counters, weights, permitted = E.logged_known('counters_ok'), E.logged_known('weights_ok'), E.logged_known('permitted')
    model = E.logged_known('model_ok')
    good = missing in (None, 'traffic_model') and len(counters) == 1 and counters[0][0] and len(weights) == 1 and weights[0][0] and \
        len(permitted) == 1 and permitted[0][0] and (lax or missing == 'traffic_model' or len(model) == 1 and model[0][0])
    now = [E.attr(c, n) for n in names]
    if E.is_none(r.value):
        E.prove('refused-unrecorded', not good)
        E.prove('refused-unrecorded', E.And(*[E.same(a, b) for a, b in zip(now, old)]))
        return
    E.prove('all-checks', good)
    E.prove('accepted', E.eq(r.value, E.mkdict([('bins', 'bins'), ('sigmas', 'sigmas')])))
    # the checks are about this configuration
    c, w, d = counters[0][1], weights[0][1], permitted[0][1]
    E.prove('all-checks', E.eq(c['bins'], 'bins') and E.eq(c['sigmas'], 'sigmas') and E.eq(w['noise_weight_config'], 'weights'))
    E.prove('all-checks', E.eq(w['dc_threshold'], E.item(start, 'dc_threshold')))
    E.prove('strict', E.Iff(c.get('allow_unknown_counters', False), lax))
    # the delay is decided with the limits configured here, at the current time
    E.prove('own-limits', same_limits(E, d, conf) and E.same(d['noise_allocation'], noise))
    E.prove('recorded', E.And(E.same(now[1], noise), E.eq(now[0], E.item(start, 'collect_period')), E.ge(now[2], d['start_time'])))


@unit('P15', 'stop', ['node.PrivCountClient.check_stop_config'], summaries={
      'node.PrivCountNode.summarise_config_lists': lambda E, a: None}, contracts=dict(NODE, **{
      'counter.add_counter_limits_to_config': lambda E, a, k: E.mkdict([('limits', 1)])}),
      expects=['counts-iff-wanted', 'delay-registered', 'this-round', 'context'], **OPTS)
def check_stop(E):
    c = client(E)
    conf = E.attr(c, 'config')
    started = E.truth(E.bool('started'))
    noise = E.mkdict([('counters', 'sigmas')])
    t0 = E.float('t0', 0, 4e9)
    E.set(c, 'start_config', E.mkdict([('shares', 'redacted')] + imposed_limits(E)) if started else None)
    E.set(c, 'collect_period', 10 if started else None)
    E.set(c, 'last_noise_config', noise if started else None)
    E.set(c, 'collection_start_time', t0 if started else None)
    E.set(c, 'collection_delay', E.stub('delay', set_delay_for_stop=lambda E, a, k: E.log('delay', args('delay', a, k))))
    counts = E.mkdict([('c', 1)]) if E.truth(E.bool('has_counts')) else None
    asked = E.pick('send_counters', [True, False, None])
    imposed = imposed_limits(E)
    order = E.mkdict(([] if asked is None else [('send_counters', asked)]) + imposed)
    E.clear_log()
    r = E.run(E.attr(c, 'check_stop_config'), order, counts)
    E.prove('no-error', r.ok, (r.exc, r.where))
    sent = E.has(r.value, 'Counts')
    E.prove('counts-iff-wanted', E.Iff(sent, asked is True and counts is not None))
    if E.truth(sent):
        E.prove('counts-iff-wanted', E.same(E.item(r.value, 'Counts'), counts))
    d = E.logged_known('delay')
    E.prove('delay-registered', len(d) == int(started))
    if started:
        d = d[0][0]
        E.prove('delay-registered', E.Iff(d['round_successful'], sent))
        E.prove('this-round', E.And(same_limits(E, d, conf), E.same(d['noise_allocation'], noise), E.eq(d['start_time'], t0)))
        shown = E.item(E.item(r.value, 'Config'), 'Start')
        E.prove('context', E.eq(shown, E.attr(c, 'start_config')))
        E.prove('context', E.Not(E.same(shown, E.attr(c, 'start_config'))))


# ------------------------------------------------------------------ data collector
UIDS, DIGESTS = ['sk1', 'sk2', 'sk3'], ['digest0', 'digest1', 'digest2', 'digest3']


def digest(E, a, k):
    """The fingerprint of a public key: a function of its text."""
    v = E.func('digest', 'str', a[0])
    E.log('digest', v)
    if E.gget('wanted') is not None:
        E.gset('found', E.Or(E.gget('found'), E.eq(v, E.gget('wanted'))))
    return v


def encrypt(E, a, k):
    return E.func('encrypt', 'str', a[0], a[1])


def aggregator(E, a, k):
    def start(E, a, k):
        E.log('listen')

    def stop(E, a, k):
        E.log('stopped')
        return E.gget('counts')
    E.log('aggregator', a)
    s = E.stub('aggregator', get_shares=lambda E, a, k: E.gget('shares'), start=start, stop=stop,
               protocol=None, last_event_time=None, collection_counters=a[0] if a else None)
    E.gset('made', s)
    return s


def later(E, a, k):
    E.log('later', a[1], a[2])
    return E.stub('deferred', addErrback=lambda E, a, k: None)


def dc_new(E):
    dc = E.new(DC, 'path')
    E.set(dc, 'config', E.mkdict([('name', 'me'), ('event_source', 'source'), ('rotate_period', 600), ('use_setconf', True),
                                  ('delay_period', 10), ('always_delay', False), ('sigma_decrease_tolerance', 0.5)]))
    return dc


DCC = {'counter.count_bins': NUM['counter.count_bins'], 'data_collector.Aggregator': aggregator, 'crypto.get_public_digest_string': digest, 'crypto.encrypt': encrypt,
       'crypto.load_public_key_string': lambda E, a, k: E.func('public_key', 'str', a[0]),
       'twisted.internet.task.deferLater': later, 'time.time': lambda E, a, k: E.clock(),
       'config.normalise_path': lambda E, a, k: a[0]}


def only_found_removed(E, fr):
    """The wanted digest is still expected, or has been found."""
    s = fr.vars.get('expected_sk_digests')
    if E.gget('wanted') is None or s is None:
        return None
    return E.Or(E.has(s, E.gget('wanted')), E.gget('found'))


def only_configured(E, fr):
    s = fr.vars.get('expected_sk_digests')
    if E.gget('configured') is None or s is None:
        return None
    return E.Implies(E.has(s, E.gget('mine')), E.has(E.gget('configured'), E.gget('mine')))


def sk_uid(E):
    return E.str('uid', gen=UIDS, inp=False) if not E.concrete else E.rng.choice(UIDS)


def dc_start(E, by_digest):
    dc = dc_new(E)
    u = [] if by_digest else [E.str('u', gen=UIDS)]
    keys = E.dict('sharekeepers', sk_uid, lambda E, k: E.b64(E.str('pem', gen=['p1', 'p2', 'p3'], inp=False)), generic=u)
    pem = E.str('pem_u', gen=['p1', 'p2', 'p3'])
    pool = DIGESTS
    if E.concrete:               # mostly the digests of the keys offered
        if u and u[0] in keys:
            keys[u[0]] = E.b64(pem)
        pool = [E.func('digest', 'str', base64.b64decode(v)) for v in keys.values()] * 3 + DIGESTS[:1]
    mine = E.str('d', gen=pool) if by_digest else E.func('digest', 'str', pem)
    configured = E.symset('configured', lambda E: E.str('digest', gen=pool, inp=False), generic=[mine])
    E.put(E.attr(dc, 'config'), 'share_keepers', configured)
    E.gset('mine', mine), E.gset('configured', configured)
    combined = E.mkdict([('c', 1)])
    config = E.mkdict([('noise_weight', 'weights'), ('noise', 'noise')] + ([('sharekeepers', keys)] if E.truth(E.bool('has_keepers')) else []))
    running = aggregator(E, [], {}) if E.truth(E.bool('running')) else None
    E.set(dc, 'aggregator', running)
    E.set(dc, 'is_aggregator_pending', E.bool('pending'))
    E.gset('wanted', mine if by_digest else None), E.gset('found', False)
    E.gset('shares', E.dict('shares', sk_uid, share, generic=u, shape='share', like=keys))
    u = u[0] if u else None
    if u is not None and E.truth(E.has(keys, u)):
        E.put(keys, u, E.b64(pem))
        E.put(E.item(E.gget('shares'), u), 'secret', 'plain')
    valid = E.truth(E.bool('valid'))

    def check(E, a, k):
        E.log('check')
        return combined if valid else None
    E.override(dc, 'check_start_config', check)
    E.clear_log()
    r = E.run(E.attr(dc, 'do_start'), config)
    E.prove('no-error', r.ok, (r.exc, r.where))
    if running is not None:
        E.prove('one-at-a-time', E.is_none(r.value) and E.same(E.attr(dc, 'aggregator'), running) and not E.logged('check'))
    if E.is_none(r.value):
        E.prove('refused', E.same(E.attr(dc, 'aggregator'), running) and not E.logged_known('later'))
        return
    E.prove('one-at-a-time', running is None and E.same(E.attr(dc, 'aggregator'), E.gget('made')) and len(E.logged_known('later')) == 1)
    E.prove('right-round', valid and E.has(config, 'sharekeepers'))
    a = E.logged_known('aggregator')[0][0]
    E.prove('right-round', E.same(a[0], combined) and E.same(a[2], keys) and a[3] == 'weights' and a[4] == 2 ** 70)
    E.prove('right-round', E.attr(dc, 'is_aggregator_pending') is True)
    if by_digest:
        # every configured keeper takes part
        E.prove('configured-keepers', E.Implies(E.has(configured, mine), E.gget('found')))
        return
    # every share goes to one of the keepers of this round, whose key is configured here, and can be read with that key only
    if E.truth(E.has(keys, u)):
        E.prove('no-other-keepers', E.has(configured, mine))
        E.prove('encrypted-for-keeper', E.has(r.value, u))
        E.prove('encrypted-for-keeper', E.eq(E.item(E.item(r.value, u), 'secret'),
                                             E.func('encrypt', 'str', E.func('public_key', 'str', pem), 'plain')))
    else:
        E.prove('no-other-keepers', E.Not(E.has(r.value, u)))


START = dict(contracts=DCC, loop_hints={DC + '.do_start': [only_found_removed, only_configured]}, shapes=SHAPES, max_paths=10000, **OPTS)


@unit('P14', 'start', [DC + '.do_start'], expects=['one-at-a-time', 'configured-keepers', 'right-round', 'refused'], **START)
def dc_start_configured(E):
    dc_start(E, True)


@unit('P14', 'shares', [DC + '.do_start'], expects=['no-other-keepers', 'encrypted-for-keeper', 'right-round', 'refused'], **START)
def dc_start_shares(E):
    dc_start(E, False)


def dc_any(E):
    """A data collector in any state of its rounds."""
    dc = dc_new(E)
    running = aggregator(E, [E.mkdict([('c', 1)])], {}) if E.truth(E.bool('running')) else None
    pending = running is not None and E.truth(E.bool('pending'))
    E.set(dc, 'aggregator', running)
    E.set(dc, 'is_aggregator_pending', pending)
    E.set(dc, 'expected_aggregator_start_time', E.float('expected', 0, 4e9) if running is not None else None)
    E.gset('counts', E.mkdict([('c', 1)]))
    for n in ROUND:
        E.set(dc, n, E.opaque(n))
    return dc, running, pending


ROUND = ('collect_period', 'last_noise_config', 'collection_start_time', 'start_config')


@unit('P14', 'stop', [DC + '.do_stop'], contracts=DCC, expects=['counts-of-this-round', 'never-started', 'forgotten'], **OPTS)
def dc_stop(E):
    dc, running, pending = dc_any(E)
    order = E.mkdict([('send_counters', E.bool('wanted'))])

    def check(E, a, k):
        E.log('answer', a[0], a[1], E.is_none(E.attr(dc, 'aggregator')))
        return 'response'
    E.override(dc, 'check_stop_config', check)
    E.clear_log()
    r = E.run(E.attr(dc, 'do_stop'), order)
    E.prove('no-error', r.ok, (r.exc, r.where))
    ans = E.logged_known('answer')
    E.prove('counts-of-this-round', len(ans) == 1 and E.same(ans[0][0], order) and r.value == 'response')
    if running is not None and not pending:
        E.prove('counts-of-this-round', E.same(ans[0][1], E.gget('counts')) and len(E.logged_known('stopped')) == 1)
    else:
        E.prove('never-started', E.is_none(ans[0][1]))
    E.prove('forgotten', ans[0][2] and E.is_none(E.attr(dc, 'aggregator')) and E.attr(dc, 'is_aggregator_pending') is False)


@unit('P14', 'listen', [DC + '._start_aggregator_deferred'], contracts=DCC, expects=['once', 'only-while-pending'], **OPTS)
def dc_listen(E):
    dc, running, pending = dc_any(E)
    E.clear_log()
    r = E.run(E.attr(dc, '_start_aggregator_deferred'))
    E.prove('no-error', r.ok, (r.exc, r.where))
    E.prove('only-while-pending', len(E.logged_known('listen')) == int(pending))
    E.prove('once', E.attr(dc, 'is_aggregator_pending') is False)


@unit('P14', 'watch', [DC + '.check_aggregator', DC + '.are_dc_events_expected', DC + '.get_counter_list'], contracts=dict(DCC, **{
      'counter.are_events_expected': lambda E, a, k: E.bool('events', inp=False)}), expects=['round-unchanged'], **OPTS)
def dc_watch(E):
    dc, running, pending = dc_any(E)
    if running is not None:
        E.set(running, 'protocol', E.stub('protocol', state=E.pick('state', ['processing', 'other'])) if E.truth(E.bool('protocol')) else None)
        E.set(running, 'last_event_time', E.float('last', 0, 4e9) if E.truth(E.bool('events_seen')) else None)
    before = [E.attr(dc, n) for n in ROUND]
    r = E.run(E.attr(dc, 'check_aggregator'))
    E.prove('no-error', r.ok, (r.exc, r.where))
    E.prove('round-unchanged', E.And(E.same(E.attr(dc, 'aggregator'), running), *[E.same(E.attr(dc, n), v) for n, v in zip(ROUND, before)]))
    E.prove('round-unchanged', E.attr(dc, 'is_aggregator_pending') is pending)


# ------------------------------------------------------------------ noise in the counts
AGG = 'data_collector.Aggregator'
FPS = ['A' * 40, 'B' * 40, 'A' * 39, 'A' * 41, 'G' * 40, ' ' + 'A' * 40 + '\n', '', 'A' * 20 + ' ' + 'A' * 19]


def weight_of(E, weights, fp):
    w = E.get_or(weights, fp, None) if fp is not None else None
    return E.get_or(weights, '*', None) if E.is_none(w) else w


def agg(E, fp):
    """An aggregator with this fingerprint in any state: noise was added iff a weight is recorded."""
    names = [n for n in ('A' * 40, 'B' * 40, '*') if E.truth(E.bool('weight_of_' + n[:1]))]
    weights = E.mkdict([(n, E.float('weight', 0, 100)) for n in names])
    counts = E.mkdict([('c', 1)])
    E.gset('noised', 0)

    def noise(E, a, k):
        E.gset('noised', E.gget('noised') + 1)
        E.log('noise', a[0])

    def detach(E, a, k):
        E.log('detach', E.gget('noised'))
        return counts
    sc = E.stub('counters', generate_noise=noise, detach_counts=detach)
    own = weight_of(E, weights, fp)
    had = fp is not None and own is not None
    if had:
        E.gset('noised', 1)
    # a relay without a weight has stopped counting; counting may have stopped for other reasons
    stopped = fp is not None and not had or E.truth(E.bool('stopped'))
    protocol = E.stub('protocol', stopCollection=lambda E, a, k: E.log('quiet'), quit=lambda E, a, k: None, isConnected=lambda E, a, k: True) \
        if E.truth(E.bool('connected')) else None
    a = E.raw(AGG, secure_counters=None if stopped else sc, noise_weight_config=weights, noise_weight_value=own if had else None,
              fingerprint=fp, protocol=protocol, rotator=None, connector_list=None, connector=None)
    E.override(a, 'stopTrying', lambda E, a, k: None)
    return a, weights, counts, stopped


@unit('P14', 'noise', [AGG + '.stop', AGG + '._stop_secure_counters', AGG + '.generate_noise', AGG + '._stop_protocol'],
      expects=['noise-in-counts', 'weight-of-relay', 'counts-once', 'nothing-without-weight', 'discarded'], **OPTS)
def agg_stop(E):
    fp = E.pick('fingerprint', [None, 'A' * 40])
    a, weights, counts, stopped = agg(E, fp)
    valid = E.truth(E.bool('valid'))
    if stopped and E.is_none(E.attr(a, 'noise_weight_value')) and fp is None:
        E.assume(False)       # counting stops before the fingerprint is known only in stop()
    E.clear_log()
    r = E.run(E.attr(a, 'stop'), counts_are_valid=valid)
    E.prove('no-error', r.ok, (r.exc, r.where))
    if E.is_none(r.value):
        E.prove('nothing-without-weight', stopped or not valid or E.is_none(weight_of(E, weights, fp)))
    else:
        E.prove('noise-in-counts', E.same(r.value, counts) and E.eq(E.logged_known('detach')[0][0], 1))
        E.prove('weight-of-relay', E.eq(E.attr(a, 'noise_weight_value'), weight_of(E, weights, fp)))
        for x in E.logged_known('noise'):
            E.prove('weight-of-relay', E.eq(x[0], weight_of(E, weights, fp)))
    if not valid:
        E.prove('discarded', E.is_none(r.value) and not E.logged_known('detach'))
    E.prove('counts-once', E.is_none(E.attr(a, 'secure_counters')))
    q = E.run(E.attr(a, 'stop'))
    E.prove('counts-once', not q.ok or E.is_none(q.value))


@unit('P14', 'fingerprint', [AGG + '.set_fingerprint', AGG + '.generate_noise'],
      expects=['noise-once', 'first-fingerprint', 'weight-of-relay', 'nothing-without-weight', 'invalid-ignored'], **OPTS)
def agg_fingerprint(E):
    fp = E.pick('fingerprint', [None, 'A' * 40, 'B' * 40])
    a, weights, counts, stopped = agg(E, fp)
    if stopped and fp is None:
        E.assume(False)
    new = E.pick('new', FPS)
    E.clear_log()
    before = E.gget('noised')
    r = E.run(E.attr(a, 'set_fingerprint'), new)
    E.prove('no-error', r.ok, (r.exc, r.where))
    ok = len(new.strip()) == 40 and all(c in '0123456789ABCDEF' for c in new.strip())
    now = new.strip() if ok and fp is None else fp
    E.prove('first-fingerprint', E.eq(E.attr(a, 'fingerprint'), now) if now else E.is_none(E.attr(a, 'fingerprint')))
    E.prove('invalid-ignored', E.truth(r.value) == ok)
    if fp is not None or not ok:
        E.prove('invalid-ignored', len(E.logged_known('noise')) == 0)
        return
    w = weight_of(E, weights, now)
    if E.is_none(w):
        E.prove('nothing-without-weight', E.is_none(E.attr(a, 'secure_counters')) and not E.logged_known('detach') and not E.logged_known('noise'))
    else:
        n = E.logged_known('noise')
        E.prove('noise-once', E.eq(E.gget('noised'), 1) and len(n) == 1)
        E.prove('weight-of-relay', E.And(E.eq(n[0][0], w), E.eq(E.attr(a, 'noise_weight_value'), w)))
