# P16, P17: the control connection: whom a data collector authenticates to, and which events it counts
from registry import unit
from c_hand import hmac, urandom, stop_reactor

T = 'protocol.TorControlClientProtocol'
BASE = 'protocol.TorControlProtocol'
MODS = ['protocol', 'crypto', 'connection', 'log', 'counter']
STATES = ['protocolinfo', 'authchallenge', 'authenticating', 'discovering', 'waiting', 'processing', 'disconnected', None]
SERVER_KEY = 'Tor safe cookie authentication server-to-controller hash'
CLIENT_KEY = 'Tor safe cookie authentication controller-to-server hash'


def opened(E, a, k):
    name = a[0]
    if not E.truth(E.bool('readable', inp=False)):
        E.raise_exc('IOError', 'cannot read')
    E.log('read', name)
    return E.file(E.gget('content'))


def looping(E, a, k):
    return E.stub('loop', start=lambda E, a, k: E.stub('deferred', addErrback=lambda E, a, k: None), stop=lambda E, a, k: None)


LIB = {'cryptography.hazmat.primitives.hmac.HMAC': hmac, 'os.urandom': urandom, 'log.stop_reactor': stop_reactor, 'builtin.open': opened,
       'twisted.internet.task.LoopingCall': looping, 'cryptography.hazmat.backends.default_backend': lambda E, a, k: None,
       'counter.get_valid_events': lambda E, a, k: E.mkset(['PRIVCOUNT_A', 'PRIVCOUNT_B', 'PRIVCOUNT_C']),
       'counter.get_events_for_counters': lambda E, a, k: E.mkset(['PRIVCOUNT_A', 'PRIVCOUNT_B']) if E.has(a[0], 'AB') else E.mkset([])}
TEXT = {'connection.transport_info': lambda E, a: E.str('text', inp=False), 'log.log_error': lambda E, a: None,
        'json.dumps': lambda E, a: E.str('json', inp=False, maxlen=1000000), 'cryptography.hazmat.primitives.hashes.SHA256': lambda E, a: None}
OPTS = dict(contracts=LIB, summaries=TEXT, mods=MODS, strfacts=False, strings='abs')


def transport(E):
    send = lambda E, v: E.log('send', v)
    return E.stub('transport', getPeer=lambda E, a, k: None, getHost=lambda E, a, k: None, loseConnection=lambda E, a, k: E.log('lose'),
                  write=lambda E, a, k: send(E, a[0]), writeSequence=lambda E, a, k: send(E, E.item(a[0], 0)))


DISCOVERED = ['set_tor_version', 'set_nickname', 'set_orport', 'set_dirport', 'set_geoip_file', 'set_geoipv6_file', 'set_address',
              'set_tor_privcount_version', 'set_fingerprint', 'set_flag_list']


def make(E, state):
    setconf = E.truth(E.bool('use_setconf'))
    E.gset('use_setconf', setconf)

    def event(E, a, k):
        E.log('event', a[0])
        ok = E.truth(E.bool('event_ok', inp=False))
        E.log('verdict', ok)
        return ok
    members = dict((n, lambda E, a, k: E.bool('accepted', inp=False)) for n in DISCOVERED)
    members.update(get_use_setconf=lambda E, a, k: setconf, get_control_password=lambda E, a, k: E.gget('password_file'),
                   get_circuit_sample_rate=lambda E, a, k: 0.5, get_max_cell_events_per_circuit=lambda E, a, k: 7,
                   get_fingerprint=lambda E, a, k: 'F' * 40, handle_event=event, get_control_cookie_file=lambda E, a, k: None)
    p = E.new(T, E.stub('factory', **members))
    E.set(p, 'traffic_model', None)
    E.set(p, 'transport', transport(E))
    E.set(p, 'state', state)
    return p


def sent(E):
    return [a[0] for a in E.logged_known('send')]


def starts(E, v, text):
    return E.truth(E.startswith(v, text))


def closed(E, p):
    """The connection is closed and will not send again."""
    return E.And(len(E.logged_known('lose')) > 0, E.is_none(E.attr(p, 'state')) or E.eq(E.attr(p, 'state'), 'disconnected'))


@unit('P16', 'challenge', [T + '.lineReceived', BASE + '.verifyServerHash', BASE + '.getClientHash', BASE + '.readCookieFile', BASE + '.readFile',
                           BASE + '.decodeNonce', BASE + '.decodeControllerString', 'crypto.verify_hmac', 'crypto.get_hmac'],
      expects=['server-proved-first', 'own-proof', 'closed-unless-proved', 'only-answer'], max_paths=20000, time=200, **OPTS)
def challenge(E):
    """Tor's answer to our challenge."""
    p = make(E, 'authchallenge')
    E.gset('password_file', None)
    nonce = E.bytes('nonce', 32)
    cookie = E.str('cookie', gen=['c' * 32, 'c' * 31, '', 'c' * 33, 'd' * 32])
    E.gset('content', cookie)
    E.set(p, 'auth_methods', E.mklist(['COOKIE', 'SAFECOOKIE', 'NULL']))
    E.set(p, 'cookie_file', 'cookie.path')
    E.set(p, 'client_nonce', nonce)
    line = answer_line(E, cookie, nonce)
    E.clear_log()
    r = E.m(p, 'lineReceived', line)
    proved = [E.And(E.eq(key, SERVER_KEY), E.eq(data, E.cat(cookie, nonce, E.attr(p, 'server_nonce') or '')))
              if not E.is_none(E.attr(p, 'server_nonce')) else False for key, data in E.logged_known('verified')]
    lines = sent(E)
    auth = [x for x in lines if starts(E, x, 'AUTHENTICATE')]
    if auth:
        sn = E.attr(p, 'server_nonce')
        E.prove('server-proved-first', E.Or(*[E.And(E.eq(key, SERVER_KEY), E.eq(data, E.cat(cookie, nonce, sn)))
                                              for key, data in E.logged_known('verified')]))
        E.prove('server-proved-first', E.And(E.eq(E.len(cookie), 32), E.eq(E.len(sn), 32), E.eq(E.logged_known('read')[-1][0], 'cookie.path')))
        E.prove('own-proof', len(auth) == 1 and E.eq(auth[0], E.cat('AUTHENTICATE ', E.hex(E.func('H', 'bytes32', CLIENT_KEY, E.cat(cookie, nonce, sn))))))
        E.prove('only-answer', len(lines) == 1 and E.eq(E.attr(p, 'state'), 'authenticating'))
    elif not r.ok:
        E.prove('error-stops', r.exc in ('SystemExit', 'TypeError'), (r.exc, r.where))
    else:
        E.prove('closed-unless-proved', E.Or(closed(E, p), E.eq(E.attr(p, 'state'), 'authchallenge')))


def answer_line(E, cookie, nonce):
    if not E.concrete:
        return E.cat('250 AUTHCHALLENGE SERVERHASH=', E.str('rest')) if E.truth(E.bool('answer')) else E.str('line')
    r = E.rng
    sn = 's' * r.choice([32, 32, 32, 32, 31, 33])
    c2 = r.choice([cookie] * 6 + ['', 'e' * 32])
    h = E.func('H', 'bytes32', r.choice([SERVER_KEY] * 5 + [CLIENT_KEY]), c2 + r.choice([nonce, nonce, nonce, 'n' * 32]) + sn)
    line = '250 AUTHCHALLENGE SERVERHASH=%s SERVERNONCE=%s' % (E.hex(h)[:r.choice([64] * 5 + [62])], E.hex(sn))
    line = r.choice([line] * 7 + ['250 OK', '515 Authentication failed', '650 PRIVCOUNT_A x', line[:40]])
    return E.draw('line', lambda: line, lambda v: v if isinstance(v, str) else v.encode('latin-1'))


METHODS = [['NULL'], ['COOKIE', 'SAFECOOKIE'], ['HASHEDPASSWORD'], ['COOKIE', 'SAFECOOKIE', 'HASHEDPASSWORD'], ['SAFECOOKIE', 'NULL'],
           ['HASHEDPASSWORD', 'NULL'], ['COOKIE'], ['']]


def reply(E, gen, words):
    """Any line of Tor; mostly the likely ones when running concretely."""
    if E.concrete:
        return E.str('line', gen=gen + ['250 OK', '551 x', '650 PRIVCOUNT_A a b', '650 OTHER x', '', ' ', '250-x=y', '999'])
    n = E.pick('start', words + [''])
    return E.str('line') if n == '' else n if n.endswith('OK') else E.cat(n, E.str('rest'))


@unit('P16', 'login', [T + '.lineReceived', BASE + '.generateClientNonce', BASE + '.encodeNonce', BASE + '.getConfiguredPassword', BASE + '.readFile',
                       BASE + '.encodeControllerString'],
      expects=['strongest-method', 'fresh-nonce', 'password-length', 'nothing-else', 'state'], max_paths=20000, time=200, **OPTS)
def login(E):
    """Everything Tor says before it has answered a challenge."""
    p = make(E, 'protocolinfo')
    methods = E.pick('methods', METHODS)
    cookie = 'cookie.path' if E.truth(E.bool('cookie_file')) else None
    E.gset('password_file', 'password.path' if E.truth(E.bool('password_file')) else None)
    secret = E.str('secret', gen=['short', '12345678', 'x' * 1024, 'x' * 1025, ''])
    E.gset('content', secret)
    E.set(p, 'auth_methods', E.mklist(methods))
    E.set(p, 'cookie_file', cookie)
    line = reply(E, ['250 OK', '250 OK', '250-AUTH METHODS=NULL', '250-VERSION Tor="0.3"', '250-PROTOCOLINFO 1',
                     '250-AUTH METHODS=COOKIE,SAFECOOKIE COOKIEFILE="/x"'], ['250 OK'])
    E.clear_log()
    r = E.m(p, 'lineReceived', line)
    lines = sent(E)
    if not r.ok:
        E.prove('error-stops', r.exc in ('SystemExit', 'TypeError', 'NotImplementedError'), (r.exc, r.where))
        E.prove('nothing-else', not any(starts(E, x, 'AUTH') for x in lines))
        return
    auth = [x for x in lines if starts(E, x, 'AUTH')]
    state = E.attr(p, 'state')
    if not auth:
        E.prove('state', E.Or(E.eq(state, 'protocolinfo'), closed(E, p)))
        return
    E.prove('nothing-else', len(lines) == 1)
    # the methods and the cookie file are those of a line before
    E.prove('nothing-else', E.eq(E.m(line, 'strip').value, '250 OK'))
    if 'SAFECOOKIE' in methods and cookie is not None:
        n = E.attr(p, 'client_nonce')
        E.prove('fresh-nonce', E.And(E.eq(E.len(n), 32), E.Or(*[E.eq(n, a[0]) for a in E.logged_known('urandom')])))
        E.prove('strongest-method', E.eq(auth[0], E.cat('AUTHCHALLENGE SAFECOOKIE ', E.hex(n))))
        E.prove('state', E.eq(state, 'authchallenge'))
    elif 'HASHEDPASSWORD' in methods and len(E.logged_known('read')) > 0 and not E.truth(E.eq(auth[0], 'AUTHENTICATE')):
        E.prove('password-length', E.And(E.ge(E.len(secret), 8), E.le(E.len(secret), 1024)))
        E.prove('strongest-method', E.eq(auth[0], E.cat('AUTHENTICATE ', E.hex(secret))))
        E.prove('state', E.eq(state, 'authenticating'))
    else:
        E.prove('strongest-method', 'NULL' in methods and E.eq(auth[0], 'AUTHENTICATE'))
        E.prove('state', E.eq(state, 'authenticating'))


@unit('P16', 'enter', [T + '.lineReceived', T + '.handleUnexpectedLine'], expects=['only-after-ok', 'closed-or-waiting'],
      max_paths=20000, time=200, **OPTS)
def enter(E):
    """Tor's answer to our proof."""
    p = make(E, 'authenticating')
    line = reply(E, ['250 OK', '250 OK', '515 Authentication failed: Wrong length', '250-fingerprint=X'], ['250 OK'])
    E.clear_log()
    r = E.m(p, 'lineReceived', line)
    if not r.ok:
        E.prove('error-stops', r.exc == 'SystemExit', (r.exc, r.where))
        return
    state = E.attr(p, 'state')
    E.prove('closed-or-waiting', E.Or(E.eq(state, 'authenticating'), E.eq(state, 'discovering'), closed(E, p)))
    if not E.is_none(state) and E.truth(E.eq(state, 'discovering')):
        E.prove('only-after-ok', E.eq(E.m(line, 'strip').value, '250 OK'))


EVENTS = ['PRIVCOUNT_A', 'PRIVCOUNT_B', 'PRIVCOUNT_C', 'PRIVCOUNT_X']


def counting(E, state):
    p = make(E, state)
    E.gset('content', 'content')
    E.gset('password_file', None)
    E.set(p, 'auth_methods', E.mklist([]))
    E.set(p, 'active_events', E.mkset(['PRIVCOUNT_A', 'PRIVCOUNT_B']) if state == 'processing' else None)
    E.set(p, 'collection_events', E.mkset(['PRIVCOUNT_A', 'PRIVCOUNT_B']) if state == 'processing' else None)
    return p


@unit('P17', 'events', [T + '.lineReceived'], expects=['wanted-events-only', 'whole-event', 'rejected-closes', 'counted'],
      max_paths=20000, time=200, **OPTS)
def events(E):
    """An event, in any state."""
    state = E.pick('state', STATES)
    p = counting(E, state)
    E.set(p, 'is_processing_ns', E.truth(E.bool('in_consensus')))
    name = E.pick('event', EVENTS)
    n = E.pick('fields', [0, 1, 2, 3])
    fields = ['Ab="c\\', '', '0x7f'][:n] if n != 2 else ['', 'x']
    E.clear_log()
    r = E.m(p, 'lineReceived', ' '.join(['650', name] + fields))
    got = E.logged_known('event')
    wanted = state == 'processing' and name in ('PRIVCOUNT_A', 'PRIVCOUNT_B') and n > 0
    E.prove('counted', len(got) == (1 if wanted else 0) or not r.ok)
    if got:
        E.prove('wanted-events-only', wanted)
        E.prove('whole-event', E.eq(got[0][0], E.mklist([name] + fields)))
        if not E.logged_known('verdict')[0][0]:
            E.prove('rejected-closes', r.ok and closed(E, p))
        else:
            E.prove('rejected-closes', r.ok and E.eq(E.attr(p, 'state'), 'processing') and len(E.logged_known('lose')) == 0)


@unit('P17', 'other', [T + '.lineReceived', T + '.handleUnexpectedLine'], expects=['no-event'], max_paths=30000, time=300, **OPTS)
def other(E):
    """Any other line, after authentication."""
    p = counting(E, E.pick('state', ['waiting', 'processing']))
    E.set(p, 'is_processing_ns', E.truth(E.bool('in_consensus')))
    line = E.str('line', gen=['650 OTHER x', 'PRIVCOUNT_A a', '250 650 PRIVCOUNT_A a', '250 OK', '', ' ', 's Fast Guard', '.', '250+ns/id/F=',
                              '552 Unrecognized key "ns/id/F', '551 x'])
    if not E.concrete:
        E.assume(E.Not(E.startswith(E.m(line, 'strip').value, '650 PRIVCOUNT_')))
    E.clear_log()
    r = E.m(p, 'lineReceived', line)
    E.prove('no-event', len(E.logged_known('event')) == 0)


@unit('P17', 'send', [T + '.sendLine'], expects=['no-setconf', 'sent', 'closed'], **OPTS)
def send(E):
    p = make(E, E.pick('state', STATES[2:6]))
    line = E.cat('SETCONF', E.str('rest')) if E.truth(E.bool('setconf')) else E.str('line', gen=['SETCONF x', 'SETCONF', 'GETCONF x', 'QUIT', 'SETEVENTS', ' SETCONF x'])
    E.clear_log()
    r = E.m(p, 'sendLine', line)
    if not r.ok:
        E.prove('error-stops', r.exc == 'SystemExit' and E.gt(E.len(line), 200 * 1024 * 1024), (r.exc, r.where))
        return
    lines = sent(E)
    if not E.gget('use_setconf'):
        for x in lines:
            E.prove('no-setconf', E.Not(E.startswith(x, 'SETCONF')))
    if E.truth(E.And(E.Not(E.gget('use_setconf')), E.startswith(line, 'SETCONF'))):
        E.prove('closed', closed(E, p))
    else:
        E.prove('sent', len(lines) == 1 and E.eq(lines[0], line) and len(E.logged_known('lose')) == 0)


@unit('P17', 'rounds', [T + '.startCollection', T + '.stopCollection', T + '.enableEvents', T + '.disableEvents'],
      expects=['events-of-round', 'not-before-login', 'stopped', 'kept-for-reconnect', 'restored', 'no-setconf'], max_paths=20000, **OPTS)
def rounds(E):
    state = E.pick('state', STATES)
    p = make(E, state)
    counting = E.truth(E.bool('counting'))
    E.set(p, 'collection_events', E.mkset(['PRIVCOUNT_C']) if counting else None)
    E.set(p, 'active_events', E.mkset(['PRIVCOUNT_C']) if counting and state == 'processing' else None)
    ready, connected = state in ('waiting', 'processing'), state not in (None, 'disconnected')
    E.clear_log()
    if E.truth(E.bool('start')):
        model = E.mkdict([('a', 1)]) if E.truth(E.bool('model')) else None
        extra = E.pick('extra', [None, ['PRIVCOUNT_C', 'privcount_a', 'OTHER']])
        r = E.m(p, 'startCollection', E.mklist(['AB']), E.mklist(extra) if extra else None, model)
        E.prove('no-error', r.ok, (r.exc, r.where))
        want = ['PRIVCOUNT_A', 'PRIVCOUNT_B'] + (['PRIVCOUNT_C'] if extra else [])
        E.prove('events-of-round', E.eq(E.attr(p, 'collection_events'), E.mkset(want)))
        lines = sent(E)
        if not ready:
            E.prove('not-before-login', not lines and E.eq(E.attr(p, 'state'), state) if state else not lines)
        else:
            on = [x for x in lines if starts(E, x, 'SETEVENTS')]
            names = E.m(on[0], 'split').value if len(on) == 1 else None
            E.prove('events-of-round', len(on) == 1 and E.eq(E.mkset(list(E.iter(names))), E.mkset(['SETEVENTS'] + want)) and
                    E.eq(E.attr(p, 'active_events'), E.mkset(want)) and E.eq(E.attr(p, 'state'), 'processing'))
            E.prove('events-of-round', any(starts(E, x, 'SETCONF EnablePrivCount=1') for x in lines) == E.gget('use_setconf'))
    else:
        forget = E.truth(E.bool('forget'))
        r = E.m(p, 'stopCollection', forget)
        E.prove('no-error', r.ok, (r.exc, r.where))
        kept = E.attr(p, 'collection_events')
        E.prove('kept-for-reconnect', E.is_none(kept) if forget or not counting else E.eq(kept, E.mkset(['PRIVCOUNT_C'])))
        lines = sent(E)
        if connected:
            E.prove('stopped', E.is_none(E.attr(p, 'active_events')) and E.eq(E.attr(p, 'state'), 'waiting'))
            E.prove('stopped', sum(1 for x in lines if E.truth(E.eq(x, 'SETEVENTS'))) == 1 and
                    not any(starts(E, x, 'SETEVENTS ') for x in lines))
            if E.gget('use_setconf'):
                for x in ('SETCONF EnablePrivCount=0', 'SETCONF PrivCountCircuitSampleRate=1.0', 'SETCONF PrivCountMaxCellEventsPerCircuit=-1',
                          'SETCONF __ReloadTorrcOnSIGHUP=1'):
                    E.prove('restored', sum(1 for y in lines if E.truth(E.eq(x, y))) == 1)
        else:
            E.prove('stopped', not lines)
    if not E.gget('use_setconf'):
        E.prove('no-setconf', not any(starts(E, x, 'SETCONF') for x in sent(E)))
