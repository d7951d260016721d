# P10: a connection is authenticated only by a peer that proves, for this connection's fresh cookies, that it knows the secret
# P11: nothing is done for a peer that is not authenticated, and errors close the connection
from registry import unit

FACTORY = ['get_status', 'set_client_status', 'get_stop_config', 'get_start_config', 'get_checkin_period', 'set_start_result',
           'set_stop_result', 'resetDelay', 'stopTrying', 'set_server_status', 'do_start', 'do_stop', 'get_checkin_task',
           'set_checkin_task', 'do_checkin']
ANSWERS = ['get_stop_config', 'get_start_config', 'do_start', 'do_stop']
SRV, CLI = 'protocol.PrivCountServerProtocol', 'protocol.PrivCountClientProtocol'


def hmac(E, a, k):
    """cryptography's HMAC: a function of key and data; verify raises unless the signature is that value."""
    key, st = a[0], {'data': ''}
    if E.typename(key) != 'str':
        E.raise_exc('TypeError', 'key must be bytes')
    H = lambda: E.func('H', 'bytes32', key, st['data'])

    def update(E, a, k):
        st['data'] = E.cat(st['data'], a[0])

    def finalize(E, a, k):
        E.log('signed', key, st['data'])
        return H()

    def verify(E, a, k):
        if not E.truth(E.eq(a[0], H())):
            E.raise_exc('cryptography.exceptions.InvalidSignature')
        E.log('verified', key, st['data'])
    return E.stub('hmac', update=update, finalize=finalize, verify=verify)


def urandom(E, a, k):
    v = E.bytes('random', a[0], inp=False)
    E.log('urandom', v)
    return v


def stop_reactor(E, a, k):
    """Ends the process."""
    E.log('stop')
    E.raise_exc('SystemExit')


def opened(E, a, k):
    return E.file(E.gget('secret_file'))


def loads(E):
    if E.choose(2):
        E.raise_exc('ValueError', 'not json')
    return E.opaque('json')


LIB = {'cryptography.hazmat.primitives.hmac.HMAC': hmac, 'os.urandom': urandom, 'log.stop_reactor': stop_reactor,
       'builtin.open': opened, 'os.path.exists': lambda E, a, k: True,
       'twisted.internet.task.LoopingCall': lambda E, a, k: looping(E), 'time.time': lambda E, a, k: E.clock(),
       'cryptography.hazmat.backends.default_backend': lambda E, a, k: None}
TEXT = {'connection.transport_info': lambda E, a: E.str('text', inp=False), 'log.log_error': lambda E, a: None,
        'cryptography.hazmat.primitives.hashes.SHA256': lambda E, a: None,
        'json.loads': lambda E, a: loads(E),
        'crypto.json_serialise': lambda E, a: E.str('json', inp=False)}


def transport(E):
    return E.stub('transport', getPeer=lambda E, a, k: None, getHost=lambda E, a, k: None,
                  loseConnection=lambda E, a, k: E.log('lose'),
                  write=lambda E, a, k: E.log('send', a[0]),
                  writeSequence=lambda E, a, k: E.log('send', E.item(a[0], 0)))


def make(E, cls, fails=False):
    """A protocol object in an arbitrary state."""
    def member(n):
        def call(E, a, k):
            E.log('factory', n)
            if fails and E.truth(E.bool('fails', inp=False)):
                E.log('raised', n)
                E.raise_exc('RuntimeError', n)
            if n == 'get_checkin_period':
                return 5
            if n in ANSWERS and E.truth(E.bool('answers', inp=False)):
                return E.mkdict([])
        return call
    members = dict((n, member(n)) for n in FACTORY)
    members['get_secret_handshake_path'] = lambda E, a, k: 'secret.path'
    p = E.new(cls, E.stub('factory', **members))
    E.set(p, 'transport', transport(E))
    K = E.bytes('K', 32)
    good = E.pick('secret_ok', [True, True, True, False])
    E.gset('secret_file', E.cat(E.b64(K), '\n') if good else 'tooshort')
    S, C = E.bytes('S', 32), E.bytes('C', 32)
    hs, hc = E.truth(E.bool('has_S')), E.truth(E.bool('has_C'))
    E.set(p, 'server_cookie', S if hs else None)
    E.set(p, 'client_cookie', C if hc else None)
    valid = E.truth(E.bool('valid'))
    E.set(p, 'is_valid_connection', valid)
    if valid:
        E.set(p, 'MAX_LENGTH', 200 * 1024 * 1024)
    return p, K, S if hs else None, C if hc else None, valid


def stage(E, n):
    return E.attr(E.fn('protocol.PrivCountProtocol'), 'HANDSHAKE%d' % n)


def prefix(E, n):
    P = E.fn('protocol.PrivCountProtocol')
    role = 'ROLE_SERVER' if n in (1, 3) else 'ROLE_CLIENT'
    return '%s %s %s %s' % (stage(E, n), E.attr(P, 'HANDSHAKE_VERSION'), E.attr(P, role), E.attr(P, 'HANDSHAKE_TYPE'))


def any_line(E, K, S, C):
    """Any line; the interesting ones are built on purpose when running concretely."""
    if not E.concrete:
        n = E.pick('stage', [1, 2, 3, 4, 0])
        if n == 0:
            return E.str('line')
        return E.cat(stage(E, n), ' ', E.str('payload'))
    r = E.rng
    n = r.choice([1, 2, 2, 3, 3, 4, 4, 0])
    if n == 0:
        return E.str('line', gen=['STATUS 1.0 {}', 'START {}', 'STOP {}', 'CHECKIN 1', 'HANDSHAKE', 'HANDSHAKE9 A B C D', ''])
    k2 = K if r.random() < 0.85 else 'k' * 32
    s2 = S if S is not None and r.random() < 0.85 else 's' * 32
    c2 = C if C is not None and r.random() < 0.6 else r.choice([s2, 'c' * 32, 'd' * 32])
    m = r.choice([n, n, n, n, 1, 2, 3, 4])
    h = E.func('H', 'bytes32', k2, prefix(E, r.choice([m, m, m, m, 2, 3])) + s2 + c2)
    tail = {1: E.b64(s2), 2: E.b64(c2) + ' ' + E.b64(h), 3: E.b64(h), 4: 'SUCCESS'}[m]
    tail = r.choice([tail] * 6 + ['FAIL', '', tail + ' x', tail[:-4], E.b64(h), E.b64(s2)])
    line = prefix(E, n) + ' ' + tail
    if r.random() < 0.1:
        line = line.replace(r.choice(['CLIENT ', 'SERVER ', 'PRIVCOUNT-', 'HMAC-']), r.choice(['X', 'CLIENT ', 'SERVER ']))
    if r.random() < 0.05:
        line += ' ' * 200
    return E.draw('line', lambda: line, lambda v: v if isinstance(v, str) else v.encode('latin-1'))


def shown(E, K, S, C, n):
    """A message authentication code of stage n was verified: with the secret, for the cookies of this connection."""
    if S is None:
        return False
    pre = E.cat(prefix(E, n), S)
    ok = []
    for key, data in E.logged_known('verified'):
        if n == 3:
            ok.append(E.And(E.eq(key, K), C is not None and E.eq(data, E.cat(pre, C))))
        else:
            ok.append(E.And(E.eq(key, K), E.startswith(data, pre), E.eq(E.len(data), E.add(E.len(pre), 32)),
                            E.Not(E.eq(data, E.cat(pre, S)))))
    return E.Or(*ok) if ok else False


def truthy(E, p, name):
    v = E.attr(p, name)
    return False if E.is_none(v) or v is False else E.truth(v)


@unit('P10', 'server', [SRV + '.lineReceived', SRV + '.process_event', SRV + '.handle_handshake_event', 'crypto.verify_hmac'],
      contracts=LIB, summaries=TEXT, mods=['protocol', 'crypto', 'connection', 'log'], max_paths=20000, time=200, strfacts=False, strings='abs',
      expects=['authenticated', 'cookie-means-proof', 'signs-only-after-proof', 'closed-unless-proof'])
def server(E):
    p, K, S, C, valid = make(E, SRV)
    V = E.truth(E.bool('proved'))
    E.assume(V if valid or C is not None else True)
    line = any_line(E, K, S, C)
    E.clear_log()
    r = E.m(p, 'lineReceived', line)
    V2 = E.Or(V, shown(E, K, S, C, 2))
    E.prove('authenticated', E.Implies(truthy(E, p, 'is_valid_connection'), V2))
    E.prove('cookie-means-proof', E.Implies(truthy(E, p, 'client_cookie'), V2))
    for key, data in E.logged_known('signed'):
        E.prove('signs-only-after-proof', E.And(V2, E.startswith(data, prefix(E, 3))))
    E.prove('closed-unless-proof', E.Or(V2, len(E.logged_known('lose')) > 0), (r.ok, r.exc, E.trace_tags(), len(E.path) if hasattr(E,'path') else 0))
    if not r.ok:
        E.prove('error-stops', r.exc == 'SystemExit' and len(E.logged_known('stop')) > 0, (r.exc, r.where))


@unit('P10', 'client', [CLI + '.lineReceived', CLI + '.process_event', CLI + '.handle_handshake_event', 'crypto.verify_hmac'],
      contracts=LIB, summaries=TEXT, mods=['protocol', 'crypto', 'connection', 'log'], max_paths=20000, time=200, strfacts=False, strings='abs',
      expects=['authenticated', 'stages-distinct', 'signs-fresh-cookie', 'closed-unless-proof'])
def client(E):
    p, K, S, C, valid = make(E, CLI)
    V = E.truth(E.bool('proved'))
    E.assume(V if valid else True)
    line = any_line(E, K, S, C)
    E.clear_log()
    r = E.m(p, 'lineReceived', line)
    V2 = E.Or(V, shown(E, K, S, C, 3) if C is not None else False)
    E.prove('authenticated', E.Implies(truthy(E, p, 'is_valid_connection'), V2))
    E.prove('stages-distinct', E.ne(prefix(E, 2), prefix(E, 3)))
    made = [a[0] for a in E.logged_known('urandom')]
    for key, data in E.logged_known('signed'):
        pre = prefix(E, 2)
        E.prove('signs-fresh-cookie', E.And(E.startswith(data, pre), E.eq(E.len(data), E.add(E.len(pre), 64)),
                                            E.Or(*[E.And(E.eq(E.len(x), 32), E.endswith(data, x)) for x in made])))
    E.prove('closed-unless-proof', E.Or(V2, len(E.logged_known('lose')) > 0, len(E.logged_known('signed')) > 0))
    if not r.ok:
        E.prove('error-stops', r.exc == 'SystemExit' and len(E.logged_known('stop')) > 0, (r.exc, r.where))


@unit('P10', 'hello', [SRV + '.connectionMade', SRV + '.send_handshake_event', SRV + '.__init__', CLI + '.__init__'],
      contracts=LIB, summaries=TEXT, mods=['protocol', 'crypto', 'connection', 'log'], strfacts=False, strings='abs', cases=60,
      expects=['starts-unauthenticated', 'fresh-cookie', 'cookie-sent'])
def hello(E):
    cls = E.pick('class', [SRV, CLI])
    factory = E.stub('factory', get_secret_handshake_path=lambda E, a, k: 'secret.path')
    for _ in range(2):                       # every connection of the same factory draws a cookie of its own
        p = E.new(cls, factory)
        E.set(p, 'transport', transport(E))
        E.clear_log()
        r = E.m(p, 'connectionMade')
        E.prove('starts-unauthenticated', r.ok and not truthy(E, p, 'is_valid_connection') and E.is_none(E.attr(p, 'client_cookie')),
                (r.exc, r.where))
        if cls == SRV and r.ok:
            S = E.attr(p, 'server_cookie')
            made = [a[0] for a in E.logged_known('urandom')]
            E.prove('fresh-cookie', E.And(E.eq(E.len(S), 32), E.Or(*[E.eq(S, x) for x in made])))
            sent = E.logged_known('send')
            E.prove('cookie-sent', len(sent) == 1 and E.eq(sent[0][0], E.cat(prefix(E, 1), ' ', E.b64(S))))


def event_line(E):
    """Any line that is not part of the handshake."""
    if not E.concrete:
        n = E.pick('event', [0, 1, 2, 3, 4])
        word = ['', 'STATUS', 'START', 'STOP', 'CHECKIN'][n]
        if n:
            return E.cat(word, ' ', E.str('payload')) if E.truth(E.bool('payload?')) else word
        line = E.str('line')
        E.assume(E.Not(E.startswith(E.item(E.m(line, 'split', ' ', 1).value, 0), 'HANDSHAKE')))
        E.assume(E.Not(E.startswith(E.m(E.item(E.m(line, 'split', ' ', 1).value, 0), 'strip').value, 'HANDSHAKE')))
        return line
    return E.str('line', gen=['STATUS 1.0 {}', 'STATUS 1.0 {"name": "a"}', 'STATUS', 'STATUS x', 'STATUS x {}', 'START {}', 'START', 'STARTX {}',
                              'START SUCCESS {}', 'START SUCCESS {', 'START FAIL', 'STOP {}', 'STOP SUCCESS {}', 'STOP', 'STOPPED {}',
                              'CHECKIN 5', 'CHECKIN x', 'CHECKIN', 'CHECKIN 1 2', 'OTHER', '', ' ', ' STATUS 1 {}', 'QUIT now'])


@unit('P11', 'stranger', [SRV + '.lineReceived', CLI + '.lineReceived', SRV + '.process_event'],
      contracts=LIB, summaries=TEXT, mods=['protocol', 'crypto', 'connection', 'log'], max_paths=20000, time=200, strfacts=False, strings='abs',
      expects=['no-action', 'no-answer', 'closed', 'still-stranger'])
def stranger(E):
    cls = E.pick('class', [SRV, CLI])
    p, K, S, C, valid = make(E, cls)
    E.assume(not valid)
    line = event_line(E)
    E.clear_log()
    r = E.m(p, 'lineReceived', line)
    E.prove('no-action', len(E.logged_known('factory')) == 0)
    E.prove('no-answer', len(E.logged_known('send')) == 0)
    E.prove('closed', len(E.logged_known('lose')) > 0)
    E.prove('still-stranger', not truthy(E, p, 'is_valid_connection'))


@unit('P11', 'peer', [SRV + '.lineReceived', CLI + '.lineReceived', SRV + '.process_event'],
      contracts=LIB,
      summaries=TEXT, mods=['protocol', 'crypto', 'connection', 'log'], max_paths=20000, time=200, strfacts=False, strings='abs',
      expects=['failure-closes', 'failure-stops', 'unknown-closes'])
def peer(E):
    cls = E.pick('class', [SRV, CLI])
    p, K, S, C, valid = make(E, cls, fails=True)
    E.assume(valid)
    if cls == SRV and E.truth(E.bool('has_uid')):
        E.set(p, 'client_uid', 'uid')
    line = event_line(E)
    E.clear_log()
    r = E.m(p, 'lineReceived', line)
    lost = len(E.logged_known('lose')) > 0 and not truthy(E, p, 'is_valid_connection')
    if E.logged_known('raised'):
        E.prove('failure-closes', lost)
        E.prove('failure-stops', len(E.logged_known('stop')) > 0)
    if not r.ok:
        E.prove('failure-closes', lost and r.exc == 'SystemExit', (r.exc, r.where))
    if not E.logged_known('factory'):
        E.prove('unknown-closes', len(E.logged_known('lose')) > 0)


def looping(E):
    start = lambda E, a, k: E.stub('deferred', addErrback=lambda E, a, k: None)
    return E.stub('loopingcall', start=start, stop=lambda E, a, k: None, running=False)


@unit('P11', 'overlong', [SRV + '.lineLengthExceeded', CLI + '.lineLengthExceeded', SRV + '.sendLine'],
      contracts=LIB, summaries=TEXT, mods=['protocol', 'crypto', 'connection', 'log'], strfacts=False, strings='abs',
      expects=['overlong-closes', 'overlong-send-stops', 'limit'])
def overlong(E):
    cls = E.pick('class', [SRV, CLI])
    p, K, S, C, valid = make(E, cls)
    line = E.draw('line', lambda: 'x' * E.rng.choice([1, 100, 200, 201, 300, 5000]), lambda v: v.encode('latin-1')) \
        if E.concrete else E.str('line')
    E.clear_log()
    E.prove('limit', E.Or(valid, E.le(E.attr(p, 'MAX_LENGTH'), 1000)))
    over = E.gt(E.len(line), E.attr(p, 'MAX_LENGTH'))
    if E.truth(E.bool('receive')):
        r = E.m(p, 'lineLengthExceeded', line)
        E.prove('overlong-closes', r.ok and len(E.logged_known('lose')) > 0 and not truthy(E, p, 'is_valid_connection'), r.exc)
    else:
        r = E.m(p, 'sendLine', line)
        E.prove('overlong-send-stops', E.Implies(over, len(E.logged_known('lose')) > 0 and len(E.logged_known('stop')) > 0
                                                 and len(E.logged_known('send')) == 0))


@unit('P11', 'ended', [SRV + '.connectionLost', CLI + '.connectionLost', CLI + '.clientConnectionLost'],
      contracts=LIB, summaries=TEXT, mods=['protocol', 'crypto', 'connection', 'log'], strfacts=False, strings='abs', cases=60,
      expects=['forgotten'])
def ended(E):
    cls = E.pick('class', [SRV, CLI])
    p, K, S, C, valid = make(E, cls)
    reason = E.stub('reason', getErrorMessage=lambda E, a, k: 'gone')
    r = E.m(p, 'connectionLost', reason)
    E.prove('forgotten', r.ok and not truthy(E, p, 'is_valid_connection') and E.is_none(E.attr(p, 'client_cookie'))
            and E.is_none(E.attr(p, 'server_cookie')) and E.truth(E.le(E.attr(p, 'MAX_LENGTH'), 1000)), r.exc)
