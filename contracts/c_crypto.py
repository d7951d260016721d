# P18: what is encrypted for a key can be read, and only whole and unchanged, with the private key; authentication codes; encoded lengths
from registry import unit
from c_hand import hmac

MODS = ['crypto', 'protocol', 'counter', 'log']


def fresh(E, tag, t):
    """Encryption is randomised: no ciphertext is made twice."""
    for x in E.logged_known(tag):
        E.assume(E.Not(E.eq(t, x[2])))


def fernet(E, a, k):
    """Authenticated encryption: a fresh token per text, which decrypts only with the key that made it."""
    key = a[0]

    def encrypt(E, a, k):
        if E.typename(a[0]) not in ('str', 'bytes'):
            E.raise_exc('TypeError', 'data must be bytes.')
        t = E.func('fernet', 'str', key, a[0])
        fresh(E, 'sym', t)
        E.log('sym', key, a[0], t)
        return t

    def decrypt(E, a, k):
        if E.typename(a[0]) not in ('str', 'bytes'):
            E.raise_exc('TypeError', 'token must be bytes.')
        for key2, text, t in E.logged_known('sym'):
            if E.truth(E.And(E.eq(t, a[0]), E.eq(key, key2))):
                return text
        E.raise_exc('cryptography.fernet.InvalidToken')
    return E.stub('fernet', encrypt=encrypt, decrypt=decrypt)


def new_key(E, a, k):
    v = E.b64(E.bytes('key', 32, inp=False))
    E.log('newkey', v)
    return v


def oaep(E, a, k):
    E.log('oaep', a, k)
    return E.stub('oaep', mgf=k.get('mgf', a[0] if a else None), algorithm=k.get('algorithm', a[1] if len(a) > 1 else None))


def sha(E, a, k):
    return E.stub('sha256', name='sha256', digest_size=32)


LIB = {'cryptography.fernet.Fernet': fernet, 'cryptography.fernet.Fernet.generate_key': new_key,
       'cryptography.hazmat.primitives.asymmetric.padding.OAEP': oaep,
       'cryptography.hazmat.primitives.asymmetric.padding.MGF1': lambda E, a, k: E.stub('mgf1', algorithm=k.get('algorithm', a[0] if a else None)),
       'cryptography.hazmat.primitives.hashes.SHA256': sha,
       'cryptography.hazmat.backends.default_backend': lambda E, a, k: None}


def dumps(E, a):
    t = E.str('json', inp=False)
    for t2, v in E.logged_known('json'):
        E.assume(E.Or(E.Not(E.eq(t, t2)), E.eq(v, a[0])))
    E.log('json', t, a[0])
    return t


def loads(E, a):
    for t, v in E.logged_known('json'):
        if E.truth(E.eq(t, a[0])):
            return v
    E.raise_exc('ValueError', 'not json')


JSON = {'json.dumps': dumps, 'json.loads': loads}


def keypair(E, name):
    """A public and a private key: RSA-OAEP."""
    def pad_ok(E, p):
        E.prove('oaep-sha256', p is not None and E.typename(p) != 'NoneType')
        E.prove('oaep-sha256', E.And(E.eq(E.attr(E.attr(p, 'algorithm'), 'name'), 'sha256'),
                                     E.eq(E.attr(E.attr(E.attr(p, 'mgf'), 'algorithm'), 'name'), 'sha256')))

    def encrypt(E, a, k):
        pad_ok(E, a[1])
        t = E.func('rsa', 'bytes32', name, a[0])
        fresh(E, 'pk', t)
        E.log('pk', name, a[0], t)
        return t

    def decrypt(E, a, k):
        pad_ok(E, a[1])
        E.log('opened', a[0])
        for n, text, t in E.logged_known('pk'):
            if E.truth(E.And(n == name, E.eq(t, a[0]))):
                return text
        E.raise_exc('ValueError', 'Decryption failed.')
    return E.stub('public', encrypt=encrypt), E.stub('private', decrypt=decrypt)


OPTS = dict(contracts=LIB, summaries=JSON, mods=MODS, strfacts=False, strings='abs')


def plain(E, name):
    return E.mkdict([(E.str(name + '.key', gen=['k', 'a key', '']), E.mklist([E.int(name + '.count', 0, 2 ** 80), 'text']))])


@unit('P18', 'share', ['crypto.encrypt', 'crypto.decrypt', 'crypto.encode_data', 'crypto.decode_data', 'crypto.encrypt_pk', 'crypto.decrypt_pk',
                       'crypto.encrypt_symmetric', 'crypto.decrypt_symmetric', 'crypto.generate_symmetric_key', 'crypto.json_serialise'],
      expects=['round-trip', 'fresh-keys', 'whole-text-encrypted', 'only-ciphertexts', 'key-encrypted', 'oaep-sha256'], **OPTS)
def share(E):
    """Two data are encrypted for a key, and one is decrypted."""
    enc, dec = E.fn('crypto.encrypt'), E.fn('crypto.decrypt')
    pub, priv = keypair(E, 'one')
    d1, d2 = plain(E, 'first'), plain(E, 'second')
    r1 = E.run(enc, pub, d1)
    n1 = len(E.logged_known('newkey'))
    r2 = E.run(enc, pub, d2)
    E.prove('no-error', r1.ok and r2.ok, (r1.exc, r2.exc))
    news, syms, pks = E.logged_known('newkey'), E.logged_known('sym'), E.logged_known('pk')
    # one new key for each, used once, and sent only encrypted
    E.prove('fresh-keys', n1 == 1 and len(news) == 2)
    E.prove('fresh-keys', len(syms) == 2 and E.And(E.eq(syms[0][0], news[0][0]), E.eq(syms[1][0], news[1][0])))
    E.prove('key-encrypted', len(pks) == 2 and E.And(E.eq(pks[0][1], news[0][0]), E.eq(pks[1][1], news[1][0])))
    for r, sym, pk in ((r1, syms[0], pks[0]), (r2, syms[1], pks[1])):
        E.prove('only-ciphertexts', E.eq(r.value, E.mkdict([('pk_encrypted_secret_key', E.b64(pk[2])), ('sym_encrypted_data', sym[2])])))
    if not E.concrete:
        for sym, js, d in zip(syms, E.logged_known('json'), (d1, d2)):
            E.prove('whole-text-encrypted', E.And(E.eq(sym[1], E.b64(js[0])), E.same(js[1], d)))
    back = E.run(dec, priv, r2.value)
    E.prove('round-trip', back.ok and E.eq(back.value, d2), (back.exc, back.where))


@unit('P18', 'tampered', ['crypto.decrypt', 'crypto.decrypt_pk', 'crypto.decrypt_symmetric', 'crypto.decode_data'],
      expects=['refused', 'genuine'], **OPTS)
def tampered(E):
    """Decrypting what was made for another key, mixed from two ciphertexts, or changed."""
    enc, dec = E.fn('crypto.encrypt'), E.fn('crypto.decrypt')
    pub, priv = keypair(E, 'one')
    pub2, priv2 = keypair(E, 'two')
    d1, d2 = plain(E, 'first'), plain(E, 'second')
    c1, c2 = E.run(enc, pub, d1).value, E.run(enc, pub, d2).value
    how = E.pick('how', ['other-key', 'mixed', 'mixed-pk', 'data', 'pk', 'same'])
    pk, data, key = E.item(c1, 'pk_encrypted_secret_key'), E.item(c1, 'sym_encrypted_data'), priv
    if how == 'other-key':
        key = priv2
    elif how == 'mixed':
        data = E.item(c2, 'sym_encrypted_data')
    elif how == 'mixed-pk':
        pk = E.item(c2, 'pk_encrypted_secret_key')
    elif how == 'data':
        data = E.str('other', gen=['', 'x' * 100])
    elif how == 'pk':
        pk = E.str('other', gen=['', 'eHh4', 'x'])
    r = E.run(dec, key, E.mkdict([('pk_encrypted_secret_key', pk), ('sym_encrypted_data', data)]))
    syms, pks = E.logged_known('sym'), E.logged_known('pk')
    if r.ok:
        # only a genuine pair can be decrypted, to what was encrypted
        E.prove('genuine', how != 'other-key')
        E.prove('genuine', E.And(E.eq(data, syms[0][2]), E.eq(E.logged_known('opened')[0][0], pks[0][2]), E.eq(r.value, d1)))
    else:
        E.prove('refused', how != 'same', (r.exc, r.where))


@unit('P18', 'hmac', ['crypto.get_hmac', 'crypto.verify_hmac'], expects=['code', 'accepts-only-the-code', 'short-key-refused'],
      contracts={'cryptography.hazmat.primitives.hmac.HMAC': hmac, 'cryptography.hazmat.backends.default_backend': lambda E, a, k: None},
      summaries={'cryptography.hazmat.primitives.hashes.SHA256': lambda E, a: None}, mods=MODS, strfacts=False, strings='abs')
def code(E):
    key = E.str('key', gen=['k' * 31, 'k' * 32, 'k' * 33, ''])
    prefix, data = E.str('prefix', gen=['', 'p']), E.str('data', gen=['', 'd', 'dd'])
    want = E.func('H', 'bytes32', key, E.cat(prefix, data))
    if E.truth(E.bool('get')):
        r = E.run(E.fn('crypto.get_hmac'), key, prefix, data)
        if r.ok:
            E.prove('code', E.eq(r.value, want))
    else:
        given = want if E.concrete and E.truth(E.bool('right')) else E.str('given', gen=['', 'x' * 32])
        r = E.run(E.fn('crypto.verify_hmac'), given, key, prefix, data)
        if r.ok:
            E.prove('accepts-only-the-code', E.Iff(r.value, E.eq(given, want)))
    if not r.ok:
        E.prove('short-key-refused', r.exc == 'AssertionError' and E.lt(E.len(key), 32), (r.exc, r.where))
    else:
        E.prove('short-key-refused', E.ge(E.len(key), 32))


@unit('P18', 'lengths', ['crypto.b64_raw_length', 'crypto.b64_padded_length'], expects=['raw', 'padded', 'negative-refused'], mods=MODS,
      assumes=['floats are treated as reals: byte counts below 2**48'])
def lengths(E):
    n = E.int('bytes', -5, 2 ** 48)
    raw, padded = E.run(E.fn('crypto.b64_raw_length'), n), E.run(E.fn('crypto.b64_padded_length'), n)
    if E.truth(E.lt(n, 0)):
        E.prove('negative-refused', not raw.ok and not padded.ok and raw.exc == 'ValueError')
    else:
        E.prove('raw', raw.ok and E.And(E.ge(E.mul(raw.value, 6), E.mul(n, 8)), E.lt(E.mul(E.sub(raw.value, 1), 6), E.mul(n, 8))))
        E.prove('padded', padded.ok and E.eq(padded.value, E.mul(4, E.div(E.add(n, 2), 3))))
        if E.concrete and n < 3000:
            E.prove('padded', E.eq(padded.value, len(E.b64('x' * n))))
