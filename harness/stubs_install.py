# Stand-ins for the third-party packages that are not installed in this sandbox
# (cryptography, pyasn, pyOpenSSL).  They implement the *assumed contracts* of
# those packages: deterministic, keyed, authenticated, length-preserving where
# the real ones are.  They are trusted, and listed as such in the evidence.
import sys, types, hashlib, hmac as _hmac, base64, os


def mod(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m
    if '.' in name:
        p, n = name.rsplit('.', 1)
        if p in sys.modules:
            setattr(sys.modules[p], n, m)
    return m


class InvalidSignature(Exception):
    pass


class UnsupportedAlgorithm(Exception):
    pass


class SHA256(object):
    digest_size = 32
    name = 'sha256'


class HMAC(object):
    def __init__(self, key, algorithm, backend=None):
        assert isinstance(algorithm, SHA256)
        self.h = _hmac.new(key, digestmod=hashlib.sha256)

    def update(self, data):
        self.h.update(data)

    def finalize(self):
        return self.h.digest()

    def verify(self, sig):
        if self.h.digest() != sig:
            raise InvalidSignature()


class InvalidToken(Exception):
    pass


class Fernet(object):
    def __init__(self, key):
        k = base64.urlsafe_b64decode(key)
        if len(k) != 32:
            raise ValueError('Fernet key must be 32 url-safe base64-encoded bytes.')
        self.k = k

    @staticmethod
    def generate_key():
        return base64.urlsafe_b64encode(os.urandom(32))

    def stream(self, n):
        out, i = '', 0
        while len(out) < n:
            out += hashlib.sha256(self.k + 'enc%d' % i).digest()
            i += 1
        return out[:n]

    def encrypt(self, data):
        c = ''.join(chr(ord(a) ^ ord(b)) for a, b in zip(data, self.stream(len(data))))
        return base64.urlsafe_b64encode(_hmac.new(self.k, c, hashlib.sha256).digest() + c)

    def decrypt(self, token):
        try:
            raw = base64.urlsafe_b64decode(token)
        except TypeError:
            raise InvalidToken()
        t, c = raw[:32], raw[32:]
        if _hmac.new(self.k, c, hashlib.sha256).digest() != t:
            raise InvalidToken()
        return ''.join(chr(ord(a) ^ ord(b)) for a, b in zip(c, self.stream(len(c))))


class OAEP(object):
    def __init__(self, mgf, algorithm, label):
        self.mgf, self.algorithm, self.label = mgf, algorithm, label
        assert isinstance(algorithm, SHA256) and isinstance(mgf.algorithm, SHA256)


class MGF1(object):
    def __init__(self, algorithm):
        self.algorithm = algorithm


class FakePublic(object):
    """RSA-OAEP stand-in: recoverable only by the key with the same identity."""
    key_size = 4096

    def __init__(self, ident):
        self.ident = ident

    def encrypt(self, data, pad):
        assert isinstance(pad, OAEP)
        if len(data) > 446:
            raise ValueError('Encryption failed: data too long')
        k = hashlib.sha256('rsa' + self.ident).digest()
        body = chr(len(data) // 256) + chr(len(data) % 256) + data
        body += '\0' * (480 - len(body))
        s, i = '', 0
        while len(s) < 480:
            s += hashlib.sha256(k + str(i)).digest()
            i += 1
        c = ''.join(chr(ord(a) ^ ord(b)) for a, b in zip(body, s))
        return _hmac.new(k, c, hashlib.sha256).digest() + c

    def public_bytes(self, encoding, format):
        return '-----BEGIN PUBLIC KEY-----\n%s\n-----END PUBLIC KEY-----\n' % base64.b64encode(self.ident)


class FakePrivate(object):
    key_size = 4096

    def __init__(self, ident):
        self.ident = ident

    def public_key(self):
        return FakePublic(self.ident)

    def decrypt(self, data, pad):
        assert isinstance(pad, OAEP)
        k = hashlib.sha256('rsa' + self.ident).digest()
        t, c = data[:32], data[32:]
        if len(data) != 512 or _hmac.new(k, c, hashlib.sha256).digest() != t:
            raise ValueError('Decryption failed.')
        s, i = '', 0
        while len(s) < 480:
            s += hashlib.sha256(k + str(i)).digest()
            i += 1
        b = ''.join(chr(ord(x) ^ ord(y)) for x, y in zip(c, s))
        n = ord(b[0]) * 256 + ord(b[1])
        return b[2:2 + n]


def load_pem_public_key(data, backend=None):
    lines = data.strip().splitlines()
    if len(lines) != 3 or 'PUBLIC KEY' not in lines[0]:
        raise ValueError('Could not unserialize key data.')
    return FakePublic(base64.b64decode(lines[1]))


def load_pem_private_key(data, password=None, backend=None):
    lines = data.strip().splitlines()
    if len(lines) != 3 or 'PRIVATE KEY' not in lines[0]:
        raise ValueError('Could not unserialize key data.')
    return FakePrivate(base64.b64decode(lines[1]))


class Any(object):
    def __getattr__(self, n):
        return n


def install():
    import imp
    import twisted
    import twisted.internet.protocol
    # twisted.protocols is a deprecation proxy from which Jython cannot import
    # submodules: load the real twisted/protocols/basic.py from its file
    for base in sys.path:
        fn = os.path.join(base, 'twisted', 'protocols', 'basic.py')
        if os.path.exists(fn):
            m = imp.load_source('twisted_protocols_basic', fn)
            sys.modules['twisted.protocols.basic'] = m
            break
    mod('cryptography')
    mod('cryptography.hazmat')
    mod('cryptography.hazmat.primitives')
    h = mod('cryptography.hazmat.primitives.hashes', SHA256=SHA256)
    hm = mod('cryptography.hazmat.primitives.hmac', HMAC=HMAC)
    ser = mod('cryptography.hazmat.primitives.serialization', load_pem_public_key=load_pem_public_key,
              load_pem_private_key=load_pem_private_key, Encoding=Any(), PublicFormat=Any(), PrivateFormat=Any(),
              NoEncryption=lambda: None)
    mod('cryptography.hazmat.primitives.asymmetric')
    mod('cryptography.hazmat.primitives.asymmetric.rsa')
    mod('cryptography.hazmat.primitives.asymmetric.padding', OAEP=OAEP, MGF1=MGF1)
    mod('cryptography.hazmat.backends', default_backend=lambda: None)
    mod('cryptography.x509')
    mod('cryptography.fernet', Fernet=Fernet, InvalidToken=InvalidToken)
    mod('cryptography.exceptions', UnsupportedAlgorithm=UnsupportedAlgorithm, InvalidSignature=InvalidSignature)

    class FakeAsn(object):
        def __init__(self, *a, **k):
            self.d = {}
    mod('pyasn', pyasn=FakeAsn)
    mod('OpenSSL', SSL=Any(), crypto=Any())
    ssl = mod('twisted.internet.ssl', DefaultOpenSSLContextFactory=lambda *a, **k: None,
              ClientContextFactory=lambda *a, **k: None)
