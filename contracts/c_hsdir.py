# P23: every descriptor upload and download is counted exactly once in each breakdown of the directory counters
from registry import unit
from c_stream import A, MODS, number, aggregator
from lib_events import compare, events_of
from c_circuit import spread

ONLY = {'IntroPointCount': 2, 'RequiresClientAuthFlag': 2, 'DescriptorCreationTime': 2, 'OnionAddress': 2, 'RevisionNumber': 3,
        'SupportedProtocolBitfield': 2, 'IntroPointFingerprintList': 2, 'DescriptorLifetime': 3, 'BlindedEd25519PublicKeyBase64String': 3}
GOOD = {'IntroPointCount': '3', 'RequiresClientAuthFlag': '0', 'DescriptorCreationTime': '3600.0', 'OnionAddress': 'abcdefghijklmnop', 'RevisionNumber': '7',
        'SupportedProtocolBitfield': '0xc', 'IntroPointFingerprintList': 'A' * 40, 'DescriptorLifetime': '10800', 'BlindedEd25519PublicKeyBase64String': 'B' * 43}
ONLY_FETCH = {'CacheLastServedTime': 2, 'CacheCreatedTime': 3}


def exact(E, a, k):
    for o, what, hit in E.logged_known('in'):
        if E.same(o, a[0]):
            E.log('searched', what, a[1], k.get('match_onion_md5', a[2] if len(a) > 2 else False))
            return hit
    return False


OPTS = dict(contracts={'match.exact_match': exact}, mods=MODS, strfacts=False, strings='abs', max_paths=8000, time=300)
COMMON = [A + '._exact_match_bin', A + '.are_hsdir_common_fields_valid', A + '.is_allowed_version_valid', A + '.is_descriptor_byte_count_valid', A + '.get_hs_version']
STORE = COMMON + [A + '._handle_hsdir_store_event', A + '._increment_hsdir_store_counters', A + '._increment_hsdir_store_version_counters',
                  A + '.are_hsdir_store_fields_valid']
FETCH = COMMON + [A + '._handle_hsdir_fetch_event', A + '._increment_hsdir_fetch_counters', A + '._increment_hsdir_fetch_version_counters',
                  A + '.are_hsdir_fetch_fields_valid']


def collector(E, hits):
    """A collector with two lists of each kind; hits: the list that has the value."""
    kinds = ['hsdir_store', 'hsdir_fetch', 'onion_address']
    agg = aggregator(E, **dict((k + '_exact_objs', E.mklist([E.stub(k + '0'), E.stub(k + '1')])) for k in kinds))
    for k in kinds:
        for i in range(2):
            E.log('in', E.item(E.attr(agg, k + '_exact_objs'), i), k, hits[k] == i)
    return agg


def event(version, store, **more):
    f = {'EventTimestamp': '7200.5', 'HiddenServiceVersionNumber': str(version), 'CacheReasonString': 'REASON'}
    if store:
        f['WasAddedToCacheFlag'] = '1'
    else:
        f['CacheQueryByteCount'] = '52'
    f.update(more)
    return f


def handle(E, agg, f, store):
    r = E.m(agg, '_handle_hsdir_store_event' if store else '_handle_hsdir_fetch_event', E.mkdict(sorted(f.items())))
    E.prove('accepted', r.ok and E.eq(r.value, True), (r.exc, r.where))


def flag(E, f, name):
    """An optional flag: its value, or None."""
    v = E.pick(name, [None, False, True])
    if v is not None:
        f[name] = '1' if v else '0'
    return v


def optional(E, f, name, good, on):
    if on and E.truth(E.bool('has_' + name)):
        f[name] = good
        return True
    return False


def descriptor(E, store, amounts):
    events_of(E, 'ZeroCount')
    hits = dict((k, E.pick(k, [None, 0, 1]) if amounts else 1) for k in ('hsdir_store' if store else 'hsdir_fetch', 'onion_address'))
    hits.setdefault('hsdir_store', 0 if hits.get('hsdir_fetch') != 0 else 1)
    hits.setdefault('hsdir_fetch', 0 if hits.get('hsdir_store') != 0 else 1)
    agg = collector(E, hits)
    version = E.pick('version', [2, 3])
    f = event(version, store)
    words = []
    if store:
        added = True if amounts else E.truth(E.bool('added'))
        f['WasAddedToCacheFlag'] = '1' if added else '0'
        words.append('Add' if added else 'Reject')
    cached = None if amounts else flag(E, f, 'HasExistingCacheEntryFlag' if store else 'HasCacheEntryFlag')
    words.append('Cached' if cached else 'Uncached')
    auth = flag(E, f, 'RequiresClientAuthFlag') if version == 2 and not amounts else None
    v = {}
    when, created = 7200.5, 3600.0
    if amounts:
        limit = 40960 if version == 2 else 2 ** 20
        for n, gen in (('EncodedIntroPointByteCount', [0, 5, 100]), ('EncodedDescriptorByteCount', [100, 1000, 40960])):
            f[n], v[n] = number(E, n, gen)
            E.assume(E.And(E.ge(v[n], 0), E.le(v[n], limit)))
        E.assume(E.le(v['EncodedIntroPointByteCount'], v['EncodedDescriptorByteCount']))
        f['EventTimestamp'], when = number(E, 'when', [7200.5, 1e9], 'float')
        E.assume(E.And(E.ge(when, 0), E.lt(when, 4e9)))
        if version == 2:
            f['OnionAddress'] = GOOD['OnionAddress']
            v['OnionAddress'] = hits['onion_address']
            f['IntroPointCount'], v['IntroPointCount'] = number(E, 'intros', [0, 3, 10])
            E.assume(E.And(E.ge(v['IntroPointCount'], 0), E.le(v['IntroPointCount'], 10)))
            f['DescriptorCreationTime'], created = number(E, 'created', [3600.0, 5e8], 'float')
            E.assume(E.And(E.ge(created, 0), E.lt(created, 4e9)))
            v['DescriptorCreationTime'] = created
        else:
            f['RevisionNumber'], v['RevisionNumber'] = number(E, 'revision', [0, 1, 10 ** 9])
            E.assume(E.ge(v['RevisionNumber'], 0))
    else:
        for n, good, val in (('EncodedIntroPointByteCount', '5', 5), ('EncodedDescriptorByteCount', '90', 90)):
            if optional(E, f, n, good, True):
                v[n] = val
        for n, val in (('IntroPointCount', 3), ('DescriptorCreationTime', 3600.0), ('OnionAddress', 1), ('RevisionNumber', 7)):
            if optional(E, f, n, GOOD[n], ONLY[n] == version):
                v[n] = val
    handle(E, agg, f, store)
    what = 'Store' if store else 'Fetch'
    reason = hits['hsdir_store' if store else 'hsdir_fetch']
    shared = [('Count', '<', 1), ('ReasonCountList', float('inf') if reason is None else reason, 1)]
    for n, s in (('EncodedIntroPointByteCount', 'IntroByte'), ('EncodedDescriptorByteCount', 'DescriptorByte')):
        if n in v:
            shared += [(s + 'Count', '<', v[n]), (s + 'Histogram', v[n], 1)]
    own = []
    if 'OnionAddress' in v:
        own.append(('OnionAddressCountList', float('inf') if v['OnionAddress'] is None else v['OnionAddress'], 1))
    if 'IntroPointCount' in v:
        own.append(('IntroPointHistogram', v['IntroPointCount'], 1))
    if 'DescriptorCreationTime' in v and store:
        own.append(('UploadDelayTime', E.sub(when, created), 1))
    if 'RevisionNumber' in v:
        own.append(('RevisionHistogram', v['RevisionNumber'], 1))
    want = []
    for s, b, i in shared:
        want += [(n, b, i) for n in spread(('HSDir' + what, s), *words)]
    mine = words + ([] if auth is None else ['ClientAuth' if auth else 'NoClientAuth'])
    for s, b, i in shared + own:
        want += [(n, b, i) for n in spread(('HSDir%d%s' % (version, what), s), *mine)]
    compare(E, want, 'PRIVCOUNT_HSDIR_CACHE_STORE' if store else 'PRIVCOUNT_HSDIR_CACHE_FETCH')
    for k, value, md5 in E.logged_known('searched'):
        E.prove('right-text', k in (('hsdir_store' if store else 'hsdir_fetch'), 'onion_address') and
                E.And(E.eq(value, GOOD['OnionAddress'] if k == 'onion_address' else 'REASON'), E.eq(md5, k == 'onion_address')), k)


PROVED = ['accepted', 'each-once', 'requested', 'right-amounts', 'right-text']


@unit('P23', 'store', STORE, expects=PROVED, **OPTS)
def store(E):
    """An upload with any flags and any optional fields."""
    descriptor(E, True, False)


@unit('P23', 'fetch', FETCH, expects=PROVED, **OPTS)
def fetch(E):
    """A download with any flags and any optional fields."""
    descriptor(E, False, False)


@unit('P23', 'amounts', STORE + FETCH, expects=PROVED, **OPTS)
def amounts(E):
    """Any sizes, times and matches."""
    descriptor(E, E.truth(E.bool('store')), True)


@unit('P23', 'dropped', STORE + FETCH, expects=['accepted', 'not-counted'], **OPTS)
def dropped(E):
    """A descriptor with a field of the other version, without a field it must have, or that is too large."""
    store = E.truth(E.bool('store'))
    agg = collector(E, dict.fromkeys(['hsdir_store', 'hsdir_fetch', 'onion_address'], 0))
    version = E.pick('version', [2, 3])
    f = event(version, store)
    for n in sorted(ONLY):
        if ONLY[n] == version:
            f[n] = GOOD[n]
    only = dict(ONLY, **({} if store else ONLY_FETCH))
    faults = ['large', 'intros'] + sorted(n for n in only if only[n] != version) + sorted(event(2, store))
    fault = E.pick('fault', faults)
    if fault == 'large':
        n = E.pick('which', ['EncodedIntroPointByteCount', 'EncodedDescriptorByteCount'])
        f[n], size = number(E, 'size', [40961, 2 ** 20 + 1, -1])
        E.assume(E.Or(E.lt(size, 0), E.gt(size, 40960 if version == 2 else 2 ** 20)))
    elif fault == 'intros':
        f['EncodedIntroPointByteCount'], i = number(E, 'intro', [1, 6, 1000])
        f['EncodedDescriptorByteCount'], d = number(E, 'all', [0, 5, 999])
        E.assume(E.gt(i, d))
    elif fault in f:
        del f[fault]
    else:
        f[fault] = GOOD.get(fault, '100')
    handle(E, agg, f, store)
    E.prove('not-counted', len(E.logged_known('inc')) == 0, fault)
