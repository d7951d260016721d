# P02: every count leaving a data collector is blinded by one fresh share per share keeper, and the shares cancel
from registry import unit
import lib_counters as L
from c_sample import sample_contract
from c_tally import start, RSHAPES, well_formed, check_summary, add_summary

CALLEES = {'counter.SecureCounters._check_counter': check_summary, 'counter.SecureCounters._tally_counter': add_summary}

SC = 'counter.SecureCounters.'


@unit('P02', 'blind_one', [SC + '_blind', SC + '_derive_all_counters', 'counter.derive_blinding_factor'],
      contracts={'counter.sample': sample_contract}, expects=['share-sampled', 'count-blinded', 'share-complete', 'own-copy'],
      shapes=RSHAPES, summaries=CALLEES)
def blind_one(E):
    cfg, g, i, m, s = start(E, [2 ** 70])
    n = E.len(E.item(E.item(cfg, g), 'bins'))
    a = E.int('before', 0, m - 1)
    E.put(L.cell(E, E.attr(s, 'counters'), g, i), 2, a)
    r = E.m(s, '_blind')
    if E.concrete:
        E.prove('no-error', r.ok, (r.where, r.exc))
    if not r.ok:
        return
    E.prove('share-complete', well_formed(E, r.value, g, n))
    x = L.cell(E, r.value, g, i)
    draws = E.logged_known('sample')
    E.prove('share-complete', E.eq(E.len(x), 3))
    f = E.item(x, 2)
    # the factor is one of the values sampled from the whole range
    E.prove('share-sampled', E.Or(*[E.And(E.eq(f, v), E.eq(k, m)) for k, v in draws]))
    E.prove('count-blinded', E.eq(L.count(E, E.attr(s, 'counters'), g, i), E.mod(E.add(a, f), m)))
    # what is handed out does not share memory with the counters
    E.prove('own-copy', E.Not(E.same(x, L.cell(E, E.attr(s, 'counters'), g, i))))
    if E.concrete:
        total = sum(len(cfg[k]['bins']) for k in cfg)
        E.prove('one-draw-per-bin', len(draws) == total)


def blind_summary(E, args):
    """Contract of _blind, proved by blind_one."""
    s = args[0]
    m, g, i = E.gget('m'), E.gget('g'), E.gget('i')
    bins = E.item(E.item(E.attr(s, 'counters'), g), 'bins')
    n = E.len(bins)
    old = L.count(E, E.attr(s, 'counters'), g, i)
    f = E.int('factor', 0, m - 1)
    E.gset('total', E.add(E.gget('total'), f))
    E.gset('last', f)
    E.log('factor', f)
    E.havoc_rest(E.attr(s, 'counters'), g, 'counter3r')
    E.havoc_rest(bins, i, 'bin3r')
    E.put(E.item(bins, i), 2, E.mod(E.add(old, f), m))
    d = E.dict('share', L.key, L.counter3, generic=[g], shape='counter3')
    E.assume(E.has(d, g))
    b = E.item(E.item(d, g), 'bins')
    E.assume(E.eq(E.len(b), n))
    x = E.item(b, i)
    E.put(x, 2, f)
    return d


def blinded(E, fr):
    s = E.gget('s')
    if s is None or E.gget('total') is None:
        return None
    v = L.count(E, E.attr(s, 'counters'), E.gget('g'), E.gget('i'))
    return E.And(E.eq(E.mod(v, E.gget('m')), E.mod(E.gget('total'), E.gget('m'))), E.le(0, v), E.lt(v, E.gget('m')))


@unit('P02', 'shares', [SC + 'generate_blinding_shares', SC + 'detach_blinding_shares'],
      expects=['every-keeper', 'labelled', 'blinded-by-all', 'share-is-factor', 'detached'],
      shapes=RSHAPES, summaries={SC + '_blind': blind_summary}, loop_hints={SC + 'generate_blinding_shares': [blinded]},
      contracts={'counter.sample': sample_contract})
def shares(E):
    cfg, g, i, m, s = start(E, [2 ** 70])
    u = E.str('keeper', gen=['A', 'B'])
    uids = E.dict('keepers', L.key, lambda E, k: 1, generic=[u])
    E.assume(E.has(uids, u))
    base = E.int('before', 0, m - 1)
    E.put(L.cell(E, E.attr(s, 'counters'), g, i), 2, base)
    E.gset('total', base)
    r = E.m(s, 'generate_blinding_shares', uids)
    E.prove('no-error', r.ok, (r.where, r.exc))
    if not r.ok:
        return
    r = E.m(s, 'detach_blinding_shares')
    E.prove('no-error', r.ok, (r.where, r.exc))
    if not r.ok:
        return
    out = r.value
    E.prove('detached', E.is_none(E.attr(s, 'shares')))
    E.prove('every-keeper', E.has(out, u))
    sh = E.item(out, u)
    E.prove('labelled', E.eq(E.item(sh, 'sk_uid'), u))
    f = L.count(E, E.item(sh, 'secret'), g, i)
    if E.concrete:
        total = base + sum(out[k]['secret'][g]['bins'][i][2] for k in out)
        E.prove('only-keepers', sorted(out) == sorted(uids))
        E.prove('fresh', len(E.logged('sample')) == len(uids) * sum(len(cfg[k]['bins']) for k in cfg))
    else:
        total = E.gget('total')
        E.prove('share-is-factor', E.Or(*[E.eq(f, x[0]) for x in E.logged_known('factor')]))
    E.prove('blinded-by-all', E.eq(E.mod(L.count(E, E.attr(s, 'counters'), g, i), m), E.mod(total, m)))


@unit('P02', 'unblind_one', [SC + 'import_blinding_share', SC + '_unblind', SC + '_derive_all_counters',
                             'counter.derive_blinding_factor'],
      contracts={'counter.sample': sample_contract},
      expects=['share-removed', 'no-new-randomness', 'incomplete-refused'], shapes=RSHAPES, summaries=CALLEES)
def unblind_one(E):
    cfg, g, i, m, s = start(E, [2 ** 70])
    n = E.len(E.item(E.item(cfg, g), 'bins'))
    a = E.int('before', 0, m - 1)
    E.put(L.cell(E, E.attr(s, 'counters'), g, i), 2, a)
    d = L.report(E, cfg, g, lo=0, hi=m - 1)
    complete = bool(well_formed(E, d, g, n)) and E.truth(E.eq(E.len(L.cell(E, d, g, i)), 3))
    if E.concrete:
        before = E.copy(E.attr(s, 'counters'))
        ok = all(k in d and len(d[k]['bins']) == len(cfg[k]['bins']) and all(len(b) == 3 for b in d[k]['bins'])
                 for k in cfg)
    if complete:
        f = E.item(L.cell(E, d, g, i), 2)
        if not E.concrete:
            E.assume(E.And(E.le(0, f), E.lt(f, m)))
    r = E.m(s, 'import_blinding_share', E.mkdict([('secret', d), ('sk_uid', 'k')]))
    if not complete:
        E.prove('incomplete-refused', E.Not(r.ok and E.truth(r.value)))
        if not r.ok:
            return
    if not r.ok:
        return
    E.prove('no-new-randomness', E.eq(len(E.logged('sample')), 0))
    v = L.count(E, E.attr(s, 'counters'), g, i)
    if E.truth(r.value):
        if complete:
            E.prove('share-removed', E.eq(v, E.mod(E.sub(a, f), m)))
    else:
        E.prove('rejected-unchanged', E.eq(v, a))
    if E.concrete:
        E.prove('accepts-well-formed', bool(r.value) == ok)
        if not r.value:
            E.prove('rejected-unchanged', s.counters == before)


@unit('P02', 'rejects_out_of_range', ['counter.derive_blinding_factor'], expects=['rejected'])
def rejects(E):
    m, v = E.int('modulus', 1), E.int('secret')
    E.assume(E.ge(v, m))
    r = E.run(E.fn('counter.derive_blinding_factor'), v, m, E.bool('positive'))
    E.prove('rejected', E.Not(r.ok))


@unit('P02', 'cancel', ['counter.derive_blinding_factor'], expects=['cancels'])
def cancel(E):
    """Blinding followed by unblinding with the same factor is the identity mod m."""
    m = E.pick('modulus', [2 ** 70, 12, 1])
    f, c = E.int('factor', 0, m - 1), E.int('count')
    b = E.run(E.fn('counter.derive_blinding_factor'), f, m, True)
    u = E.run(E.fn('counter.derive_blinding_factor'), f, m, False)
    E.prove('cancels', b.ok and u.ok and E.eq(E.mod(E.add(E.add(c, b.value), u.value), m), E.mod(c, m)))


@unit('P02', 'pipeline', [SC + 'tally_counters', SC + 'increment'], static=False, cases=250)
def pipeline(E):
    """Data collectors, share keepers and the tally server together: the result is counts plus noise."""
    cfg, g, i, (lo, hi) = L.config(E)
    SCs = E.fn('counter.SecureCounters')
    m = E.pick('modulus', [2 ** 70, 2 ** 70, 101])
    keepers = ['k%d' % k for k in range(E.int('keepers', 1, 3))]
    want = dict((k, [0] * len(cfg[k]['bins'])) for k in cfg)
    reports, to_keeper = [], dict((k, []) for k in keepers)
    for d in range(E.int('collectors', 1, 4)):
        s = SCs(cfg, m, False)
        s.generate_blinding_shares(keepers)
        for k, sh in s.detach_blinding_shares().items():
            to_keeper[k].append(sh)
        for _ in range(E.int('events', 0, 6)):
            name = E.rng.choice(sorted(cfg) + ['NoSuchCounter'])
            inc = E.rng.choice([1, 1, 2, 5, 0, 1000, -3])
            if name in cfg and len(cfg[name]['bins']) == 1:
                s.increment(name, bin=SCs.SINGLE_BIN, inc=inc)
                if cfg[name]['bins'][0][0] <= 1.0 and (1.0 < cfg[name]['bins'][0][1] or
                                                       cfg[name]['bins'][0][1] == float('inf')):
                    want[name][0] += inc
            else:
                v = E.rng.choice([0.0, 0.25, 0.5, 1, 1.5, 2, 511, 512, 1e12, float('inf'), -1])
                s.increment(name, bin=v, inc=inc)
                for j, b in enumerate(cfg.get(name, {'bins': []})['bins']):
                    if b[0] <= v and (v < b[1] or b[1] == float('inf')):
                        want[name][j] += inc
        reports.append(s.detach_counts())
    for k in keepers:
        s = SCs(cfg, m, False)
        for sh in to_keeper[k]:
            E.prove('share-accepted', s.import_blinding_share(sh))
        reports.append(s.detach_counts())
    t = SCs(cfg, m, False)
    E.prove('tally-accepted', t.tally_counters(reports))
    out = t.detach_counts()
    for k in cfg:
        for j in range(len(cfg[k]['bins'])):
            w = want[k][j] % m
            if w >= (m + 1) // 2:
                w -= m
            E.prove('sum-of-counts', out[k]['bins'][j][2] == w, (k, j, out[k]['bins'][j][2], w))
