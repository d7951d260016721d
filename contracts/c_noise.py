# P05: counts carry exactly one noise sample per bin before they can leave a data collector
from registry import unit
import lib_counters as L
from c_tally import start, RSHAPES, add_summary, check_summary

SC = 'counter.SecureCounters.'


def noise_contract(E, a, k):
    v = E.float('noise', lo=-1e15, hi=1e15, gen=[0.0, 0.4, 0.5, -0.5, 1.5, -2.5, 3.0, -1e9])
    E.log('noise', a[0], a[1], a[2], v)
    return v


def accepted_summary(E, args):
    # structural agreement of the noise with the counters is checked at run time by generate_noise_all
    E.gset('checked', args[1])
    return add_summary(E, args)


@unit('P05', 'generate_noise', [SC + 'generate_noise'], contracts={'counter.noise': noise_contract}, shapes=RSHAPES,
      summaries={SC + '_tally_counter': accepted_summary},
      expects=['noise-added', 'own-sigma-and-weight', 'no-longer-pending'])
def generate_noise(E):
    cfg, g, i, m, s = start(E, [2 ** 70])
    a = E.int('before', 0, m - 1)
    E.put(L.cell(E, E.attr(s, 'counters'), g, i), 2, a)
    sigma = E.item(E.item(cfg, g), 'sigma')
    w = E.float('weight', lo=0, hi=1)
    if E.concrete:
        before = E.copy(E.attr(s, 'counters'))
    r = E.m(s, 'generate_noise', w)
    E.prove('no-error', r.ok, (r.where, r.exc))
    if not r.ok:
        return
    E.prove('no-longer-pending', E.Not(E.attr(s, 'is_noise_pending')))
    c = L.count(E, E.attr(s, 'counters'), g, i)
    calls = E.logged('noise') if E.concrete else E.logged_known('noise')
    def fits(x):
        return E.And(E.eq(c, E.mod(E.add(a, E.round(x[3])), m)))
    E.prove('noise-added', E.Or(*[fits(x) for x in calls]))
    E.prove('own-sigma-and-weight', E.Or(*[E.And(fits(x), E.eq(x[0], sigma), E.eq(x[1], 1), E.eq(x[2], w))
                                           for x in calls]))
    if E.concrete:
        n = sum(len(before[k]['bins']) for k in before)
        E.prove('one-sample-per-bin', len(calls) == n)
        # every sample is used exactly once, for a bin of its own counter
        left = list(calls)
        for k in before:
            for j, x in enumerate(before[k]['bins']):
                d = (s.counters[k]['bins'][j][2] - x[2]) % m
                for y in left:
                    if y[0] == cfg[k]['sigma'] and y[2] == w and int(round(y[3])) % m == d:
                        left.remove(y)
                        break
                else:
                    E.fail('one-sample-per-bin', (k, j))


@unit('P05', 'noise', ['counter.noise'], expects=['gaussian', 'csprng'],
      contracts={'random.SystemRandom': lambda E, a, k: E.stub('SystemRandom', gauss=gauss)})
def noise(E):
    sigma, w = E.float('sigma', lo=0, finite=True), E.float('weight', lo=0, hi=1)
    q = E.pick('sumsq', [1, 4, 0.25])
    r = E.run(E.fn('counter.noise'), sigma, q, w)
    E.prove('no-error', r.ok, r.where)
    if not r.ok:
        return
    calls = E.logged('gauss')
    E.prove('csprng', len(calls) == 1 and E.eq(r.value, calls[0][2]))
    root = {1: 1.0, 4: 2.0, 0.25: 0.5}[q]
    s = calls[0][1]
    want = E.div(E.mul(w, sigma), root)
    if E.concrete:
        E.prove('gaussian', calls[0][0] == 0 and abs(s - want) <= 1e-9 * abs(want))
    else:
        E.prove('gaussian', E.And(E.eq(calls[0][0], 0), E.eq(s, want)))


def gauss(E, a, k):
    v = E.float('gauss', finite=True)
    E.log('gauss', a[0], a[1], v)
    return v


def noise_summary(E, args):
    E.set(args[0], 'is_noise_pending', False)


@unit('P05', 'guard', [SC + 'detach_counts', SC + '__init__'], shapes=RSHAPES, expects=['no-noise-no-counts', 'detached', 'all-counts'],
      contracts={'counter.noise': noise_contract}, summaries={SC + 'generate_noise': noise_summary})
def guard(E):
    cfg, g, i, (lo, hi) = L.config(E)
    need = E.pick('require', ['default', True, False])
    if need == 'default':
        s = E.new('counter.SecureCounters', cfg, 2 ** 70)
        need = True
    else:
        s = E.new('counter.SecureCounters', cfg, 2 ** 70, need)
    for k, v in (('s', s), ('m', 2 ** 70), ('g', g), ('i', i)):
        E.gset(k, v)
    noisy = E.truth(E.bool('noise'))
    if noisy:
        r = E.m(s, 'generate_noise', 1.0)
        E.assume(r.ok)
    cs = E.attr(s, 'counters')
    r = E.m(s, 'detach_counts')
    if need and not noisy:
        E.prove('no-noise-no-counts', E.Not(r.ok))
        E.prove('kept', E.Not(E.is_none(E.attr(s, 'counters'))))
        return
    E.prove('all-counts', r.ok and E.same(r.value, cs))
    E.prove('detached', E.is_none(E.attr(s, 'counters')))
    # nothing can be counted or detached twice
    r2 = E.m(s, 'increment', g, 1.0, 1)
    r3 = E.m(s, 'detach_counts')
    E.prove('detached', E.Or(E.Not(r3.ok), r3.ok and E.is_none(r3.value)))
