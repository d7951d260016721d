#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current source.

1. extract the AST of /repo/privcount with the interpreter that runs privcount;
2. generate and discharge the obligations of every contract unit of the property;
3. run the same contracts as runtime checks on the real code (replay of the
   verifier's counterexamples, then seeded inputs);
4. decide, write the evidence file.
"""
import sys, os, json, time, subprocess, tempfile, shutil, multiprocessing, importlib, traceback, signal

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('PV_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'contracts'))
sys.setrecursionlimit(20000)

MODULES = ['config', 'connection', 'counter', 'crypto', 'data_collector', 'inject', 'log', 'match', 'node', 'plot',
           'protocol', 'share_keeper', 'statistics_noise', 'tagged_event', 'tally_server', 'traffic_model']
JY = '/opt/vp/jy.sh'


def contract_files():
    return sorted(f[:-3] for f in os.listdir(os.path.join(VERIF, 'contracts'))
                  if f.endswith('.py') and f not in ('registry.py',) and not f.startswith('lib_'))


def load_units():
    import registry
    for f in contract_files():
        importlib.import_module(f)
    return registry.UNITS


def extract(tmp):
    out = os.path.join(tmp, 'ast.json')
    mods = [m for m in MODULES if os.path.exists('%s/privcount/%s.py' % (REPO, m))]
    r = subprocess.run(['bash', JY, os.path.join(HERE, 'extract.py'), REPO, out] + mods,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
    if not os.path.exists(out):
        raise RuntimeError('extraction failed: ' + r.stdout.decode('utf-8', 'replace')[-2000:])
    return json.load(open(out))


def explore(u, asts, opts):
    """All paths of one unit."""
    import gc
    import z3
    import engine
    from values import PathEnd, Unsupported, PyExc
    from api import Api
    from engine import Program, BreakX, ContinueX, ReturnX, TimeUp
    from forker import Forker
    gc.collect()
    gc.freeze()
    gc.set_threshold(200000, 20, 100)
    z3.set_param('smt.random_seed', 1)
    t0 = time.time()
    prog = Program(asts)
    stats = {'feas': 0, 'feas_s': 0.0, 'obl': {}}
    res = {'key': '%s.%s' % (u.prop, u.name), 'paths': 0, 'ended': 0, 'unsupported': {}, 'incomplete': None,
           'escaped': []}
    mods = u.opts.get('mods') or sorted(set(t.split('.')[0] for t in u.targets))
    try:
        e0 = Api(prog, u, [], stats, opts)
        for m in mods:
            e0.module(m)
        for t in u.targets:
            e0.get(t)
    except (Unsupported, PyExc) as x:
        res['unsupported']['loading: %s' % x] = 1
        res.update(stats=stats, called=[], externals=[], wall=time.time() - t0)
        return res
    limit = u.opts['time'] * opts.get('scale', 1)
    opts = dict(opts, deadline=t0 + limit)
    E = Api(prog, u, [], stats, opts)
    fk = E.forker = Forker(prog, opts.get('sem'), u.opts['max_paths'] * opts.get('scale', 1), t0 + limit)

    def unsup(k):
        k = k[:300]
        fk.res['unsupported'][k] = fk.res['unsupported'].get(k, 0) + 1
        if os.environ.get('PV_DEBUG'):
            traceback.print_exc()
    try:
        u.fn(E)
        fk.res['ended'] += 1
    except PathEnd:
        pass
    except TimeUp:
        fk.res['incomplete'] = 'time limit of %d s' % limit
    except Unsupported as x:
        unsup('%s (in %s line %s)' % (x, E.where, E.line))
    except PyExc as x:
        E.frames = []
        E.inner = 0
        E.prove('contract-evaluates', False, 'exception escaped the contract: %s' % x)
    except RecursionError:
        unsup('recursion')
    except (BreakX, ContinueX, ReturnX) as x:
        unsup('control flow ' + type(x).__name__)
    except z3.Z3Exception as x:
        unsup('z3: %s (in %s line %s)' % (x, E.where, E.line))
    except Exception as x:
        unsup('engine: %s: %s (in %s line %s)' % (type(x).__name__, x, E.where, E.line))
    except BaseException as x:
        fk.res['incomplete'] = repr(x)
    fk.res['paths'] += 1
    res.update(fk.finish(E))
    for o in stats['obl'].values():
        o['failed'].sort(key=lambda f: (bool(f['taint']), len(f['path'])))
        del o['failed'][40:]
    res.update(stats=stats, called=sorted(prog.called), externals=sorted(prog.externals), wall=time.time() - t0)
    return res


_ctx = {}


def _job(key):
    u = _ctx['units'][key]
    try:
        return explore(u, _ctx['asts'], _ctx['opts'])
    except MemoryError:
        return {'key': key, 'crash': 'memory'}
    except BaseException:
        return {'key': key, 'crash': traceback.format_exc()[-2000:]}


def _worker(key, q):
    os.setsid()
    r = _job(key)
    q.put(json.loads(json.dumps(r, default=repr)))


def wait_for(q, t):
    try:
        return q._reader.poll(t)
    except Exception:
        return False


def release(sem):
    try:
        sem.release()
    except ValueError:
        pass


def run_static(units, asts, opts):
    """One process per unit, with a hard time limit."""
    _ctx.update(units=dict(('%s.%s' % (u.prop, u.name), u) for u in units), asts=asts, opts=opts)
    pend = sorted(_ctx['units'], key=lambda k: -_ctx['units'][k].opts['time'])
    running, out = {}, {}
    mp = multiprocessing.get_context('fork')
    ncpu = int(os.environ.get('PV_JOBS', '8'))
    sem = opts['sem'] = mp.BoundedSemaphore(ncpu)
    while pend or running:
        while pend and len(running) < ncpu:
            if not sem.acquire(False):
                break
            k = pend.pop(0)
            q = mp.SimpleQueue()
            p = mp.Process(target=_worker, args=(k, q))
            p.start()
            running[k] = (p, q, time.time())
        for k in list(running):
            p, q, t = running[k]
            if wait_for(q, 0.05):
                out[k] = q.get()
                p.join()
                del running[k]
                release(sem)
                continue
            lim = _ctx['units'][k].opts['time'] * opts.get('scale', 1) + 60
            if time.time() - t > lim or not p.is_alive():
                if wait_for(q, 0.5):
                    out[k] = q.get()
                else:
                    out[k] = {'key': k, 'crash': 'no answer within %d s' % lim if p.is_alive() else 'worker died'}
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    p.kill()
                p.join()
                del running[k]
                release(sem)
    return out


def start_dynamic(tmp, tag, spec, seed):
    job = os.path.join(tmp, 'job_%s.json' % tag)
    out = os.path.join(tmp, 'out_%s.json' % tag)
    json.dump({'files': contract_files(), 'units': spec, 'seed': seed}, open(job, 'w'))
    log = open(os.path.join(tmp, 'log_%s' % tag), 'wb')
    env = dict(os.environ)
    env['HOME'] = tmp
    p = subprocess.Popen(['bash', JY, os.path.join(VERIF, 'harness', 'concrete.py'), job, out], stdout=log, stderr=log,
                         cwd=tmp, env=env, start_new_session=True)
    return p, out, log.name


def finish_dynamic(h, limit):
    p, out, log = h
    try:
        p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return None, 'timeout'
    if not os.path.exists(out):
        return None, open(log, errors='replace').read()[-3000:]
    return dict((r['key'], r) for r in json.load(open(out))), None


def load_known():
    fn = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith('KNOWN-FINDING:'):
                out.append(line)
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in argv
    only = [a[2:] for a in argv if a.startswith('-u')]
    t0 = time.time()
    units = [u for u in load_units() if u.prop == prop and (not only or u.name in only)]
    if not units:
        print('no units for', prop)
        return 1
    thorough = tier == 'thorough'
    opts = {'second': thorough, 'scale': 6 if thorough else 1}
    tmp = tempfile.mkdtemp(prefix='pv_%s_' % prop)
    try:
        mult = 20 if thorough else 1
        spec = {}
        for u in units:
            if u.opts['dynamic']:
                spec['%s.%s' % (u.prop, u.name)] = {'cases': u.cases * mult, 'limit': 25 if not thorough else 120}
        dyn_h = start_dynamic(tmp, 'search', spec, seed) if spec else None
        asts = extract(tmp)
        stat = run_static([u for u in units if u.opts['static']], asts, opts)
        # replay of the verifier's counterexamples on the real code
        replay_spec = {}
        for k, r in stat.items():
            cex = []
            for name, o in r.get('stats', {}).get('obl', {}).items():
                for f in o['failed'][:6]:
                    cex.append(f['inputs'])
            if cex and k in spec:
                replay_spec[k] = {'cases': 600 * mult, 'limit': 40, 'replays': cex[:20]}
        dyn, dyn_err = finish_dynamic(dyn_h, 400 if not thorough else 3000) if dyn_h else ({}, None)
        rep, rep_err = ({}, None)
        if replay_spec:
            rep, rep_err = finish_dynamic(start_dynamic(tmp, 'replay', replay_spec, seed + 7919), 300)
        return decide(prop, tier, seed, units, stat, dyn or {}, dyn_err, rep or {}, rep_err, t0, verbose, only)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, seed, units, stat, dyn, dyn_err, rep, rep_err, t0, verbose, only):
    import registry
    violations = []          # (obligation, found?, detail)
    notes, trusted, fallback = [], set(), []
    obligations = discharged = vcs = paths = 0
    by = {'z3': 0, 'cvc5': 0, 'trivial': 0, 'cvc5_second': 0}
    solver_s = 0.0
    samples = []
    per_unit = []
    evaluations = nontrivial = 0
    for u in units:
        key = '%s.%s' % (u.prop, u.name)
        s = stat.get(key)
        d = dyn.get(key)
        rp = rep.get(key)
        found = []
        for x in (rp, d):
            if x:
                found.extend(x['failures'])
        if d:
            evaluations += d['cases']
            nontrivial += d['cases'] if d['covered'] else 0
            if d['error']:
                notes.append('%s: runtime check stopped: %s' % (key, d['error'][-600:]))
                if d['error'].startswith('missing'):
                    fallback.append('%s: function under contract not found (%s)' % (key, d['error']))
        elif u.opts['dynamic'] and dyn_err:
            notes.append('runtime checks gave no result: %s' % dyn_err[-800:])
        pu = {'unit': key, 'functions': u.targets, 'dynamic': None if not d else
              {'cases': d['cases'], 'skipped': d['skipped'], 'error': d['error'], 'seconds': round(d['time'], 1)}}
        for f in found:
            violations.append(('%s:%s' % (key, f['obligation']), True, f))
        if u.opts['static']:
            if s is None or s.get('crash'):
                fallback.append('%s: verifier did not finish: %s' % (key, (s or {}).get('crash')))
                pu['static'] = 'crash'
            else:
                paths += s['paths']
                pu['static'] = {'paths': s['paths'], 'wall_s': round(s['wall'], 1), 'inlined': s['called'],
                                'externals': s['externals'], 'unsupported': s['unsupported'],
                                'incomplete': s['incomplete'], 'invariants': s['stats'].get('invariants', {})}
                trusted.update('dependency contract: ' + x for x in s['externals'])
                bad_unit = bool(s['unsupported']) or s['incomplete']
                if s['unsupported']:
                    fallback.append('%s: outside the verifier: %s' % (key, '; '.join(list(s['unsupported'])[:3])))
                if s['incomplete']:
                    fallback.append('%s: %s' % (key, s['incomplete']))
                pu['obligations'] = {}
                for name in sorted(set(list(s['stats']['obl']) + list(u.expects))):
                    o = s['stats']['obl'].get(name)
                    bound = u.opts.get('bounded')
                    obligations += 0 if bound else 1
                    if o is None or not (o.get('covered') or o['failed'] or o['unknown']):
                        if not bad_unit and not found:
                            violations.append(('%s:%s' % (key, name), False,
                                               {'obligation': name, 'detail': 'obligation is not reachable on any path'}))
                        pu['obligations'][name] = 'not reached'
                        continue
                    vcs += o['vcs']
                    for b in ('z3', 'cvc5', 'trivial'):
                        by[b] += o[b]
                    by['cvc5_second'] += o.get('second', 0)
                    solver_s += o['time']
                    if o['failed']:
                        clean = [f for f in o['failed'] if not f['taint']]
                        pu['obligations'][name] = 'refuted'
                        if not found:
                            if clean and not s['unsupported']:
                                violations.append(('%s:%s' % (key, name), False, dict(clean[0], obligation=name)))
                            else:
                                fallback.append('%s: %s not proved (imprecise: %s)' % (
                                    key, name, (o['failed'][0]['taint'] or ['unit outside the verifier'])[0]))
                    elif o['unknown']:
                        pu['obligations'][name] = 'unknown'
                        fallback.append('%s: %s: solver gave no answer' % (key, name))
                    else:
                        pu['obligations'][name] = 'proved' if not bad_unit else 'proved on explored paths'
                        if not bad_unit:
                            discharged += 0 if bound else 1
                    if len(samples) < 6:
                        samples.append({'obligation': '%s:%s' % (key, name), 'vcs': o['vcs'],
                                        'status': pu['obligations'][name]})
        per_unit.append(pu)
    if fallback:
        notes.append('bounded stand-in (runtime contract check, seeded inputs) used where the verifier did not answer')
    known = load_known()
    reported = 0
    lines = []
    fixedmatch = 0
    seen = set()
    for name, isfound, det in violations:
        if name in seen:
            continue
        kf = None
        for l in known:
            parts = l.split(None, 3)
            if 'property=%s' % prop in parts and ('[%s]' % name) in l:
                kf = l
        if kf:
            if kf not in seen:
                print(kf)
                seen.add(kf)
            continue
        if not isfound and any(n == name and f for n, f, _ in violations):
            continue
        seen.add(name)
        rdir = os.path.join(VERIF, 'replay')
        os.makedirs(rdir, exist_ok=True)
        fn = os.path.join(rdir, '%s-%s.json' % (prop, name.split('.', 1)[-1].replace(':', '-').replace('/', '_')))
        json.dump({'property': prop, 'obligation': name, 'reproduced_on_real_code': isfound, 'detail': det,
                   'how': 'python3-vt pv/replay.py %s' % fn}, open(fn, 'w'), indent=1, default=repr)
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, fn, '' if isfound else ' no-failing-input-found'))
        reported += 1
    # failing inputs first
    lines.sort(key=lambda l: l.endswith('no-failing-input-found'))
    for l in lines:
        print(l)
    man = {}
    try:
        man = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
    except Exception:
        pass
    level = 'proof'
    for c in man.get('checks', []):
        if c['property'] == prop:
            level = c['level']
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': obligations, 'discharged': discharged, 'verification_conditions': vcs, 'paths': paths,
            'discharged_by': by, 'solver_s': round(solver_s, 2),
            'checker_cmd': 'cd /verif && python3-vt pv/check.py %s%s' % (prop, ' --thorough' if tier == 'thorough' else ''),
            'trusted_base': sorted(trusted | set([
                'verifier: /verif/pv (symbolic executor and VC generator for the Python 2 subset), z3, cvc5',
                'Python 2 semantics as encoded in /verif/pv; machine integers are mathematical integers (as in Python), '
                'finite floats are reals (rounding not modelled), nan/inf modelled'])),
            'functions_under_contract': sorted(set(t for u in units for t in u.targets)),
            'functions_inlined': sorted(set(f for p in per_unit if isinstance(p.get('static'), dict)
                                            for f in p['static']['inlined'])),
            'evaluations': evaluations, 'distinct_nontrivial': nontrivial,
            'rule': 'seeded inputs of the same contracts run on the real code under Jython; non-trivial: at least one '
                    'obligation was evaluated',
            'samples': samples, 'units': per_unit, 'bounded_stand_ins': fallback,
            'bounded_units': [{'unit': '%s.%s' % (u.prop, u.name),
                               'bound': u.opts.get('bounded') or 'runtime contract check on seeded inputs only'}
                              for u in units if u.opts.get('bounded') or not u.opts['static']],
            'explanation': 'contract units verified by symbolic execution of the extracted AST, every obligation sent to '
                           'z3/cvc5; the same contracts are run on the real code as a cross-check',
        },
        'assumptions': notes + assumptions(units),
        'wall_s': round(time.time() - t0, 2),
        'violations': reported,
    }
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, default=repr)
    print('%s %s: %d/%d obligations discharged (%d VCs, %d paths, %.1fs solver), %d runtime cases, %d stand-ins, %.1fs'
          % (prop, tier, discharged, obligations, vcs, paths, solver_s, evaluations, len(fallback), time.time() - t0))
    if verbose:
        for p in per_unit:
            print(json.dumps(p, indent=1)[:3000])
        for f in fallback:
            print('STAND-IN', f)
        for n in notes:
            print('NOTE', n)
        for name, isf, det in violations:
            print('V', name, isf, json.dumps(det, default=repr)[:1500])
    else:
        for f in fallback[:8]:
            print('bounded stand-in:', f[:300])
        for n in notes:
            if 'stopped' in n or 'no result' in n:
                print('note:', n[-500:])
    return 1 if reported else 0


def assumptions(units):
    out = []
    for u in units:
        for a in u.opts.get('assumes', []):
            if a not in out:
                out.append(a)
        for q in list(u.contracts) + list(u.opts.get('summaries') or {}):
            s = 'contract assumed at calls of %s' % q
            if q in (u.opts.get('summaries') or {}):
                s = 'callee contract used at calls of %s (proved against its body in %s)' % (
                    q, ', '.join('%s.%s' % (x.prop, x.name) for x in units if q in x.targets) or 'another property')
            if s not in out:
                out.append(s)
    return out


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except BaseException:
        traceback.print_exc()
        rc = 1 if False else 0
        print('check error')
        sys.stdout.flush()
        sys.exit(3)
    sys.stdout.flush()
    sys.exit(rc)
