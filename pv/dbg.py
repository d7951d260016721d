"""Debugging aid: explore one unit in-process.  dbg.py P01 tally [seconds]"""
import sys, os, json, tempfile, faulthandler, time
os.environ['PV_DEBUG'] = os.environ.get('PV_DEBUG', '1')
import check
prop, name = sys.argv[1:3]
lim = int(sys.argv[3]) if len(sys.argv) > 3 else 60
cache = '/tmp/pv_ast.json'
if not os.path.exists(cache) or '--fresh' in sys.argv:
    t = tempfile.mkdtemp()
    a = check.extract(t)
    json.dump(a, open(cache, 'w'))
asts = json.load(open(cache))
u = [u for u in check.load_units() if u.prop == prop and u.name == name][0]
import signal, traceback
class TO(BaseException): pass
def onalrm(a, f):
    st = traceback.extract_stack(f)
    if '--stack' in sys.argv:
        print(' > '.join('%s:%s' % (x.name, x.lineno) for x in st))
    E = f
    while f is not None:
        s_ = f.f_locals.get('self')
        if s_ is not None and hasattr(s_, 'frames'):
            print('at', [x.func.name if x.func else '' for x in s_.frames], s_.line, 'solver', len(s_.solver.assertions()), s_.stats['feas'])
            break
        f = f.f_back
    onalrm.n += 1
    if onalrm.n >= 6: os.killpg(0, 9)
    signal.alarm(max(2, lim // 6))
onalrm.n = 0
signal.signal(signal.SIGALRM, onalrm)
signal.alarm(max(2, lim // 6))

faulthandler.register(signal.SIGUSR1)
signal.signal(signal.SIGTERM, lambda a, b: os.killpg(0, 9)); os.setpgid(0, 0)
r = check.explore(u, asts, {'second': False, 'scale': 1, 'sem': __import__('multiprocessing').BoundedSemaphore(8) if '--par' in sys.argv else None})
signal.alarm(0)
for k, o in r['stats']['obl'].items():
    print(k, {x: y for x, y in o.items() if x != 'failed'}, 'FAILED %d' % len(o['failed']) if o['failed'] else '')
    for f in o['failed'][:2]:
        f.pop('path')
        pc = f.pop('pc', None)
        if '--inputs' not in sys.argv: f.pop('inputs')
        print('   ', json.dumps(f, default=repr)[:700])
        for x in pc or []: print('        ', x)
print('feas', r['stats']['feas'], round(r['stats']['feas_s'], 1), 'paths', r['paths'], 'ended', r['ended'], 'unsupported', r['unsupported'], 'incomplete', r['incomplete'], 'wall %.1f' % r['wall'],
      'inv', r['stats'].get('invariants'))
