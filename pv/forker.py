"""Path exploration by fork: each alternative of a decision is explored by a
child process that inherits the whole state, so no path is re-executed."""
import os, pickle, time, multiprocessing


class Forker(object):
    def __init__(self, program, sem, max_paths, deadline):
        self.p, self.sem, self.max, self.deadline = program, sem, max_paths, deadline
        self.count = multiprocessing.get_context('fork').Value('i', 1)
        self.res = {'paths': 0, 'ended': 0, 'unsupported': {}, 'incomplete': None}
        self.kids = []          # (pid, fd) running concurrently
        self.up = None          # pipe to the parent
        self.token = False

    def spawn(self, E):
        """Fork; True in the child."""
        with self.count.get_lock():
            self.count.value += 1
            n = self.count.value
        if n > self.max or time.time() > self.deadline:
            self.res['incomplete'] = 'stopped after %d paths' % min(n, self.max)
            return False
        par = self.sem is not None and self.sem.acquire(False)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for _, fd in self.kids:
                os.close(fd)
            self.kids, self.up, self.token = [], w, par
            self.res = {'paths': 0, 'ended': 0, 'unsupported': {}, 'incomplete': None}
            old = E.stats['obl']
            E.stats.clear()
            E.stats.update({'feas': 0, 'feas_s': 0.0, 'obl': {}})
            for k, o in old.items():
                if o.get('covered'):
                    E.stats['obl'][k] = {'vcs': 0, 'z3': 0, 'cvc5': 0, 'trivial': 0, 'failed': [], 'unknown': [],
                                         'time': 0.0, 'covered': True}
            return True
        os.close(w)
        self.kids.append((pid, r))
        if not par:
            self.reap(E, self.kids.pop())
        return False

    def reap(self, E, kid):
        pid, r = kid
        buf = []
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf.append(b)
        os.close(r)
        os.waitpid(pid, 0)
        try:
            d = pickle.loads(b''.join(buf))
        except Exception:
            self.res['incomplete'] = 'a path worker died'
            return
        for k in ('paths', 'ended'):
            self.res[k] += d['res'][k]
        for k, v in d['res']['unsupported'].items():
            self.res['unsupported'][k] = self.res['unsupported'].get(k, 0) + v
        self.res['incomplete'] = self.res['incomplete'] or d['res']['incomplete']
        merge_stats(E.stats, d['stats'])
        self.p.called |= d['called']
        self.p.externals |= d['externals']

    def finish(self, E):
        """End of this process's path: collect children; children report and exit."""
        if self.token and self.kids:
            self.sem.release()
            self.token = False
        while self.kids:
            self.reap(E, self.kids.pop())
        if self.up is None:
            return self.res
        try:
            data = pickle.dumps({'res': self.res, 'stats': E.stats, 'called': self.p.called,
                                 'externals': self.p.externals})
        except Exception as x:
            for o in E.stats['obl'].values():
                o['failed'] = [dict(f, inputs=repr(f['inputs']), detail=repr(f.get('detail'))) for f in o['failed']]
            data = pickle.dumps({'res': self.res, 'stats': E.stats, 'called': self.p.called,
                                 'externals': self.p.externals})
        while data:
            n = os.write(self.up, data)
            data = data[n:]
        if self.token:
            self.sem.release()
        os._exit(0)


def merge_stats(a, b):
    a['feas'] += b['feas']
    a['feas_s'] += b['feas_s']
    for k, v in b.get('invariants', {}).items():
        i = a.setdefault('invariants', {})
        i[k] = max(i.get(k, 0), v)
    for k, o in b['obl'].items():
        p = a['obl'].setdefault(k, {'vcs': 0, 'z3': 0, 'cvc5': 0, 'trivial': 0, 'failed': [], 'unknown': [], 'time': 0.0})
        for f in ('vcs', 'z3', 'cvc5', 'trivial', 'time', 'second', 'second_unknown'):
            if f in o:
                p[f] = p.get(f, 0) + o[f]
        p['failed'].extend(o['failed'])
        p['unknown'].extend(o['unknown'])
        if o.get('covered'):
            p['covered'] = True
