"""Driver: spec/Threads.tla - schedules of threads that share a route table.

Threads are stopped and resumed between two lines of the code under test, so
that a schedule is reproducible: [[thread, lines], ...] runs each thread for
that many lines in turn, and then all of them to their ends, one at a time.
A thread that cannot go on (it waits for a lock) is passed over."""
import os
import sys
import threading
import time

from core import REPO, val
import d_route

HOME = os.path.join(os.path.realpath(REPO), 'verktyg') + os.sep
HANG = 5.0         # seconds without any progress
WAIT = .01         # a thread that stands still that long waits for another


class Runner:
    def __init__(self, bodies, opcodes=False):
        self.go = [threading.Semaphore(0) for _ in bodies]
        self.idle = [True] * len(bodies)       # stopped, waiting for its turn
        self.over = [False] * len(bodies)
        self.left = [0] * len(bodies)
        self.count = [0] * len(bodies)
        self.wake = threading.Condition(threading.Lock())
        self.opcodes = opcodes
        self.threads = [threading.Thread(target=self.main, args=(i, b), daemon=True) for i, b in enumerate(bodies)]
        for th in self.threads:
            th.start()

    def stop(self, i):
        with self.wake:
            self.idle[i] = True
            self.wake.notify_all()
        self.go[i].acquire()

    def main(self, i, body):
        def local(frame, event, arg):
            if event == 'line' or event == 'opcode':
                self.count[i] += 1
                self.left[i] -= 1
                if self.left[i] < 0:
                    self.stop(i)
            return local

        def trace(frame, event, arg):
            if frame.f_code.co_filename.startswith(HOME):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return local(frame, 'line', arg)
            return None
        self.go[i].acquire()
        sys.settrace(trace)
        try:
            body()
        finally:
            sys.settrace(None)
            with self.wake:
                self.over[i] = True
                self.wake.notify_all()

    def let(self, i, lines):
        """Run thread i for so many lines; False if it does not get there."""
        with self.wake:
            if self.over[i]:
                return True
            if self.idle[i]:
                self.idle[i] = False
                self.left[i] = lines
                self.go[i].release()
            seen, t = self.count[i], time.monotonic()
            while not (self.over[i] or self.idle[i]):
                self.wake.wait(WAIT / 2)
                if self.count[i] != seen:
                    seen, t = self.count[i], time.monotonic()
                elif time.monotonic() - t > WAIT:
                    return False
            return True

    def finish(self):
        last, t = None, time.monotonic()
        while not all(self.over):
            for i in range(len(self.over)):
                self.let(i, 1 << 30)
            now = (list(self.count), list(self.over))
            if now != last:
                last, t = now, time.monotonic()
            elif time.monotonic() - t > HANG:
                return False
        return True


def call(m, cfg, b, e, ad=None):
    """One call in the form the specification answers."""
    op = e['op']
    if op == 'match':
        ad = ad or d_route.bind(m, cfg, b)
        from verktyg.routing import RequestRedirect
        from verktyg.exceptions import NotFound
        try:
            ep, vals = ad.match(d_route.dec_text(e['path']), query_args=d_route.query(e['q']))
        except RequestRedirect as x:
            return {'k': 'redirect', 'v': d_route.enc_text(d_route.tidy(str(x.new_url)))}
        except NotFound:
            return {'k': 'exc', 'v': 'NotFound'}
        except Exception as x:
            return {'k': 'exc', 'v': d_route.exc_name(x)}
        return {'k': 'match', 'v': {'ep': d_route.enc_text(ep), 'vals': d_route.vals_out(vals)}}
    if op == 'build' and ad:
        from core import capture
        return capture(ad.build, e['ep'], d_route.values_in(e), append_unknown=True)
    return d_route.apply(m, {'cfg': cfg}, b, e)


def history(c, progs, sched, warm, opcodes=False):
    """The calls and returns of one schedule, [] with a note if it hangs."""
    m = d_route.make_map(c['table'])
    cfg, b = c['table']['cfg'], d_route.norm(c['table']['bind'])
    fresh = [[d_route.make_route(d) for d in defs] for defs in c['batches']]
    if warm:
        call(m, cfg, b, {'op': 'iter'})
    log = []
    shared = d_route.bind(m, cfg, b) if c['shared'] else None

    def body(prog):
        def f():
            for i in prog:
                e = c['calls'][i]
                log.append({'op': 'call', 'i': i + 1})
                if e['op'] == 'extend':
                    try:
                        m.add_routes(*fresh[e['batch'] - 1])
                        a = val('<None>')
                    except Exception as x:
                        a = {'k': 'exc', 'v': d_route.exc_name(x)}
                else:
                    a = call(m, cfg, b, e, shared)
                log.append({'op': 'ret', 'i': i + 1, 'a': a})
        return f
    run = Runner([body(p) for p in progs], opcodes)
    for t, lines in sched:
        run.let(t, lines)
    if not run.finish():
        return log + [{'op': 'stuck'}], run.count
    return log, run.count


def explore(item):
    """All distinct histories of some schedules: [[history, schedule]...]"""
    import json
    c, progs, scheds, warm = item['c'], item['progs'], item['scheds'], item['warm']
    seen, out = set(), []
    for s in scheds:
        h, n = history(c, progs, s, warm, item.get('opcodes', False))
        k = json.dumps(h, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append([h, s, n])
        if h[-1]['op'] == 'stuck':
            break
    return out


def accept(case):
    """The code has already run; what it did has to be explained."""
    return [{'ret': val('<None>'), 'obs': 0}] + [{'ret': val(True), 'obs': 0} for _ in case['ops']]


# ---- cases -----------------------------------------------------------------
def special(d):
    return d['alias'] or d['defs'] or d['redir'] != '<None>'


def gen_case(r):
    cfg = {'strict': r.random() < .8, 'rdef': True, 'hostm': False, 'dsub': '', 'cs': 'utf-8'}
    adds = r.choice([0, 0, 1, 1, 1, 2])
    while True:
        table = d_route.gen_table(r, cfg, r.randint(2, 5), .4 if not adds else 0, redirs=not adds, wraps=not adds)
        new = [d_route.gen_table(r, cfg, r.choice([1, 2, 2]), 0, redirs=False, wraps=False) for _ in range(adds)]
        if adds and any(special(d) for d, _, _ in table + sum(new, [])):
            continue
        break
    for d, _, _ in table + sum(new, []):
        d['sub'] = '<None>'
    everything = table + sum(new, [])
    calls, progs = [], []

    def lookup():
        if r.random() < .6:
            return {'op': 'match', 'path': d_route.gen_path(r, everything), 'q': {'t': 's', 's': '', 'pairs': []}}
        if r.random() < .7:
            while True:
                ep = r.choice([d_route.ep_of(d) for d, _, _ in everything])
                vals = d_route.gen_vals(r, everything, ep, .05)
                if d_route.ok_vals(everything, vals):
                    return {'op': 'build', 'ep': ep, 'vals': vals, 'ext': False, 'unknown': True, 'multi': False, 'extra': []}
        return {'op': 'iter'}

    def put(e):
        calls.append(e)
        return len(calls) - 1
    for i in range(adds):
        p = [put({'op': 'extend', 'batch': i + 1})]
        if r.random() < .5:
            p.append(put(lookup()))
        if r.random() < .2:
            p.insert(0, put(lookup()))
        progs.append(p)
    while len(progs) < 2 or (len(progs) < 3 and r.random() < .2):
        progs.append([put(lookup()) for _ in range(r.choice([1, 1, 2]))])
    r.shuffle(progs)
    return {'table': {'cfg': cfg, 'bind': {'server': 'h.com', 'sub': '', 'script': '/', 'scheme': 'http'}, 'routes': [d for d, _, _ in table]},
            'batches': [[d for d, _, _ in b] for b in new], 'calls': calls, 'shared': r.random() < .5}, progs, r.random() < .4


KINDS = sorted(set(d_route.CONVS))


def gen_same(r, cv):
    """Two threads that use one variable of one route with different values."""
    cfg = {'strict': True, 'rdef': True, 'hostm': False, 'dsub': '', 'cs': 'utf-8'}
    toks = [('s', '/a/'), ('v', 'x', cv)]
    table = [(d_route.new_def(r, toks, 'e1', False), toks, False)]
    two = [('s', '/b/'), ('v', 'y', cv), ('s', '/'), ('v', 'x', 'int:')]
    table.append((d_route.new_def(r, two, 'e2', False), two, False))
    calls, seen = [], set()
    for kind in r.choice([('match', 'match'), ('match', 'build'), ('build', 'build'), ('match', 'match')]):
        for _ in range(200):
            if kind == 'match':
                e = {'op': 'match', 'path': d_route.enc_text('/a/' + d_route.conv_text(r, cv)), 'q': {'t': 's', 's': '', 'pairs': []}}
                k = e['path']
            else:
                vals = d_route.gen_vals(r, table[:1], 'e1', 0)
                e = {'op': 'build', 'ep': 'e1', 'vals': vals, 'ext': False, 'unknown': True, 'multi': False, 'extra': []}
                k = str(vals)
            if k not in seen and (kind == 'match' or d_route.ok_vals(table, vals)):
                break
        seen.add(k)
        calls.append(e)
    return {'table': {'cfg': cfg, 'bind': {'server': 'h.com', 'sub': '', 'script': '/', 'scheme': 'http'}, 'routes': [d for d, _, _ in table]},
            'batches': [], 'calls': calls, 'shared': r.random() < .5}, [[0], [1]], r.random() < .5


def schedules(r, progs, counts, limit):
    """One switch at every line of every thread, and seeded double switches."""
    n = len(progs)
    out = []
    for a in range(n):
        for k in range(counts[a] + 1):
            b = r.choice([x for x in range(n) if x != a])
            out.append([[a, k], [b, 1 << 30]])
    r.shuffle(out)
    out = out[:limit * 2 // 3]
    while len(out) < limit:
        a, b = r.sample(range(n), 2)
        s = [[a, r.randint(0, counts[a])], [b, r.randint(0, counts[b])]]
        if n > 2:
            s.append([3 - a - b, 1 << 30])
        out.append(s + [[a, r.choice([1 << 30, r.randint(0, counts[a])])]])
    return out
