"""Driver: spec/Lifecycle.tla on a real application."""
from core import capture, val
from d_resp import Boom, GenSource, environ


def run(case):
    from verktyg.application import ApplicationBuilder
    from verktyg.responses import Response
    from verktyg.routing import Route
    from verktyg.dispatch import Binding
    from verktyg.wsgi import ClosingIterator
    c = case['init']
    s = {'enters': [], 'exits': [], 'handled': 0, 'errhandled': 0, 'started': 0,
         'pos': 0, 'req': -1, 'resp': -1, 'err': -1}
    box = {}

    def register(obj, name):
        """three callbacks, whose results must not matter; they count as one
        that is run each time all of them ran, in order"""
        s[name] = 0
        calls = []

        def make(i, result):
            def cb():
                calls.append(i)
                n, rest = divmod(len(calls), 3)
                fine = calls == ([0, 1, 2] * (n + 1))[:len(calls)]
                s[name] = -99 if not fine else n if not rest else -98
                return result
            return cb
        for i, result in enumerate((True, None, 0)):
            obj.call_on_close(make(i, result))

    def handler(app, req):
        s['handled'] += 1
        if c['reqcbs']:
            register(req, 'req')
        if c['handler'] == 'raise':
            raise Boom()
        items = [b'x'] * c['n']
        if c['kind'] == 'stream':
            items = box['src'] = GenSource(items, c['fault'], True)
        resp = Response(items, status=c['status'])
        if c['respcbs']:
            register(resp, 'resp')
        return resp

    def errhandler(app, req, t, v, tb):
        s['errhandled'] += 1
        resp = Response('oops', status=500)
        if c['errcbs']:
            register(resp, 'err')
        return resp

    def middleware(app, number):
        # one function, a list kept over all requests, several in a tuple
        shared = [lambda: s['exits'].append(number if len(shared) == 1 else -number)]

        def wrapped(env, start_response):
            s['enters'].append(number)
            it = app(env, start_response)
            if number % 3 == 2:
                return ClosingIterator(it, shared)
            if number % 3 == 0:
                first = []
                return ClosingIterator(ClosingIterator(it), (lambda: first.append(1), lambda: s['exits'].append(number if first else -number)))
            return ClosingIterator(it, shared[0])
        return wrapped

    b = ApplicationBuilder()
    b.add_routes(Route('/x', endpoint='x'))
    b.add_bindings(Binding('x', handler, method='GET'))
    if c['errh']:
        b.add_exception_handler(Exception, errhandler)
    for i in range(c['mw']):
        b.add_middleware(middleware, i + 1)
    app = b('http://localhost')

    def start_response(status, headers, exc_info=None):
        s['started'] = int(status.split(' ')[0])
        return lambda data: None

    it = app(environ(c['method']), start_response)
    iterator = iter(it)

    def obs():
        o = {k: (list(v) if isinstance(v, list) else v) for k, v in s.items()}
        o['src'] = box['src'].closed if 'src' in box else -1
        return o

    def nxt():
        try:
            next(iterator)
        except StopIteration:
            return 'end'
        s['pos'] += 1
        return 'chunk'

    log = [{'ret': val('<None>'), 'obs': obs()}]
    for e in case['ops']:
        if e['op'] == 'next':
            ret = capture(nxt)
        else:
            ret = capture(lambda: it.close())
        log.append({'ret': ret, 'obs': obs()})
    return log


def gen_cases(r, n):
    out = []
    for _ in range(n):
        k = r.randint(0, 6)
        kind = r.choice(['stream', 'stream', 'list'])
        c = {'mw': r.randint(0, 4), 'reqcbs': r.random() < .7, 'respcbs': r.random() < .8,
             'kind': kind, 'n': k, 'fault': r.randint(0, k) if kind == 'stream' and r.random() < .5 else 0,
             'handler': r.choice(['ok'] * 4 + ['raise']), 'errh': r.random() < .6,
             'errcbs': r.random() < .5, 'method': r.choice(['GET', 'GET', 'GET', 'HEAD']),
             'status': r.choice([200, 200, 200, 201, 204, 304, 404, 500])}
        ops = [{'op': 'next'}] * r.randint(0, k + 2) + [{'op': 'close'}]
        out.append({'init': c, 'ops': ops})
    return out
