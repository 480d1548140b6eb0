"""Driver: spec/ErrDispatch.tla on a whole verktyg application."""
import json
from core import CaseTimeout, exc, val
from d_accept import gen_header, text, value
from d_dispatch import NOREP, gen_rep
from d_resp import environ


def rep_args(p):
    return dict(content_type=value('ct', p['ct']), language=value('lang', p['lang']),
                charset=value('cs', p['cs']), qs=None if p['qs'] == 1000 else p['qs'] / 1000)


def make_classes(case):
    import builtins
    import verktyg.exceptions as ve
    from verktyg.routing import RequestRedirect, RoutingException
    known = {'RequestRedirect': RequestRedirect, 'RoutingException': RoutingException}
    for n in ('object', 'BaseException', 'Exception', 'LookupError', 'KeyError'):
        known[n] = getattr(builtins, n)
    for n in ('HTTPException', 'NotFound', 'BadRequest', 'MethodNotAllowed', 'NotImplemented', 'NotAcceptable'):
        known[n] = getattr(ve, n)
    for c in case['init']['classes']:
        known[c['name']] = type(c['name'], tuple(known[b] for b in c['bases']), {})
    return known


def build(case, seen):
    from verktyg.application import ApplicationBuilder
    from verktyg.exception_dispatch import ExceptionDispatcher, ExceptionHandler
    from verktyg.responses import Response
    from verktyg.routing import Route
    from verktyg.views import JsonView
    init = case['init']
    classes = make_classes(case)
    b = ApplicationBuilder(default_redirect_handler=init['redirects'])
    b.add_routes(*[Route('/' + n, endpoint=n) for n in ('n1', 'n2', 'n3')])
    b.add_routes(Route('/branch/', endpoint='n1'))

    def handler(h):
        def act(app, req, exc_type, exc_value, exc_traceback):
            seen['handled'] = exc_value
            if h['then'] != 'answer':
                seen['raised'] = classes[h['then']]()
                raise seen['raised']
            if type(exc_value) is not exc_type or exc_traceback is None:
                return Response('bad arguments')
            return Response(json.dumps(['error handler ' + h['label'], exc_type.__name__]))
        return act
    nest = []
    for i, h in enumerate(init['handlers']):
        cls, kw = classes[h['cls']], rep_args(h['rep'])
        via = h.get('via', 'add')
        if via == 'decorator':
            fn = handler(h)
            if b.exception_handler(cls, **kw)(fn) is not fn:
                raise AssertionError('the decorator hides the function')
        elif via == 'many':
            b.add_exception_handlers(ExceptionHandler(cls, handler(h), **kw))
        elif via == 'nested':
            # consecutive nested handlers share one dispatcher
            if nest and nest[-1][0] == i - 1:
                nest[-1][1].add_exception_handlers(ExceptionHandler(cls, handler(h), **kw))
                nest[-1][0] = i
            else:
                d = ExceptionDispatcher([ExceptionHandler(cls, handler(h), **kw)])
                nest.append([i, d])
                b.add_exception_handlers(ExceptionDispatcher([d]) if i % 2 else d)
                if i % 2:
                    nest.pop()
        else:
            b.add_exception_handler(cls, handler(h), **kw)

    def view(v):
        def act(app, req, **kw):
            if v['does'] == 'answer':
                return Response(json.dumps(['view ' + v['label'], '200']))
            if v['does'] == 'json':
                return ['json ' + v['label'], '200']
            if v['does'] == 'nothing':
                return None
            seen['raised'] = classes[v['does']]()
            raise seen['raised']
        return act
    for v in init['views']:
        if v['does'] in ('json', 'nothing'):
            b.add_bindings(JsonView(v['name'], view(v), methods=v['method'],
                                    qs=v['rep']['qs'] / 1000))
        else:
            b.expose(v['name'], methods=[v['method']], **rep_args(v['rep']))(view(v))
    return b('http://localhost'), classes


def request(app, e, seen):
    env = environ(e['method'])
    env['PATH_INFO'] = '/' + e['path']
    for key, name in (('accept', 'HTTP_ACCEPT'), ('lang', 'HTTP_ACCEPT_LANGUAGE'), ('cs', 'HTTP_ACCEPT_CHARSET')):
        if text(e[key]) is not None:
            env[name] = e[key]
        else:
            env.pop(name, None)
    got = {}

    def start_response(status, headers, exc_info=None):
        got['status'], got['headers'] = status, headers
        return lambda d: None
    it = app(env, start_response)
    try:
        body = b''.join(it)
    finally:
        if hasattr(it, 'close'):
            it.close()
    code = got['status'].split()[0]
    if code == '204':
        return ['', '204']
    if code == '301':
        return ['redirect', '301']
    if e['method'] == 'HEAD':
        return ['', code]
    who, what = json.loads(body.decode())
    return [who, what if who.startswith('error') else code]


def run(case):
    seen = {}
    app, classes = build(case, seen)
    n = {'n': len(case['init']['views'])}
    log = [{'ret': val('<None>'), 'obs': n}]
    for e in case['ops']:
        seen.clear()
        try:
            ret = val(request(app, e, seen))
            if 'handled' in seen and not str(ret['v'][0]).startswith('error'):
                ret = val('error handler ran for a request that succeeded')
        except CaseTimeout:
            raise
        except BaseException as x:
            ret = exc(type(x).__name__)
            if 'raised' in seen and x is not seen['raised']:
                ret = exc('another exception: ' + type(x).__name__)
            if 'raised' not in seen and not isinstance(x, classes['HTTPException']):
                ret = exc('unexpected exception: ' + type(x).__name__)
        log.append({'ret': ret, 'obs': n})
    return log


BASES = ['Exception', 'Exception', 'LookupError', 'KeyError', 'HTTPException', 'NotFound', 'BaseException', 'BadRequest']


def gen_classes(r):
    while True:
        out = []
        for i in range(r.randint(1, 6)):
            pool = [c['name'] for c in out]
            bases = []
            for _ in range(r.choice([1, 1, 2, 2, 3])):
                b = r.choice(pool) if pool and r.random() < .7 else r.choice(BASES)
                if b not in bases:
                    bases.append(b)
            out.append({'name': 'C%d' % (i + 1), 'bases': bases})
        try:
            make_classes({'init': {'classes': out}})
        except TypeError:
            continue
        return out


def gen_cases(r, n):
    out = []
    for _ in range(n):
        classes = gen_classes(r)
        own = [c['name'] for c in classes]
        pool = own * 2 + ['Exception', 'BaseException', 'HTTPException', 'NotFound', 'KeyError', 'LookupError',
                          'MethodNotAllowed', 'RequestRedirect', 'object', 'NotAcceptable', 'RoutingException']
        if r.random() < .35:
            # mostly errors of routing, dispatch and negotiation
            pool = ['NotAcceptable', 'NotAcceptable', 'MethodNotAllowed', 'NotImplemented', 'NotFound',
                    'HTTPException', 'HTTPException', 'Exception', 'BaseException', 'RequestRedirect']
        handlers = []
        for i in range(r.randint(0, 6)):
            handlers.append({'cls': r.choice(pool), 'rep': gen_rep(r), 'label': 'H%d' % i,
                             'then': 'answer' if r.random() < .92 else r.choice(own + ['KeyError']),
                             'via': r.choice(['add', 'decorator', 'many', 'nested', 'nested'])})
        views = []
        for i in range(r.randint(1, 5)):
            does = r.choice(['answer', 'json', 'nothing'] + own * 2 + ['KeyError', 'NotFound', 'BadRequest'])
            rep = gen_rep(r) if r.random() < .4 else NOREP
            if does in ('json', 'nothing'):
                rep = dict(NOREP, ct={'v': 'application/json', 'qs': 1000}, qs=rep['qs'])
            views.append({'name': 'n%d' % r.randint(1, 3), 'method': r.choice(['GET', 'GET', 'GET', 'POST', 'PUT']),
                          'rep': rep, 'label': 'V%d' % i, 'does': does})
        ops = []
        for _ in range(r.randint(3, 8)):
            plain = r.random() < .5
            ops.append({'op': 'request', 'path': r.choice(['n1', 'n1', 'n2', 'n2', 'n3', 'branch', 'nowhere']),
                        'method': r.choice(['GET', 'GET', 'GET', 'POST', 'PUT']),
                        'accept': '<None>' if plain else gen_header(r, 'ct'),
                        'lang': '<None>' if plain else gen_header(r, 'lang'),
                        'cs': '<None>' if plain or r.random() < .5 else gen_header(r, 'cs')})
        out.append({'init': {'classes': classes, 'handlers': handlers, 'views': views,
                             'redirects': r.random() < .7}, 'ops': ops})
    return out
