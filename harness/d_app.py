"""Driver: spec/App.tla on verktyg.application."""
import io
import json
import random
import re

import d_route
from core import CaseTimeout, capture, dec_text, enc_text, exc, exc_name, val
from d_accept import gen_header, text
from d_dispatch import NOREP, gen_rep
from d_errdisp import gen_classes, make_classes, rep_args

LATIN = 'latin-1'


class Mixin1:
    a = 'M1.a'

    @property
    def b(self):
        return 'M1.b'


class Mixin2:
    b = 'M2.b'
    c = 'M2.c'


class Mixin3:
    a = 'M3.a'
    c = 'M3.c'
    config = environ = 'of the mixin'


MIXINS = {'M1': Mixin1, 'M2': Mixin2, 'M3': Mixin3}


class Tag:
    """Middleware that leaves a mark on what passes."""

    def __init__(self, app, label):
        self.app, self.label = app, label

    def __call__(self, environ, start_response):
        environ.setdefault('test.trail', []).append(self.label)

        def start(status, headers, exc_info=None):
            return start_response(status, list(headers) + [('X-Out', self.label)], exc_info)
        return self.app(environ, start)


def block(app, label):
    def answer(environ, start_response):
        if environ['REQUEST_METHOD'] == 'DELETE':
            start_response('403 Forbidden', [('Content-Type', 'text/plain')])
            return [b'blocked ' + label.encode()]
        return app(environ, start_response)
    return answer


def strip(app, label):
    def answer(environ, start_response):
        if environ['PATH_INFO'].startswith('/old/'):
            environ = dict(environ, PATH_INFO=environ['PATH_INFO'][4:])
        return app(environ, start_response)
    return answer


LAYERS = {'tag': Tag, 'block': block, 'strip': strip}


JSON = {'zero': 0, 'false': False, 'noText': '', 'noList': [], 'noObject': {}}


class World:
    def __init__(self, c):
        from verktyg.application import ApplicationBuilder
        self.c = c
        kw = {}
        if not c['redirects']:
            kw['default_redirect_handler'] = False
        if not c['mixins']:
            kw['default_request_mixins'] = False
        self.b = ApplicationBuilder(**kw)
        self.apps = []
        self.classes = make_classes({'init': c})
        self.multi = c.get('multi', True)

    # ---- building
    def action(self, e):
        from verktyg.responses import Response

        def act(app, req, **kw):
            w = self

            def closed(who):
                return lambda: w.closed.append(who)
            req.call_on_close(closed('request'))
            ok = req.app is app and req.environ['verktyg.application'] is app and app is w.current
            b = req.binding
            attrs = {n: getattr(req, n, '<None>') for n in 'abc'}
            w.seen.append({
                'label': e['label'] if ok else 'wrong application',
                'vals': d_route.vals_out(kw),
                'trail': list(req.environ.get('test.trail', [])),
                'ep': enc_text(b.name), 'method': b.method,
                'path': enc_text(req.path), 'q': enc_text(req.environ['QUERY_STRING']), 'attrs': attrs,
                'etags': hasattr(req, 'if_none_match'), 'conf': conf_of(app)})
            does = e['does']
            if does in JSON:
                return JSON[does]
            if does == 'answer':
                res = Response('answer ' + e['label'])
            elif does == 'stream':
                class Parts:
                    def __iter__(self):
                        yield b'stream '
                        yield e['label'].encode()

                    def close(self):
                        w.closed.append('iterable')
                res = Response(Parts())
            elif does == 'json':
                return [e['label'], 1]
            elif does == 'object':
                return {e['label']: 1}
            elif does == 'nothing':
                return None
            else:
                raise self.classes[does]()
            res.call_on_close(closed('response'))
            return res
        act.__name__ = str(e['fn'])
        return act

    def expose(self, e):
        from verktyg.dispatch import Binding, Dispatcher
        from verktyg.routing import Route
        from verktyg.views import ClassView, JsonView, View, expose, expose_json
        b, act, via = self.b, self.action(e), e['via']
        methods = e['methods']
        name = e['fn'] if e['name'] == '<None>' else e['name']
        if e['does'] in JSON or e['does'] in ('json', 'object', 'nothing'):
            kw = {'qs': rep_args(e['rep'])['qs'], 'methods': methods}
            if via == 'views':
                if expose_json(b, name, **kw)(act) is not act:
                    raise AssertionError('expose replaced the function')
            else:
                b.add_bindings(JsonView(name, act, **kw))
        elif via == 'class':
            body = {m: staticmethod(act) for m in methods}
            b.add_bindings(type('V', (ClassView,), dict(body, name=name))())
        elif via == 'binding':
            b.add_bindings(*[Binding(name, act, method=m, **rep_args(e['rep'])) for m in methods])
        else:
            kw = dict(rep_args(e['rep']), methods=methods)
            if methods == ['GET']:
                kw.pop('methods')
            if via == 'views':
                if expose(b, name, **kw)(act) is not act:
                    raise AssertionError('expose replaced the function')
            elif via == 'dispatcher':
                b.add_bindings(Dispatcher([View(name, act, **kw)]))
            elif via == 'view':
                b.add_bindings(View(name, act, **kw))
            else:
                if e['route'] != '<None>':
                    kw['route'] = dec_text(e['route'])
                args = () if e['name'] == '<None>' else (e['name'],)
                if b.expose(*args, **kw)(act) is not act:
                    raise AssertionError('expose replaced the function')
                return
        if e['route'] != '<None>':
            b.add_routes(Route(dec_text(e['route']), endpoint=name))

    def handler(self, h):
        from verktyg.responses import Response

        def act(app, req, exc_type, exc_value, exc_traceback):
            if h['then'] != 'answer':
                raise self.classes[h['then']]()
            if app is not self.current or type(exc_value) is not exc_type or exc_traceback is None:
                return Response('bad arguments')
            res = Response(h['label'] + ' ' + exc_name_of(exc_type), status=getattr(exc_value, 'code', None) or 500)
            res.call_on_close(lambda: self.closed.append('error'))
            return res
        return act

    def step(self, e):
        from verktyg.exception_dispatch import ExceptionDispatcher, ExceptionHandler
        from verktyg.routing import Submount
        b, op = self.b, e['op']
        if op == 'route':
            r = d_route.make_route(e['def'])
            b.add_routes(Submount('', [r]) if self.multi else r)
        elif op == 'expose':
            self.expose(e)
        elif op == 'handler':
            h = e['h']
            cls, kw, via = self.classes[h['cls']], rep_args(h['rep']), h.get('via', 'add')
            if via == 'decorator':
                fn = self.handler(h)
                if b.exception_handler(cls, **kw)(fn) is not fn:
                    raise AssertionError('the decorator hides the function')
            elif via == 'nested':
                b.add_exception_handlers(ExceptionDispatcher([ExceptionHandler(cls, self.handler(h), **kw)]))
            else:
                b.add_exception_handler(cls, self.handler(h), **kw)
        elif op == 'mid':
            layer = LAYERS[e['does']]
            if e['how'] == 'args':
                b.add_middleware(layer, e['label'])
            else:
                b.add_middleware(layer, label=e['label'])
        elif op == 'amix':
            b.add_application_mixins(MIXINS[e['name']])
        elif op == 'rmix':
            b.add_request_mixins(MIXINS[e['name']])
        elif op == 'conf':
            b.config[e['key']] = e['v']
        elif op == 'conv':
            from verktyg import routing
            kinds = {'int': routing.IntegerConverter, 'path': routing.PathConverter,
                     'string': routing.UnicodeConverter, 'float': routing.FloatConverter}
            b.add_converters(**{e['name']: kinds[e['kind']]})
        elif op == 'build':
            root = e['root']
            if root['host']:
                self.apps.append(b('%s://%s%s' % (root['scheme'], root['host'], root['path'])))
            else:
                self.apps.append(b())
        else:
            return self.use(e)
        return val('<None>')

    # ---- using
    def use(self, e):
        op = e['op']
        app = self.apps[e['app'] - 1]
        if op == 'request':
            return self.request(app, e)
        if op == 'link':
            return capture(app.url_for, e['ep'], **values(e))
        if op == 'visit':
            l = capture(app.url_for, e['ep'], **values(e))
            if l['k'] == 'exc':
                return l
            url = dec_text(l['v'])
            root = app._test_script
            path, _, q = url.partition('?')
            if not path.startswith(root + '/'):
                return exc('link %s outside of the application' % url)
            from urllib.parse import unquote
            r = self.request(app, dict(e, path=enc_text(unquote(path[len(root):])), q=q, script=root,
                                       accept='<None>', lang='<None>', cs='<None>'))
            return r if r['k'] == 'exc' else val({'url': l['v'], 'got': r['v']})
        if op == 'debug':
            app.debug = e['on']
            return val('<None>')
        if op == 'setconf':
            def write():
                app.config[e['key']] = 'changed'
            return capture(write)
        if op == 'attr':
            return capture(getattr, app, e['name'])
        raise AssertionError(op)

    def request(self, app, e):
        self.seen, self.closed, self.current = [], [], app
        env = {
            'REQUEST_METHOD': e['method'], 'SCRIPT_NAME': e['script'],
            'PATH_INFO': dec_text(e['path']).encode().decode(LATIN), 'QUERY_STRING': e['q'],
            'SERVER_NAME': 'srv', 'SERVER_PORT': '80', 'HTTP_HOST': e['host'], 'SERVER_PROTOCOL': 'HTTP/1.1',
            'wsgi.version': (1, 0), 'wsgi.url_scheme': 'http', 'wsgi.input': io.BytesIO(b''),
            'wsgi.errors': io.StringIO(), 'wsgi.multithread': False, 'wsgi.multiprocess': False,
            'wsgi.run_once': False}
        for key, name in (('accept', 'HTTP_ACCEPT'), ('lang', 'HTTP_ACCEPT_LANGUAGE'), ('cs', 'HTTP_ACCEPT_CHARSET')):
            if text(e[key]) is not None:
                env[name] = e[key]
        if e.get('within'):
            env['verktyg.application'] = self.apps[e['within'] - 1]
        got = {}

        def start_response(status, headers, exc_info=None):
            got['status'], got['headers'] = status, headers
            return lambda d: None
        it = None
        try:
            it = app(env, start_response)
            parts = []
            for part in it:
                parts.append(part)
                if e.get('take'):
                    break
        except CaseTimeout:
            raise
        except BaseException as x:
            return exc(exc_name_of(type(x)))
        finally:
            if hasattr(it, 'close'):
                it.close()
        h = got['headers']
        code = got['status'].split()[0]
        body = b''.join(parts).decode()
        if e.get('take') and body == 'stream ':
            body += self.seen[0]['label']
        loc = [v for k, v in h if k.lower() == 'location']
        if loc and body:
            body = 'redirect'
        return val({'status': code, 'loc': enc_text(d_route.tidy(loc[0])) if loc else '', 'body': enc_text(body),
                    'out': [v for k, v in h if k == 'X-Out'], 'seen': list(self.seen), 'closed': list(self.closed)})


def exc_name_of(cls):
    return cls.__name__


def values(e):
    return {dec_text(k): d_route.typed(v) for k, v in e['vals']}


def conf_of(app):
    return {'SET': [[k, v] for k, v in sorted(app.config.items())]}


def observe(w):
    return [{'conf': conf_of(a), 'debug': bool(a.debug)} for a in w.apps]


def run(case):
    w = World(case['init'])

    def step(e):
        try:
            r = w.step(e)
            if e['op'] == 'build':
                script = e['root']['path'] if e['root']['host'] else ''
                w.apps[-1]._test_script = script.rstrip('/')
            return r
        except CaseTimeout:
            raise
        except Exception as x:
            return exc(exc_name(x))
    for e in case['init']['pre']:
        step(e)
    log = [{'ret': val('<None>'), 'obs': observe(w)}]
    for e in case['ops']:
        log.append({'ret': step(e), 'obs': observe(w)})
    return log


# ---- case generation -------------------------------------------------------
CFG = {'strict': True, 'rdef': True, 'hostm': False, 'dsub': '', 'cs': 'utf-8'}
ROOTS = [{'scheme': '', 'host': '', 'path': ''}] * 3 + [
    {'scheme': s, 'host': h, 'path': p} for s in ('http', 'https')
    for h in ('h.example', 'H.Example', 'h.example:8080') for p in ('', '/', '/app', '/app/', '/deep/app', '/~x-y')]
CONVS = [('slug', 'path'), ('num', 'int'), ('num', 'string'), ('num', 'float'), ('word', 'string'), ('int', 'string')]
QUERIES = ['', '', '', 'x=1&flag&y=2&x=3', 'x=1', 'x=1&y=%20', 'a=b%26c', 'q=%C3%A9&q=', 'a+b']


def plain_table(r):
    """Routes of one domain."""
    out = d_route.gen_table(r, CFG, r.randint(1, 5), r.choice([0, .3, .6]))
    for d, toks, slash in out:
        d['sub'] = '<None>'
        d['wrap'] = [w for w in d['wrap'] if w['w'] != 'subdomain']
    return out


def tricky(p):
    """Paths a relative redirect cannot express (see DESIGN.md)."""
    return '//' in p or ';' in p or '/.' in p


def gen_cases(r, n):
    out = []
    while len(out) < n:
        classes = gen_classes(r)
        own = [c['name'] for c in classes]
        multi = r.random() < .6
        table = []
        eps = ['e1', 'e2', 'e3'] + [''] * (r.random() < .2)
        label = [0]
        root = r.choice(ROOTS)
        mounted = r.random() < .3

        def fresh(p):
            label[0] += 1
            return '%s%d' % (p, label[0])

        def building(first=False):
            x = r.random()
            if first and not table or x < .22:
                new = plain_table(r)
                table.extend(new)
                eps.extend(d_route.ep_of(d) for d, _, _ in new)
                return [{'op': 'route', 'def': d} for d, _, _ in new]
            if x < .55:
                does = r.choice(['answer'] * 6 + ['stream', 'stream', 'json', 'nothing', r.choice(['json', 'object', 'object', *JSON])] + own + ['KeyError', 'NotFound'])
                rep = gen_rep(r) if r.random() < .25 else NOREP
                via = r.choice(['builder', 'builder', 'builder', 'views', 'binding', 'dispatcher', 'view', 'class'])
                if does in JSON or does in ('json', 'object', 'nothing'):
                    rep = dict(NOREP, ct={'v': 'application/json', 'qs': 1000}, qs=rep['qs'])
                    via = r.choice(['views', 'view'])
                elif via == 'class':
                    rep = NOREP
                name = r.choice(eps)
                route = '<None>'
                if not multi and (name == '' or r.random() < .4):
                    route = r.choice(['/own', '/own/', '/own/<x>', '/own/<int:x>', '/<x>/own'])
                    cv = 'int:' if 'int' in route else ''
                    table.append((d_route.new_def(r, [], name, False), [('s', '/own/')] + [('v', 'x', cv)] * ('x' in route), False))
                by_name = via == 'builder' and re.match(r'[a-z][a-z0-9]*$', name) and r.random() < .5
                return [{'op': 'expose', 'via': via, 'name': '<None>' if by_name else name, 'fn': name if by_name else 'f',
                         'route': route, 'methods': r.sample(['GET', 'POST', 'PUT', 'DELETE', 'HEAD'], r.choice([1, 1, 2]))
                         if r.random() < .4 else ['GET'], 'rep': rep, 'label': fresh('V'), 'does': does}]
            if x < .67:
                return [{'op': 'mid', 'label': fresh('T') if r.random() < .7 else 'T', 'does': r.choice(['tag', 'tag', 'tag', 'block', 'strip']),
                         'how': r.choice(['args', 'kwargs'])}]
            if x < .69:
                # handlers that differ only in what they answer with
                cls = r.choice(own + ['NotFound', 'KeyError'])
                via = r.choice(['add', 'decorator', 'nested'])
                reps = [gen_rep(r) for _ in range(3)]
                if r.random() < .5:
                    reps = [dict(NOREP, lang={'v': l, 'qs': 1000}) for l in r.sample(['en', 'de', 'en-us'], 3)]
                new = [{'op': 'handler', 'h': {'cls': cls, 'rep': x, 'label': fresh('H'), 'then': 'answer', 'via': via}} for x in reps]
                if cls != 'NotFound' and table:
                    new.append({'op': 'expose', 'via': 'builder', 'name': r.choice([d_route.ep_of(d) for d, _, _ in table]),
                                'fn': 'f', 'route': '<None>', 'methods': ['GET'], 'rep': NOREP, 'label': fresh('V'), 'does': cls})
                return new
            if x < .77:
                cls = r.choice(own + ['Exception', 'HTTPException', 'NotFound', 'KeyError', 'LookupError',
                                      'MethodNotAllowed', 'RequestRedirect', 'NotAcceptable', 'NotImplemented', 'RoutingException'])
                return [{'op': 'handler', 'h': {'cls': cls, 'rep': gen_rep(r) if r.random() < .3 else NOREP, 'label': fresh('H'),
                                                'then': 'answer' if r.random() < .93 else r.choice(own),
                                                'via': r.choice(['add', 'decorator', 'nested'])}}]
            if x < .84:
                return [{'op': r.choice(['amix', 'rmix', 'rmix']), 'name': r.choice(['M1', 'M2', 'M3'])}]
            if x < .92:
                return [{'op': 'conf', 'key': r.choice(['k', 'l', 'DEBUG']), 'v': r.choice(['1', '2', 'x'])}]
            if x < .97:
                nm, kind = r.choice(CONVS)
                out = [{'op': 'conv', 'name': nm, 'kind': kind}]
                if nm != 'int' and r.random() < .8:
                    ep = r.choice(eps)
                    text = '/%s/<%s:v>' % (nm, nm) + r.choice(['', '/'])
                    d = d_route.new_def(r, [], ep, False)
                    d['r'] = text
                    table.append((d, [('s', '/' + nm + '/'), ('v', 'v', '')], text.endswith('/')))
                    out.append({'op': 'route', 'def': d})
                    if r.random() < .3:
                        out.reverse()
                return out
            return [{'op': 'conf', 'key': 'k', 'v': '3'}]
        ops = []
        for _ in range(r.randint(4, 10)):
            ops += building(not ops)
        # views for the endpoints there are
        for ep in sorted({d_route.ep_of(d) for d, _, _ in table}):
            if r.random() < .7:
                ops.append({'op': 'expose', 'via': 'builder', 'name': ep, 'fn': 'f', 'route': '<None>', 'methods': ['GET'],
                            'rep': NOREP, 'label': fresh('V'), 'does': r.choice(['answer', 'answer', 'stream'])})
        pre_len = r.randint(0, len(ops))
        ops.append({'op': 'build', 'root': root})
        napps, roots = 1, [root]
        redefined = any(o['op'] == 'conv' and o['name'] == 'int' for o in ops)
        for _ in range(r.randint(4, 12)):
            x = r.random()
            if x < .25:
                new = building()
                ops += new
                redefined |= any(o['op'] == 'conv' and o['name'] == 'int' for o in new)
            elif x < .35 and multi:
                # rarely a converter that does not exist
                if r.random() < .1:
                    d = d_route.new_def(r, [], 'e1', False)
                    d['r'] = '/z/<nope:x>'
                    ops += [{'op': 'route', 'def': d}, {'op': 'build', 'root': r.choice(ROOTS)}]
                    break
                rt = r.choice(ROOTS)
                ops.append({'op': 'build', 'root': rt})
                napps += 1
                roots.append(rt)
            elif x < .4:
                ops.append({'op': 'debug', 'app': r.randint(1, napps), 'on': r.random() < .7})
            elif x < .44:
                ops.append({'op': 'setconf', 'app': r.randint(1, napps), 'key': r.choice(['k', 'new'])})
            elif x < .48:
                ops.append({'op': 'attr', 'app': r.randint(1, napps), 'name': r.choice(['a', 'b', 'c'])})
            elif x < .62:
                ep = r.choice(eps)
                vals = d_route.gen_vals(r, table, ep, .05)
                if not d_route.ok_vals(table, vals) or any(v['t'] == 's' and tricky('/' + v['v']) for _, v in vals):
                    continue
                e = {'app': r.randint(1, napps), 'ep': ep, 'vals': vals}
                if r.random() < .3:
                    ops.append(dict(e, op='link'))
                else:
                    ops.append(dict(e, op='visit', method=r.choice(['GET', 'GET', 'HEAD', 'POST']),
                                    host=r.choice(['req.example', 'h.example']), take=r.random() < .2))
            else:
                i = r.randint(1, napps)
                p = d_route.gen_path(r, table)
                if r.random() < .1:
                    p = '/old' + p
                if r.random() < .15:
                    p = r.choice(['/own', '/own/', '/own/7', '/a/own', '/slug/a/b', '/num/7', '/num/7.5', '/word/x/', '/slug/x/'])
                if not p.startswith('/'):
                    p = '/' + p
                plain = r.random() < .7
                rt = roots[i - 1]
                if not rt['host'] and tricky(p):
                    continue
                script = rt['path'].rstrip('/') if rt['host'] else ''
                if not rt['host'] and mounted and not any(d['alias'] or d['redir'].startswith('/') for d, _, _ in table):
                    script = r.choice(['', '/app', '/deep/app'])
                ops.append({'op': 'request', 'app': i, 'method': r.choice(['GET', 'GET', 'GET', 'GET', 'HEAD', 'POST', 'DELETE']),
                            'path': p, 'q': r.choice(QUERIES), 'script': script,
                            'host': r.choice(['req.example', 'h.example', 'h.example:8080']),
                            'accept': '<None>' if plain else gen_header(r, 'ct'),
                            'lang': '<None>' if plain else gen_header(r, 'lang'),
                            'cs': '<None>' if plain or r.random() < .7 else gen_header(r, 'cs'), 'take': r.random() < .2,
                            'within': 0 if r.random() < .85 else r.randint(1, napps)})
        if redefined and any('int(' in o['def']['r'] for o in ops if o['op'] == 'route'):
            continue
        if any('uuid' in k and k & {'int', 'float'} for k in d_route.kinds(table)):
            continue
        if any(d_route.tiny(table, o.get('path', '')) for o in ops):
            continue
        out.append({'init': {'classes': classes, 'redirects': r.random() < .85, 'mixins': r.random() < .85,
                             'multi': multi, 'pre': ops[:pre_len]}, 'ops': ops[pre_len:]})
    return out
