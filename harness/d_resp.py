"""Driver: replay behaviours of spec/Resp.tla on verktyg responses."""
from core import capture, dec_text, enc, enc_text, val, exc_name, CaseTimeout


class Boom(Exception):
    pass


class Source:
    """A body with its own close; fails before item number `fault`."""

    def __init__(self, items, fault, one_pass):
        self.items, self.fault, self.one_pass = items, fault, one_pass
        self.pos = 0
        self.closed = 0

    def close(self):
        self.closed += 1

    def _make(self, start):
        for i in range(start, len(self.items)):
            if self.fault and i + 1 >= self.fault:
                raise Boom()
            yield self.items[i]
        if self.fault > len(self.items):
            raise Boom()


class GenSource(Source):
    def __iter__(self):
        return self

    def __next__(self):
        if self.fault and self.pos + 1 >= self.fault:
            raise Boom()
        if self.pos >= len(self.items):
            raise StopIteration
        self.pos += 1
        return self.items[self.pos - 1]


class IterSource(Source):
    def __iter__(self):
        return self._make(0)


def make_class(cs, auto, implicit):
    from verktyg.responses import Response

    class R(Response):
        charset = cs
        automatically_set_content_length = auto
        implicit_sequence_conversion = implicit
    return R


def chunk(c, cs):
    v = dec_text(c['v'])
    return v if c['t'] == 's' else v.encode(cs)


def environ(method, path='/x'):
    import io
    return {
        'REQUEST_METHOD': method, 'SCRIPT_NAME': '', 'PATH_INFO': path,
        'QUERY_STRING': '', 'SERVER_NAME': 'localhost', 'SERVER_PORT': '80',
        'HTTP_HOST': 'localhost', 'SERVER_PROTOCOL': 'HTTP/1.1',
        'wsgi.version': (1, 0), 'wsgi.url_scheme': 'http',
        'wsgi.input': io.BytesIO(b''), 'wsgi.errors': io.StringIO(),
        'wsgi.multithread': False, 'wsgi.multiprocess': False,
        'wsgi.run_once': False,
    }


def serve(app, env, take):
    """What a WSGI server does, for a client that takes `take` chunks."""
    seen = {}
    out = []

    def start_response(status, headers, exc_info=None):
        seen['status'] = status
        seen['headers'] = list(headers)
        return out.append
    raised = False
    it = app(env, start_response)
    try:
        try:
            iterator = iter(it)
            while take < 0 or len(out) < take:
                try:
                    out.append(next(iterator))
                except StopIteration:
                    break
        except Boom:
            raised = True
    finally:
        if hasattr(it, 'close'):
            it.close()
    return seen, out, raised


def run(case):
    c = case['init']
    cs = c['cs']
    cls = make_class(cs, c['auto'], c['implicit'])
    items = [chunk(x, cs) for x in c['items']]
    kind = c['kind']
    src = None
    if kind == 'str':
        body = ''.join(dec_text(x['v']) for x in c['items'])
    elif kind == 'bytes':
        body = ''.join(dec_text(x['v']) for x in c['items']).encode(cs)
    elif kind == 'list':
        body = items
    elif kind == 'tuple':
        body = tuple(items)
    else:
        src = body = (GenSource if kind == 'gen' else IterSource)(items, c['fault'], kind == 'gen')
    kw = {}
    if c['passthrough']:
        kw['direct_passthrough'] = True
    resp = cls(body, status=c['status'], headers=[tuple(x) for x in c['headers']], **kw)
    counts = []
    phase = {'finished': False}

    def observe():
        try:
            return {'headers': [[k, enc(v)] for k, v in resp.headers],
                    'status': resp.status_code, 'cbs': list(counts),
                    'src': -1 if src is None else src.closed,
                    'isseq': resp.is_sequence}
        except Exception as e:
            return {'error': type(e).__name__}

    def result(seen, out, raised):
        data = b''.join(x if isinstance(x, bytes) else b'<not bytes>' for x in out)
        try:
            body = enc_text(data.decode(cs))
        except UnicodeDecodeError:
            body = '<undecodable>'
        st = seen.get('status', '')
        return {'status': int(st.split(' ')[0]) if st[:3].isdigit() else st,
                'headers': [[k, enc(v)] for k, v in seen.get('headers', [])],
                'body': body, 'nbytes': len(data), 'nchunks': len(out),
                'raised': raised}

    def apply(e):
        op = e['op']
        if op == 'on_close':
            i = len(counts)
            counts.append(0)

            def cb():
                counts[i] += 1
            if resp.call_on_close(cb) is not cb:
                return 'call_on_close did not return the function'
            return None
        if op == 'set_data':
            return resp.set_data(chunk(e['v'], cs))
        if op == 'write':
            return resp.stream.write(chunk(e['v'], cs)) and None
        if op == 'writelines':
            return resp.stream.writelines(chunk(v, cs) for v in e['vs'])
        if op == 'flush':
            return resp.stream.flush()
        if op == 'isatty':
            return resp.stream.isatty()
        if op == 'wencoding':
            return resp.stream.encoding
        if op == 'wclose':
            return resp.stream.close()
        if op == 'make_sequence':
            return resp.make_sequence()
        if op == 'freeze':
            return resp.freeze()
        if op == 'get_data':
            return resp.get_data().decode(cs)
        if op == 'get_text':
            return resp.get_data(as_text=True)
        if op == 'calc':
            return resp.calculate_content_length()
        if op == 'status':
            resp.status_code = e['n']
            return
        if op == 'set_header':
            resp.headers[e['key']] = e['v']
            return
        if op == 'is_sequence':
            return resp.is_sequence
        if op == 'is_streamed':
            return resp.is_streamed
        if op == 'with':
            with resp:
                pass
            return
        raise AssertionError(op)

    log = [{'ret': val('<None>'), 'obs': observe()}]
    for e in case['ops']:
        if e['op'] == 'send':
            try:
                app = resp
                if c['passthrough'] and e['method'] == 'GET' and resp.status_code == 200 and resp.get_app_iter(environ('GET')) is not resp.response:
                    raise LookupError('body not passed on as it is')
                if e['via'] == 'app':
                    app = build_app(resp)
                ret = val(result(*serve(app, environ(e['method']), e['take'])))
            except CaseTimeout:
                raise
            except Exception as x:
                ret = {'k': 'exc', 'v': exc_name(x)}
        else:
            ret = capture(apply, e)
        log.append({'ret': ret, 'obs': observe()})
    return log


def build_app(resp):
    from verktyg.application import ApplicationBuilder
    from verktyg.routing import Route
    from verktyg.dispatch import Binding
    b = ApplicationBuilder()
    b.add_routes(Route('/x', endpoint='x'))
    b.add_bindings(Binding('x', lambda app, req: resp, method='GET'))
    return b('http://localhost')


# ---- generation -------------------------------------------------------------
TEXTS = ['', 'a', 'hello', '\x0e', 'x\x0ey', '\n', 'abc\r\n']
U8ONLY = ['\x10', 'z\x11', '\x15\x15']
STATUS = [100, 101, 199, 200, 201, 202, 204, 205, 206, 301, 303, 304, 305, 400, 404, 500, 599]
HDRS = [('Content-Language', 'en'), ('Expires', 'x'), ('Content-Location', '/y'), ('Allow', 'GET'),
        ('Last-Modified', 'm'), ('Content-Encoding', 'gzip'), ('Content-MD5', 'q'),
        ('content-range', 'bytes 0-1/2'), ('ETag', '"e"'), ('X-A', '1'), ('X-A', '2'),
        ('Content-Type', 'text/html'), ('Vary', 'a'), ('Set-Cookie', 'a=b')]


def gen_chunk(r, cs, kinds='sb'):
    return {'t': r.choice(kinds), 'v': r.choice(TEXTS + (U8ONLY if cs == 'utf-8' else []))}


def gen_cases(r, n, length, faults=True):
    out = []
    for _ in range(n):
        cs = r.choice(['utf-8', 'utf-8', 'latin-1'])
        kind = r.choice(['list', 'tuple', 'gen', 'gen', 'iterable', 'str', 'bytes'])
        passthrough = kind in ('gen', 'iterable') and r.random() < .2
        items = [gen_chunk(r, cs, 'b' if passthrough else 'sb') for _ in range(r.randint(0, 4))]
        fault = 0
        if faults and kind in ('gen', 'iterable') and items and r.random() < .35:
            fault = r.randint(1, len(items))
        streamed = kind in ('gen', 'iterable')
        init = {'kind': kind, 'items': items, 'fault': fault, 'status': r.choice(STATUS + [200] * 12),
                'cs': cs, 'auto': r.random() < .85, 'implicit': r.random() < .85,
                'passthrough': passthrough,
                'headers': [list(x) for x in r.sample(HDRS, r.choice([0, 0, 1, 3, 6]))]}
        ops = []
        nonascii = cs
        for _ in range(r.randint(0, length)):
            op = r.choice(['on_close'] * 4 + ['write'] * 3 + ['make_sequence', 'freeze', 'get_data', 'get_text',
                          'calc', 'status', 'set_header', 'is_sequence', 'is_streamed', 'set_data',
                           'set_data', 'wclose', 'writelines', 'flush', 'isatty', 'wencoding'])
            e = {'op': op}
            if op == 'set_data':
                if streamed:
                    continue
                e['v'] = gen_chunk(r, cs)
            elif op == 'write':
                # in passthrough mode items are sent as they are
                e['v'] = gen_chunk(r, cs, 'b' if passthrough else 'sb')
            elif op == 'writelines':
                e['vs'] = [gen_chunk(r, cs, 'b' if passthrough else 'sb') for _ in range(r.randint(0, 3))]
            elif op == 'status':
                e['n'] = r.choice(STATUS)
            elif op == 'set_header':
                if r.random() < .3:
                    e.update(key=r.choice(['Content-Length', 'content-length']), v='777')
                else:
                    k, v = r.choice(HDRS)
                    if k == 'Content-Location':
                        k = 'X-B'
                    e.update(key=k, v=v)
            elif op == 'wclose' and r.random() < .7:
                continue
            ops.append(e)
        if r.random() < .08:
            ops.append({'op': 'with'})
        else:
            via = r.choice(['direct', 'app'])
            if passthrough:
                via = 'app'
            take = r.choice([-1, -1, -1, 0, 1, 2, 3, 9])
            if via == 'app' and take == 0:
                take = 1
            ops.append({'op': 'send', 'method': r.choice(['GET'] * 4 + ['HEAD']), 'take': take, 'via': via})
        out.append({'init': init, 'ops': ops})
    return out
