"""Driver: spec/Client.tla - the environment builder and the test client."""
import re
import sys
from io import BytesIO

from core import CaseTimeout, dec, enc, enc_text, exc, exc_name, val


class Slow(BytesIO):
    """A file that yields a few bytes at a time."""

    def read(self, n=-1):
        return BytesIO.read(self, min(n, 7) if n > 0 else n)


class Named(Slow):
    """A file that knows its name."""

    def __init__(self, data, name):
        BytesIO.__init__(self, data)
        self.filename = name


def field_value(f, how):
    from verktyg.http import FileStorage
    if f['k'] == 'text':
        return f['v']
    b = f['v'].encode('utf-8')
    if f['k'] == 'bytes':
        return b
    if how == 'storage' or (f['fn'] is None and f['ct'] is not None):
        ct = f['ct']
        if ct is None and f['fn'] is not None:
            import mimetypes
            ct = mimetypes.guess_type(f['fn'])[0]
        return FileStorage(Slow(b), f['fn'], f['n'], ct or 'application/octet-stream')
    if how == 'tuple' and f['fn'] is not None:
        return (Slow(b), f['fn']) + ((f['ct'],) if f['ct'] is not None else ())
    if f['ct'] is None and f['fn'] is None:
        return Slow(b)
    return FileStorage(Slow(b), f['fn'], f['n'], f['ct']) if f['ct'] is not None else (Slow(b), f['fn'])


def container(fields, how, value):
    """The fields as a MultiDict or, if their order allows, a dict of lists."""
    from verktyg.datastructures import MultiDict
    if how == 'dict':
        out = {}
        for f in fields:
            out.setdefault(f['n'], []).append(value(f))
        return {k: v if len(v) > 1 else v[0] for k, v in out.items()}
    return MultiDict([(f['n'], value(f)) for f in fields])


def arguments(d):
    """Arguments for EnvironBuilder."""
    from verktyg.datastructures import MultiDict
    kw = {'path': d['path']}
    how = d.get('how', '')
    if d['base'] is not None:
        kw['base_url'] = d['base']
    q = d['query']
    if q['t'] == 'text':
        kw['query_string'] = q['s']
    elif q['t'] == 'pairs':
        keys = [k for k, _ in q['pairs']]
        if how == 'dict' and len(set(keys)) == len(keys):
            kw['query_string'] = dict(map(tuple, q['pairs']))
        else:
            kw['query_string'] = MultiDict([tuple(p) for p in q['pairs']])
    if d['method'] != 'GET' or how == 'dict':
        kw['method'] = d['method']
    if d['hdrs']:
        kw['headers'] = [tuple(h) for h in d['hdrs']]
    if d['ctype'] is not None:
        kw['content_type'] = d['ctype']
    if d['cs'] != 'utf-8':
        kw['charset'] = d['cs']
    if d['below']:
        kw['environ_base'] = {'HTTP_' + k: v for k, v in d['below']}
    if d['above']:
        kw['environ_overrides'] = {'HTTP_' + k: v for k, v in d['above']}
    t = d['data']['t']
    if t == 'text':
        kw['data'] = d['data']['s']
    elif t == 'bytes':
        b = d['data']['s'].encode('utf-8')
        if how == 'storage':
            kw['input_stream'] = BytesIO(b)
        else:
            kw['data'] = b
    elif t == 'form':
        kw['data'] = container(d['data']['fields'], how, lambda f: field_value(f, how))
    return kw


def builder(d):
    """An EnvironBuilder, described in one call or step by step."""
    from verktyg.datastructures import MultiDict
    from verktyg.test import EnvironBuilder
    kw = arguments(d)
    if d.get('how') != 'steps':
        return EnvironBuilder(**kw)
    b = EnvironBuilder(kw.pop('path'), query_string=kw['query_string'] if isinstance(kw.get('query_string'), str) else MultiDict() if 'query_string' in kw else None,
                       charset=kw.pop('charset', 'utf-8'),
                       environ_base=kw.get('environ_base'), environ_overrides=kw.get('environ_overrides'))
    q = kw.pop('query_string', None)
    if q is not None and not isinstance(q, str):
        for k, v in (q.items() if isinstance(q, dict) and not hasattr(q, 'lists') else q.items(multi=True)):
            b.args.add(k, v)
    if 'base_url' in kw:
        from verktyg.urls import url_fix
        b.base_url = url_fix(kw.pop('base_url'))
    for k, v in kw.pop('headers', []):
        b.headers.add(k, v)
    if 'content_type' in kw:
        b.content_type = kw.pop('content_type')
    b.method = kw.pop('method', 'GET')
    kw.pop('data', None)
    t = d['data']['t']
    if t == 'text':
        b.input_stream = BytesIO(d['data']['s'].encode(d['cs']))
    elif t == 'bytes':
        b.input_stream = BytesIO(d['data']['s'].encode('utf-8'))
    elif t == 'form':
        names = [f['n'] for f in d['data']['fields']]
        for f in sorted(d['data']['fields'], key=lambda f: names.index(f['n'])):
            v = field_value(f, 'tuple')
            if f['k'] != 'file':
                b.form.add(f['n'], v)
            elif isinstance(v, tuple):
                b.files.add_file(f['n'], *v)
            else:
                b.files.add_file(f['n'], v)
    return b


def shown(env, given_type):
    """The request as the application got it."""
    body = env['wsgi.input'].read()
    ctype, length = env.get('CONTENT_TYPE', ''), env.get('CONTENT_LENGTH')
    m = re.search(r'; boundary="?([^";]+)"?$', ctype)
    if m and m.group(1) != 'B' and 'boundary' not in (given_type or ''):
        right = length == str(len(body))
        body = body.replace(m.group(1).encode('ascii'), b'B')
        ctype = ctype[:m.start()] + '; boundary="B"'
        if right:
            length = str(len(body))
    cookie = env.get('HTTP_COOKIE')
    skip = ('HTTP_HOST', 'HTTP_COOKIE', 'HTTP_CONTENT_TYPE', 'HTTP_CONTENT_LENGTH')
    return {'method': env['REQUEST_METHOD'], 'scheme': env['wsgi.url_scheme'], 'host': env['HTTP_HOST'],
            'name': env['SERVER_NAME'], 'port': env['SERVER_PORT'], 'script': env['SCRIPT_NAME'],
            'path': env['PATH_INFO'], 'query': env['QUERY_STRING'], 'ctype': ctype, 'body': body, 'length': length,
            'hdrs': {'SET': [[k[5:], v] for k, v in sorted(env.items()) if k.startswith('HTTP_') and k not in skip]},
            'cookies': {'SET': sorted(set(cookie.split('; '))) if cookie is not None else []}}


def fit(x):
    """Encode all texts of a Shown record."""
    if isinstance(x, dict):
        return {k: fit(v) for k, v in x.items()}
    if isinstance(x, list):
        return [fit(v) for v in x]
    return enc(x)


class Body:
    """What an application returns; counts how often it is closed."""

    def __init__(self, world, it):
        self.world, self.it = world, it
        world.opened += 1
        self.closed = 0

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def close(self):
        self.closed += 1
        if self.closed == 1:
            self.world.closed += 1
        else:
            self.world.twice = True


class World:
    def __init__(self, c):
        from verktyg.test import Client
        from verktyg.responses import Response
        self.c = c
        self.log = []
        self.opened = self.closed = 0
        self.twice = False
        self.given = None

        class Wrapped(Response):
            auto_content_length = False
        self.Wrapped = Wrapped
        self.client = Client(self.app, use_cookies=c['cookies'], allow_subdomain_redirects=c['sub'])

    def rule(self, env):
        h = env['HTTP_HOST'].split(':')[0]
        p = env['SCRIPT_NAME'] + env['PATH_INFO']
        for r in self.c['rules']:
            if r['host'] in ('*', h) and r['path'] == p:
                return r
        return {'kind': 'list', 'status': '404 Not Found', 'loc': None, 'sets': [], 'write': [], 'chunks': ['none'], 'late': []}

    def app(self, env, start_response):
        self.log.append(fit(shown(env, self.given)))
        r = self.rule(env)
        headers = [('Content-Type', 'text/plain')]
        if r['loc'] is not None:
            headers.append((('Location', 'location')[len(r['loc']) % 2], r['loc']))
        for k in r['sets']:
            t = '%s=%s' % (k['n'], k['v'])
            if k['dom'] is not None:
                t += '; Domain=' + k['dom']
            if k['age'] == 'gone':
                t += '; Max-Age=0'
            elif k['age'] != '-':
                t += '; Max-Age=' + k['age']
            if k['path'] is not None:
                t += '; Path=' + k['path']
            if k['secure']:
                t += '; Secure'
            headers.append(('Set-Cookie', t))
        enc_all = lambda xs: [x.encode('utf-8') for x in xs]    # noqa

        def run():
            write = start_response(r['status'], headers)
            for b in enc_all(r['write']):
                write(b)
            for b in enc_all(r['chunks']):
                yield b
            for b in enc_all(r['late']):
                write(b)

        def fail():
            try:
                raise ValueError('broken')
            except ValueError:
                info = sys.exc_info()
            if r['kind'] == 'raise':
                raise info[1]
            if r['kind'] == 'retraced':
                info = (info[0], info[1].with_traceback(None), info[2])
            start_response('500 Broken', headers, info)
            yield b'unreachable'
        if r['kind'] in ('raise', 'excinfo', 'retraced'):
            if len(r['path']) % 2:
                return Body(self, fail())
            for _ in fail():
                pass
        if r['kind'] == 'gen':
            return Body(self, run())
        write = start_response(r['status'], headers)
        for b in enc_all(r['write']):
            write(b)
        if r['kind'] == 'list':
            return enc_all(r['chunks'])
        return Body(self, iter(enc_all(r['chunks'])))

    def open(self, e):
        d = dec(e['d'])
        cl = self.client
        self.log, self.opened, self.closed, self.twice = [], 0, 0, False
        given = d['ctype']
        for k, v in d['hdrs']:
            if given is None and k.lower() == 'content-type':
                given = v
        self.given = given
        cl.response_wrapper = self.wrapper if e.get('wrap') else None
        opts = {}
        if e['follow']:
            opts['follow_redirects'] = True
        if e.get('buffered'):
            opts['buffered'] = True
        as_tuple = e.get('tuple', False)
        if as_tuple:
            opts['as_tuple'] = True
        env = None
        try:
            via = e.get('via', 'open')
            if via == 'builder':
                b = builder(d)
                rv = cl.open(b, **opts)
            elif via == 'environ':
                rv = cl.open(builder(d).get_environ(), **opts)
            elif via == 'short':
                kw = arguments(d)
                kw['method'] = 'DELETE'    # the name of the function counts
                rv = getattr(cl, d['method'].lower())(kw.pop('path'), **dict(kw, **opts))
            else:
                rv = cl.open(**dict(arguments(d), **opts))
            if as_tuple:
                env, rv = rv
            if e.get('wrap'):
                status, headers = rv.status, rv.headers
                body = b''.join(rv.iter_encoded())
                rv.close()
            else:
                it, status, headers = rv
                body = b''.join(it)
                if hasattr(it, 'close'):
                    it.close()
            end = val({'status': status, 'body': enc(body.decode('utf-8')), 'loc': enc(headers.get('Location')),
                       'sets': len(headers.getlist('Set-Cookie'))})
            if env is not None and self.log:
                at = [env['REQUEST_METHOD'], enc(env['HTTP_HOST']), enc(env['SCRIPT_NAME'] + env['PATH_INFO'])]
                last = self.log[-1]
                if at != [last['method'], last['host'], last['script'] + last['path']]:
                    end = val(['environment', at])
        except CaseTimeout:
            raise
        except Exception as x:
            end = exc(exc_name(x))
        return {'log': self.log, 'end': end, 'closed': self.opened == self.closed and not self.twice}

    def wrapper(self, it, status, headers):
        r = self.Wrapped(it, status=status, headers=headers)
        return r

    def do(self, e):
        op = e['op']
        if op == 'open':
            return val(self.open(e))
        try:
            if op == 'build':
                d = dec(e['d'])
                given = d['ctype']
                for k, v in d['hdrs']:
                    if given is None and k.lower() == 'content-type':
                        given = v
                b = builder(d)
                env = b.get_environ()
                x = fit(shown(env, given))
                b.close()
                return val(x)
            if op == 'multipart':
                from verktyg.test import encode_multipart, stream_encode_multipart
                fields = dec(e['fields'])
                how = e.get('how', '')
                grown = []
                if e.get('block'):
                    # files of the specification stand for long ones
                    for f in fields:
                        if f['k'] == 'file' and f['v']:
                            short = f['v'].encode('utf-8')
                            k = e['block'] // len(short)
                            f['v'] = ''.join(ch * k for ch in f['v'])
                            grown.append((f['v'].encode('utf-8'), short))
                vals = container(fields, how, lambda f: self.part(f))
                if e.get('threshold') is None:
                    b, body = encode_multipart(vals, boundary='B', charset=e['cs'])
                    n = len(body)
                else:
                    stream, n, b = stream_encode_multipart(vals, threshold=e['threshold'], boundary='B', charset=e['cs'])
                    body = stream.read()
                    stream.close()
                for long, short in grown:
                    if long in body:
                        body = body.replace(long, short, 1)
                        n -= len(long) - len(short)
                return val({'body': enc(body), 'length': n if b == 'B' else -1})
            if op == 'set':
                c = dec(e)
                if c['age'] == 'gone':
                    where = {} if c['path'] == '/' else {'path': c['path']}
                    if c['dom'] is not None:
                        where['domain'] = c['dom']
                    self.client.delete_cookie(c['host'], c['n'], **where)
                else:
                    self.client.set_cookie(c['host'], c['n'], c['v'], path=c['path'], domain=c['dom'], secure=c['secure'],
                                           max_age=None if c['age'] == '-' else int(c['age']))
                return val('<None>')
        except CaseTimeout:
            raise
        except Exception as x:
            return exc(exc_name(x))

    @staticmethod
    def part(f):
        if f['k'] == 'file' and f['ct'] is None:
            b = f['v'].encode('utf-8')
            return Slow(b) if f['fn'] is None else Named(b, f['fn'])
        if f['k'] == 'text' and f['v'].isdigit():
            return int(f['v'])
        return field_value(f, 'storage')


def run(case):
    w = World(dec(case['init']))
    out = [{'ret': val('<None>'), 'obs': 0}]
    for e in case['ops']:
        out.append({'ret': w.do(e), 'obs': 0})
    return out


# --------------------------------------------------------------------------
E = '\x0e'
HOSTS = ['localhost', 'h.com', 'a.h.com', 'b.h.com', 'evil.org', 'a.a.h.com', 'ah.com']
BASES = ['<None>', 'http://localhost/', 'http://h.com/', 'http://h.com', 'https://h.com/', 'http://a.h.com/', 'http://h.com:8080/',
         'https://h.com:443/', 'http://h.com/app', 'http://h.com/app/', 'http://h.com/app/sub/', 'http://h.com/a b/', 'http://h.com/' + E + '/', 'http://[::1]:8080/x']
STRANGE = BASES + ['http://\x0e.h.com/', 'http://h.com/?x=1', 'http://h.com/#f', 'http://h.com:/', 'http://h.com:x/', 'http://h.com/a%20b/', 'http://h.com/%zz/', 'https://h.com/' + E + '%C3%A9']
PATHS = ['/', '/a', '/a/', '/a/b', '/x', '/x/y', '/b', '/a b', '/' + E, '/a+b', '/a%20b', '/a%2Fb', '/a%zz', '/%E9', '/a;b=c', '/\x10/\x11', '/a/b/c', "/~a-b_c.d!e'f(g)h*", '/a:b@c&d=e$f,g', '/[x]', '/"q"', '/a%3Fb', '/a%23b', '/<b>', '/%', '/a\\b', '/a|b^c`d{e}']
QUERIES = ['', 'x=1', 'x=1&y=2', 'a b', E, 'x=%20', '?', 'a=b=c', '&&', 'x=' + E + '%C3%A9', 'a+b', '\x10=\x11', '#f']
KEYS = ['x', 'y', 'a b', E, 'k&', 'z=', 'x', '']
VALS = ['', '1', 'a b', 'a+b', 'a&b=c', E, '%41', 'x\r\ny', '/?#', 'two words', '"', ';', '\x10', '\x11\x12', '--B', '\r\n--B--\r\n', '~*', 'a' * 30]
LVALS = ['', '1', 'a b', E, 'a&b', '%41', '"', '\x14\x16']
METHODS = ['GET', 'POST', 'PUT', 'DELETE', 'HEAD', 'OPTIONS', 'PATCH', 'TRACE']
HDRS = [['X-One', '1'], ['X-One', 'two'], ['x-one', 'three'], ['X-Two', 'a, b'], ['Accept', 'text/html'], ['Accept', 'x/y;q=0.5'], ['Accept-Language', 'de'],
        ['X-Empty', ''], ['X-L', E], ['User-Agent', 'me/1.0 (x; y)'], ['If-None-Match', '"a"'], ['If-None-Match', 'W/"b"'], ['X_One', 'under']]
NAMES = ['f.txt', 'g.png', 'h', 'i j.txt', E + '.txt', '', '..', 'a;b.txt', "it's.png"]


def field(r, files=True, latin=False, plain=False):
    vals = LVALS if latin else VALS
    k = r.choice(['text', 'text', 'file', 'file', 'bytes'] if files else ['text', 'text', 'text', 'bytes'])
    f = {'n': r.choice(['x', 'y', 'a b', E, 'k', 'x'] if files else KEYS), 'k': k, 'v': r.choice(vals), 'fn': '<None>', 'ct': '<None>'}
    if k == 'bytes' and latin:
        f['v'] = r.choice(['', '1', 'a b', 'a&b'])
    if k == 'file':
        f['fn'] = r.choice(NAMES[:4] if plain else NAMES + ['<None>'])
        if f['fn'] != '<None>' and r.random() < .4:
            f['ct'] = r.choice(['text/html', 'image/png', 'text/plain; charset=latin-1', 'x/y'])
        f['v'] = r.choice(vals + ['b' * 300])
    return f


def descr(r, paths=PATHS, bases=BASES, rich=True):
    latin = rich and r.random() < .15
    d = {'path': r.choice(paths), 'base': r.choice(bases), 'query': {'t': 'none', 's': '', 'pairs': []},
         'method': r.choice(METHODS) if r.random() < .6 else 'GET', 'hdrs': [], 'data': {'t': 'none', 's': '', 'fields': []},
         'ctype': '<None>', 'cs': 'latin-1' if latin else 'utf-8', 'below': [], 'above': [], 'how': r.choice(['', 'dict', 'storage', 'tuple', 'steps'])}
    x = r.random()
    if x < .25:
        d['query'] = {'t': 'text', 's': r.choice(QUERIES), 'pairs': []}
    elif x < .5:
        d['query'] = {'t': 'pairs', 's': '', 'pairs': [[r.choice(KEYS), r.choice(LVALS if latin else VALS)] for _ in range(r.randint(0, 4))]}
    elif x < .7:
        d['path'] += '?' + r.choice(QUERIES)
    if not rich:
        return d
    for k in ('below', 'above'):
        if r.random() < .1:
            d[k] = [[x, k] for x in r.sample(['X_ONE', 'X_TWO', 'ACCEPT', 'X_NEW'], r.randint(1, 3))]
    d['hdrs'] = r.sample(HDRS, r.choice([0, 0, 1, 2, 4]))
    if r.random() < .08:
        d['hdrs'] = d['hdrs'] + [['Cookie', r.choice(['own=1', 'a=1'])]]
    x = r.random()
    if x < .12:
        d['data'] = {'t': 'text', 's': r.choice(LVALS if latin else VALS), 'fields': []}
    elif x < .25:
        d['data'] = {'t': 'bytes', 's': r.choice(VALS), 'fields': []}
    elif x < .8:
        files = r.random() < .6
        fs = [field(r, files, latin) for _ in range(r.randint(0, 4))]
        d['data'] = {'t': 'form', 's': '', 'fields': fs}
        y = r.random()
        ct = '<None>'
        if y < .2 and not any(f['k'] == 'file' for f in fs):
            ct = r.choice(['application/x-www-form-urlencoded', 'application/x-www-form-urlencoded; charset=utf-8', 'Application/X-WWW-Form-Urlencoded'])
        elif y < .45:
            ct = r.choice(['multipart/form-data', 'multipart/form-data; charset=utf-8', 'multipart/form-data; boundary=xyz', 'multipart/form-data; boundary="x y"; a=b', 'Multipart/Form-Data'])
        if ct != '<None>' and fs:
            put_type(r, d, ct)
        return norm(d)
    if r.random() < .4 and d['data']['t'] != 'form':
        put_type(r, d, r.choice(['text/plain', 'application/json; charset=utf-8', 'x/y', 'image/png']))
    return norm(d)


def put_type(r, d, ct):
    if r.random() < .3:
        d['hdrs'] = d['hdrs'] + [[r.choice(['Content-Type', 'content-type', 'CONTENT-TYPE']), ct]]
    else:
        d['ctype'] = ct


def norm(d):
    """Data that are empty are no data."""
    if d['data']['t'] in ('text', 'bytes') and d['data']['s'] == '':
        d['data'] = {'t': 'none', 's': '', 'fields': []}
    return d


# -- applications
LOCS = ['/', '/a', '/a/', '/a/b', '/x', '/x/y', 'b', 'c/d', '../x', './a', '.', '..', '?q=1', '', '/a?x=1&y=2', '/a#frag', '/x?' + 'q=%20', '/%C3%A9', '/a%20b', '/a b', '/' + E,
        'http://localhost/a', 'http://h.com/a', 'http://h.com/', 'http://a.h.com/x', 'https://h.com/a', 'http://h.com:8080/a', '//h.com/b', '//a.h.com/a', 'http://evil.org/a',
        'http://ah.com/a', 'http://a.a.h.com/a', 'http://h.com/app/a', 'http://h.com/app', 'http://h.com/app/', 'http://h.com/apple', '/app/a', '/app/b', '/apple', '/app', '/app/x?z=1', '#f', 'a/../b', '../../a',
        'http://com/a', 'http://localhost:80/a', 'http://[::1]/a', 'http://[::1]:8080/b', '//[::2]/a']
APPATHS = ['/', '/a', '/a/', '/a/b', '/x', '/x/y', '/b', '/app/a', '/app/x', '/app/', '/app', '/app/b', '/apple', '/a b']
CODES = ['302 Found', '301 Moved', '303 See Other', '307 Temporary Redirect', '308 Permanent', '305 Use Proxy', '302 ', '200 OK', '404 Nope', '300 Multiple', '304 Not Modified', '306 Unused', '500 Ouch']


def cookie(r, host=None):
    k = {'n': r.choice(['c', 'd', 'C', 'long_name']), 'v': r.choice(['1', '2', 'x', '"q r"', 'a=b', '']), 'dom': '<None>', 'path': r.choice(['<None>', '/', '/a', '/x', '/app', '/a/', '']),
         'secure': r.random() < .15, 'age': r.choice(['-', '-', '-', '100', 'gone'])}
    if r.random() < .4:
        k['dom'] = r.choice(['h.com', '.h.com', 'a.h.com', 'evil.org', 'com'])
        if k['age'] == 'gone' and k['dom'] not in ('h.com', '.h.com'):
            k['age'] = '-'
    return k


def rule(r, redirect=None):
    k = r.choice(['list', 'list', 'gen', 'iter', 'iter'])
    if r.random() < .05:
        k = r.choice(['raise', 'excinfo', 'retraced'])
    st = r.choice(CODES) if redirect is None else (r.choice(CODES[:6]) if redirect else '200 OK')
    code = st[:3]
    x = {'host': r.choice(['*', '*', '*'] + HOSTS), 'path': r.choice(APPATHS), 'kind': k, 'status': st,
         'loc': r.choice(LOCS) if code in ('301', '302', '303', '305', '307', '308') or r.random() < .1 else '<None>',
         'sets': [cookie(r) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))], 'write': r.choice([[], [], ['w'], ['w1', '', 'w2']]),
         'chunks': r.choice([[], ['one'], ['one', 'two'], ['', 'x'], ['\x0e', '', '\x10']]), 'late': []}
    if x['kind'] == 'gen' and r.random() < .2:
        x['late'] = ['late']
    # http.cookiejar drops cookies before it keeps new ones
    x['sets'].sort(key=lambda s: s['age'] != 'gone')
    for s in x['sets']:
        # a cookie taken back for another host is the cookie policy's business
        if s['age'] == 'gone' and s['dom'] != '<None>':
            s['dom'] = '<None>'
    return x


OPENBASES = ['<None>', 'http://localhost/', 'http://h.com/', 'https://h.com/', 'http://a.h.com/', 'http://h.com:8080/', 'http://h.com/app', 'http://h.com/app/', 'http://evil.org/', 'http://a.a.h.com/', 'http://[::1]/', 'http://[::1]:8080/app']
OPENPATHS = ['/', '/a', '/a/', '/a/b', '/x', '/x/y', '/b', '/a b', '/nope', '/a?q=1']


def opening(r, rules, rich=None):
    d = descr(r, OPENPATHS, OPENBASES, rich=r.random() < .3 if rich is None else rich)
    d['path'] = d['path'].replace(E, 'e').replace('\x10', 'e').replace('\x11', 'e')
    d['query']['s'] = d['query']['s'].replace(E, 'e').replace('\x10', 'e').replace('\x11', 'e')
    e = {'op': 'open', 'd': d, 'follow': r.random() < .75, 'buffered': r.random() < .4, 'wrap': r.random() < .3, 'tuple': r.random() < .3, 'via': r.choice(['open', 'open', 'short', 'builder', 'environ'])}
    if any(x['late'] for x in rules):
        e['buffered'] = True
    if e['via'] in ('open', 'short') and d['how'] == 'steps':
        d['how'] = ''
    return e


def setting(r):
    dom = r.choice(['<None>', '<None>', 'h.com', '.h.com', 'com', 'localhost', 'a.h.com', 'evil.org'])
    e = {'op': 'set', 'host': r.choice(['localhost', 'h.com', 'a.h.com', 'h.com:8080', 'evil.org']), 'n': r.choice(['c', 'd', 'C', 'set']), 'v': r.choice(['1', 'a b', 'x;y', '"', '']),
         'dom': dom, 'path': r.choice(['/', '/', '/a', '/x', '/app']), 'secure': r.random() < .1, 'age': r.choice(['-', '-', '100', 'gone'])}
    if e['age'] == 'gone':
        e['v'], e['secure'] = '', False
        if dom not in ('<None>', 'com', 'localhost'):
            e['dom'] = '<None>'
    return e


def norm_cookies(case):
    """A request with a Cookie header of its own is for clients without any."""
    if case['init']['cookies']:
        for e in case['ops']:
            if 'd' in e:
                e['d']['hdrs'] = [h for h in e['d']['hdrs'] if h[0] != 'Cookie']
    return case


def base_d(**kw):
    d = {'path': '/', 'base': '<None>', 'query': {'t': 'none', 's': '', 'pairs': []}, 'method': 'GET', 'hdrs': [],
         'data': {'t': 'none', 's': '', 'fields': []}, 'ctype': '<None>', 'cs': 'utf-8', 'below': [], 'above': [], 'how': ''}
    d.update(kw)
    return d


EMPTY = {'rules': [], 'cookies': False, 'sub': False}


def gen_cases(r, n):
    cases = []
    builds = []
    for p in PATHS:
        builds.append(base_d(path=p))
        for q in ('?x=1', '?' + E, '?a?b', '#f'):
            builds.append(base_d(path=p + q))
    for b in STRANGE:
        for p in ('/', '/a', '/' + E):
            builds.append(base_d(path=p, base=b))
    for q in QUERIES:
        builds.append(base_d(query={'t': 'text', 's': q, 'pairs': []}))
        builds.append(base_d(path='/a?b', query={'t': 'text', 's': q, 'pairs': []}))
    for k in KEYS:
        for v in VALS:
            builds.append(base_d(query={'t': 'pairs', 's': '', 'pairs': [[k, v], ['x', '2']]}))
            for how in ('', 'dict', 'steps'):
                builds.append(base_d(method='POST', how=how, data={'t': 'form', 's': '', 'fields': [{'n': k, 'k': 'text', 'v': v, 'fn': '<None>', 'ct': '<None>'}, {'n': 'x', 'k': 'text', 'v': 'last', 'fn': '<None>', 'ct': '<None>'}]}))
    for fn in NAMES + ['<None>']:
        for ct in ('<None>', 'text/html'):
            if fn == '<None>' and ct != '<None>':
                continue
            for how in ('storage', 'tuple', 'steps', 'dict'):
                builds.append(base_d(method='POST', how=how, data={'t': 'form', 's': '', 'fields': [{'n': 'f', 'k': 'file', 'v': 'data', 'fn': fn, 'ct': ct}, {'n': 'x', 'k': 'text', 'v': E, 'fn': '<None>', 'ct': '<None>'}]}))
    for i in range(0, len(builds), 10):
        cases.append({'init': EMPTY, 'ops': [{'op': 'build', 'd': d} for d in builds[i:i + 10]]})
    for _ in range(n // 3):
        cases.append({'init': EMPTY, 'ops': [{'op': 'build', 'd': descr(r, PATHS, STRANGE if r.random() < .2 else BASES)} for _ in range(4)]})
    for _ in range(n // 10):
        ops = []
        for _ in range(3):
            latin = r.random() < .2
            ops.append({'op': 'multipart', 'fields': [field(r, True, latin) for _ in range(r.randint(0, 5))], 'cs': 'latin-1' if latin else 'utf-8',
                        'threshold': r.choice([None, 0, 1, 40, 100, 300, 100000]), 'how': r.choice(['', 'dict'])})
            if r.random() < .15:
                ops[-1]['block'] = r.choice([17000, 40000, 600000])
            if ops[-1]['threshold'] is None:
                del ops[-1]['threshold']
        cases.append({'init': EMPTY, 'ops': ops})
    for _ in range(n):
        rules = [rule(r) for _ in range(r.randint(1, 6))]
        c = {'rules': rules, 'cookies': r.random() < .8, 'sub': r.random() < .4}
        ops = []
        for _ in range(r.randint(1, 5)):
            ops.append(setting(r) if r.random() < .2 else opening(r, rules))
        cases.append(norm_cookies({'init': c, 'ops': ops}))
    # cookies set and taken away again, by name, path and host
    for _ in range(n // 6):
        x = rule(r, False)
        x['host'], x['path'] = '*', r.choice(['/a', '/x', '/app', '/'])
        x['sets'], x['late'], x['kind'] = [], [], r.choice(['iter', 'list', 'gen'])
        host = r.choice(['h.com', 'h.com', 'localhost', 'a.h.com'])
        ops = []
        for _ in range(r.randint(2, 4)):
            e = setting(r)
            e.update(host=host, path=r.choice(['/', x['path'], x['path']]))
            if e['age'] == 'gone' or r.random() < .7:
                e['dom'] = '<None>'
            ops.append(e)
            if r.random() < .6:
                ops.append(dict(e, v='', secure=False, age='gone', dom='<None>',
                                path=e['path'] if r.random() < .7 else r.choice(['/', '/a', '/x'])))
        for k in range(2):
            e = opening(r, [x], False)
            e['d'].update(path=x['path'], query={'t': 'none', 's': '', 'pairs': []}, base='http://%s/' % host)
            ops.insert(r.randint(1, len(ops)) if k else len(ops), e)
        cases.append(norm_cookies({'init': {'rules': [x], 'cookies': True, 'sub': False}, 'ops': ops}))
    # chains of redirects through one site, cookies on the way
    for _ in range(n // 2):
        k = r.randint(2, 5)
        nodes = r.sample(APPATHS[:10], k)
        rules = []
        for i, p in enumerate(nodes):
            x = rule(r, i < k - 1)
            x['host'], x['path'] = '*', p
            if x['kind'] in ('raise', 'excinfo', 'retraced'):
                x['kind'] = 'iter'
            if i < k - 1:
                t = nodes[i + 1] if r.random() < .85 else r.choice(nodes)
                x['loc'] = r.choice(['', '', '', 'http://h.com', 'https://h.com', 'http://a.h.com', 'http://h.com:8080', '//h.com']) + t + r.choice(['', '', '?q=%d' % i])
            rules.append(x)
        c = {'rules': rules, 'cookies': r.random() < .9, 'sub': r.random() < .6}
        ops = []
        for _ in range(r.randint(1, 3)):
            e = opening(r, rules, False)
            e['follow'] = True
            e['d']['path'] = nodes[0] if not nodes[0].startswith('/app') or r.random() < .5 else nodes[0]
            e['d']['query'] = {'t': 'none', 's': '', 'pairs': []}
            e['d']['base'] = r.choice(['http://h.com/', 'http://h.com/', 'https://h.com/', 'http://a.h.com/'])
            ops.append(e)
        cases.append(norm_cookies({'init': c, 'ops': ops}))
    return cases
