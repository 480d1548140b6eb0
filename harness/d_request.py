"""Driver: spec/Request.tla - request objects as views of an environment."""
import datetime as dt
import io

from core import capture, dec_text, enc, val

EPOCH = dt.datetime(1970, 1, 1)


def t(s):
    return None if s == '<None>' else dec_text(s)


def octets(s, cs):
    return dec_text(s).encode('utf-8' if cs == 'utf-8' else 'latin-1', 'replace')


def wsgi(s, cs):
    return octets(s, cs).decode('latin-1')


def environ(c):
    env = {}
    for key, text in (('REQUEST_METHOD', c['method']), ('REMOTE_ADDR', c['remote']), ('REMOTE_USER', c['user']),
                      ('CONTENT_TYPE', c['ctype']), ('CONTENT_LENGTH', c['clen']), ('wsgi.url_scheme', c['scheme'])):
        if text != '<None>':
            env[key] = t(text)
    for key, text in (('PATH_INFO', c['path']), ('SCRIPT_NAME', c['script']), ('QUERY_STRING', c['query'])):
        if text != '<None>':
            env[key] = wsgi(text, c['cs'])
    for key, text in c['hdrs']:
        env['HTTP_' + key] = t(text)
    for key, f in zip(('wsgi.multithread', 'wsgi.multiprocess', 'wsgi.run_once'), c['flags']):
        if f != '<None>':
            env[key] = f == 'true'
    if c['terminated']:
        env['wsgi.input_terminated'] = True
    env['SERVER_PROTOCOL'] = 'HTTP/1.1'
    env['HTTPS'] = 'off'
    env['wsgi.input'] = io.BytesIO(octets(c['body'], c['bcs']))
    return env


def moment(d):
    if d is None:
        return {'d': 0, 's': -1}
    s = (d - EPOCH).total_seconds()
    return {'d': int(s // 86400), 's': int(s % 86400)}


def tags(x):
    strong = x.as_set()
    return {'strong': {'SET': [enc(v) for v in strong]},
            'weak': {'SET': [enc(v) for v in x.as_set(True) - strong] + [enc(v) for v in strong if x.is_weak(v)]},
            'star': bool(x.star_tag)}


def ran(x):
    if x is None:
        return {'k': 'none'}
    return {'k': 'range', 'units': enc(x.units), 'ranges': [[a, -1 if b is None else b] for a, b in x.ranges]}


def pairs(d):
    return {'SET': [[enc(k), enc(v)] for k, v in dict(d).items()]}


def flag(v):
    return v if v is None else 'true' if v is True else 'false' if v is False else repr(v)


def boolean(v):
    return v if isinstance(v, bool) else repr(v)


CONV = {
    'args': lambda d: {'SET': [[enc(k), enc(d.getlist(k))] for k in d]},
    'content_length': lambda n: -1 if n is None else n,
    'max_forwards': lambda n: enc(n if n is None else str(n)),
    'mimetype_params': pairs, 'cache_control': pairs,
    'cookies': pairs,
    'pragma': lambda x: {'SET': [enc(v) for v in x.as_set()]},
    'access_route': lambda x: enc(list(x)),
    'is_multithread': lambda v: enc(flag(v)), 'is_multiprocess': lambda v: enc(flag(v)), 'is_run_once': lambda v: enc(flag(v)),
    'is_xhr': boolean, 'is_secure': boolean,
    'date': moment, 'if_modified_since': moment, 'if_unmodified_since': moment,
    'if_match': tags, 'if_none_match': tags,
    'if_range': lambda x: {'tag': enc(x.etag), 'date': moment(x.date)},
    'range': ran,
    'headers': lambda h: {'SET': [[enc(k), enc(v)] for k, v in h]},
}
PLAIN = ['method', 'path', 'full_path', 'script_root', 'query_string', 'content_type', 'content_encoding', 'content_md5', 'referrer', 'mimetype',
         'remote_addr', 'remote_user', 'scheme']
UNHAPPY = '<failed>'


class World:
    def __init__(self, c):
        from verktyg.requests import PlainRequest, Request
        self.c = c
        self.env = environ(c)
        cls = PlainRequest if len(c['hdrs']) % 2 else Request
        over = {}
        if c['err'] != 'replace':
            over['encoding_errors'] = c['err']
        if c['own'] or c['err'] == 'strict':
            from verktyg.datastructures import MultiDict
            over.update(parameter_storage_class=MultiDict, dict_storage_class=dict, list_storage_class=list)
        if over:
            cls = type('Mine', (cls,), over)
        kw = {}
        if not c['populate']:
            kw['populate_request'] = False
        if c['shallow']:
            kw['shallow'] = True
        self.req = cls(self.env, **kw)
        self.raw = self.env['wsgi.input']
        self.ran = []
        self.files = []

    def kinds(self):
        from verktyg import datastructures as d
        got = (type(self.req.args), type(self.req.cookies), type(self.req.access_route))
        return ('immutable' if got == (d.ImmutableMultiDict, d.ImmutableTypeConversionDict, d.ImmutableList)
                else 'mutable' if got == (d.MultiDict, dict, list) else repr(got))

    def views(self):
        req, out = self.req, {}
        for name in PLAIN + list(CONV):
            r = capture(getattr, req, name, conv=CONV.get(name, enc))
            out[name] = r['v'] if r['k'] == 'val' else UNHAPPY + r['v']
        h = req.headers
        its = list(h)
        same = (list(h.items()) == its and list(h.keys()) == [k for k, v in its] and list(h.values()) == [v for k, v in its]
                and list(h.items(lower=True)) == [(k.lower(), v) for k, v in its] and h.to_wsgi_list() == its
                and str(h) == ''.join('%s: %s\r\n' % p for p in its) + '\r\n')
        out['count'] = len(h) if same else 'headers disagree'
        out['populated'] = self.env.get('verktyg.request') is req
        out['kinds'] = self.kinds()
        out['repr'] = isinstance(repr(req), str) and req.environ is self.env and bool(req.app is self.env.get('verktyg.application')) \
            and req.input_stream is self.raw and req.args is req.args and isinstance(type(req).args, property)
        return out

    def header(self, name):
        h = self.req.headers
        v = h.get(name)
        if h.get(name, 'zz') != (v if v is not None else 'zz'):
            return 'default lost'
        return {'in': name in h, 'get': enc(v), 'list': enc(h.getlist(name)), 'int': enc(None if h.get(name, type=int) is None else str(h.get(name, type=int))),
                'item': capture(lambda: h[name])}

    def change(self, how):
        h = self.req.headers
        before = dict(self.env)
        try:
            if how == 'set':
                h['X-New'] = 'v'
            elif how == 'add':
                h.add('X-New', 'v')
            elif how == 'del':
                del h['X-Foo']
            elif how == 'copy':
                h.copy()
            elif how == 'args':
                self.req.args.add('k', 'v')
            elif how == 'cookies':
                self.req.cookies['k'] = 'v'
            elif how == 'route':
                self.req.access_route.append('x')
            elif how == 'clear':
                h.clear()
        finally:
            if dict(self.env) != before:
                raise KeyError('environment changed')

    def same(self, other):
        from verktyg.requests import Request
        from verktyg.http import Headers
        h = self.req.headers
        o = {'itself': lambda: Request(self.env, populate_request=False).headers, 'copy': lambda: Request(dict(self.env), populate_request=False).headers,
             'text': lambda: 'x', 'none': lambda: None, 'empty': lambda: Headers()}[other]()
        if (h == o) == (h != o):
            return 'eq and ne agree'
        return h == o

    def call(self, tag):
        def f():
            self.ran.append(tag)
        return self.req.call_on_close(f) is f

    def close(self, how):
        self.ran = []
        if how == 'with':
            with self.req as r:
                assert r is self.req
        elif how == 'raise':
            try:
                with self.req:
                    raise LookupError
            except LookupError:
                pass
        else:
            self.req.close()
        ran, self.ran = self.ran, []
        self.req._on_close[:] = []
        return ran

    def attach(self, n):
        from verktyg.datastructures import MultiDict
        from verktyg.http import FileStorage
        self.files = [FileStorage(io.BytesIO(b'x'), 'f') for _ in range(n)]
        # a name may be used by several files
        self.req.files = MultiDict([(str(i // 2), f) for i, f in enumerate(self.files)])
        return self.req.files.getlist('0') == self.files[:2]

    def parse(self):
        s = self.req._get_stream_for_parsing()
        rest = s.read()
        return enc(rest)

    def do(self, e):
        op = e['op']
        if op == 'one':
            return CONV.get(e['name'], enc)(getattr(self.req, e['name']))
        if op == 'data':
            if e['cache'] and not e['text'] and self.c['method'] == 'GET':
                return enc(self.req.get_data())
            return enc(self.req.get_data(cache=e['cache'], as_text=e['text']))
        if op == 'read':
            return enc(self.req.stream.read() if e['n'] < 0 else self.req.stream.read(e['n']))
        return {'views': lambda: self.views(), 'attach': lambda: self.attach(e['n']), 'parse': self.parse, 'header': lambda: self.header(e['name']), 'change': lambda: self.change(e['how']),
                'same': lambda: self.same(e['with']), 'call': lambda: self.call(e['tag']), 'close': lambda: self.close(e['how'])}[op]()

    def obs(self):
        return {'taken': self.raw.tell(), 'open': sum(not f.stream.closed for f in self.files)}


def run(case):
    w = World(case['init'])
    log = [{'ret': val('<None>'), 'obs': w.obs()}]
    for e in case['ops']:
        ret = capture(w.do, e, conv=lambda x: x)
        log.append({'ret': ret, 'obs': w.obs()})
    return log


DATES = ['Sun, 06 Nov 1994 08:49:37 GMT', 'Sunday, 06-Nov-94 08:49:37 GMT', 'Sun Nov  6 08:49:37 1994', '06 Nov 1994 08:49:37 GMT', 'Thu, 01 Jan 1970 00:00:00 GMT',
         'Sat, 29 Feb 2020 23:59:59 GMT', 'Sun, 29 Feb 2021 00:00:00 GMT', '', 'x', 'yesterday', 'Sun, 06 Nov 1994 25:49:37 GMT']
TABLE = {
    'CONTENT_ENCODING': ['gzip', '', 'GZIP, br'], 'CONTENT_MD5': ['Q2hlY2s=', ''], 'REFERER': ['http://x/', '', '/\x0e'],
    'DATE': DATES, 'IF_MODIFIED_SINCE': DATES, 'IF_UNMODIFIED_SINCE': DATES,
    'MAX_FORWARDS': ['0', '10', '-1', ' 7 ', '', 'x', '1.5', '+3', '1 2', '0x1', '--1'],
    'PRAGMA': ['no-cache', 'No-Cache, x', '', '"a b", c', ',', 'a, A'],
    'X_FORWARDED_FOR': ['1.2.3.4', '1.2.3.4, 5.6.7.8', ' 1.2.3.4 ,, x', '', ',', 'a,b,c'],
    'X_REQUESTED_WITH': ['XMLHttpRequest', 'xmlhttprequest', 'XMLHttpRequest ', '', 'x'],
    'CACHE_CONTROL': ['no-cache', 'max-age=0', 'max-age=3, no-store', '', 'x="a, b", y', 'a=1, a=2', '=', 'k=', ','],
    'IF_MATCH': ['"a"', 'W/"a", "b"', '*', '', 'a', '"*"', '"a,b"', '"a" , w/"a"', ',', '""', '"a'],
    'IF_RANGE': ['"a"', 'W/"a"', '', 'Sun, 06 Nov 1994 08:49:37 GMT', 'abc', ' "a" '],
    'RANGE': ['bytes=0-0', 'bytes=0-', 'bytes=-5', 'BYTES=1-2,4-', 'bytes=2-1', 'bytes', '', 'bytes=', 'x=1-2', 'bytes=0-1,1-2', 'bytes = 1-3 , 5-6', 'bytes=a-b', 'bytes=1-2-3', '=1-2'],
    'COOKIE': ['a=b', 'a=b; c=d', 'a=b; a=c', '', ';', 'a', '=b', 'a="x;y"; b=z', 'a="\\303\\251"', 'a=b;c', ' a = b ', 'path=/; x=y', 'a=b=c', 'a="\\"q\\""'],
    'X_FOO': ['', 'bar', '12', '\x0e', ' 3 '], 'X_FOO2BAR': ['x'], 'HOST': ['x:80'], 'ACCEPT': ['*/*'], 'X_A_B': ['1'], 'X': ['']}
TABLE['IF_NONE_MATCH'] = TABLE['IF_MATCH']
CTYPES = ['<None>', '', 'text/html', 'Text/HTML; charset=UTF-8', 'a/b; x="c;d"; y=1', ';', 'text/plain;', 'text/plain; charset', 'x; A=b; a=c', 'm/x; boundary="a\\"b"']
CLENS = ['<None>', '', '0', '3', ' 2 ', '-1', 'x', '1.0', '+2', '3,3']
PATHS = ['<None>', '', '/', '/a', 'a', '//a/b', '/\x0e', '/\x10/x', '/a%20b', '/a?b', '///', '/a/', '/\x16\x0e']
QUERIES = ['<None>', '', 'a=b', 'a=b&a=c&d=e', 'a', 'a=', '=b', '&', 'a=b&', 'a+b=c+d', 'a%20b=%C3%A9', 'a=%E2%82%AC&b=%e2%82', 'a=%', 'a=%4', 'a=%zz', 'a=b=c', 'a=\x0e', '\x10=x', 'a;b=c', 'a=b;c=d',
           '%26=%3D', 'a=%2B', 'x=1&&y=2', 'a&b', 'a=%25', '%C3%A9=1&\x0e=2', '?a=b', 'a=#']
LAT_BAD = set('\x10\x11\x13\x15\x17\x18\x19\x1a')


def opt(r, xs, p=.3):
    return '<None>' if r.random() < p else r.choice(xs)




def gen_env(r):
    cs = r.choice(['utf-8', 'utf-8', 'latin-1'])
    hs = []
    for k in r.sample(sorted(TABLE), r.choice([0, 1, 2, 4, 8])):
        hs.append([k, r.choice(TABLE[k])])
    if r.random() < .15:
        hs.append([r.choice(['CONTENT_TYPE', 'CONTENT_LENGTH']), r.choice(['9', 'x/y'])])

    def word(xs):
        s = r.choice(xs)
        if s != '<None>' and r.random() < .3:
            s += (r.choice(xs).replace('<None>', ''))
        if cs == 'latin-1':
            s = ''.join('?' if c in LAT_BAD else c for c in s)
        return s
    body = r.choice(['', 'abc', 'a\x0eb', '\x10', 'abcdef\x11', 'line\nline'])
    bcs = r.choice(['utf-8', 'latin-1'])
    blen = len(octets(body, bcs))
    cl = r.choice(CLENS + [str(blen)] * 6)
    try:
        if int(cl) > blen:
            cl = str(blen)
    except ValueError:
        pass
    return {'method': opt(r, ['GET', 'get', 'POST', 'Put', '', 'HEAD', 'x-y']), 'path': word(PATHS), 'script': word(['<None>', '', '/', '/s', '/s/', '/s/t//', '/\x0e/', 's', '//']), 'query': word(QUERIES), 'cs': cs, 'hdrs': hs,
            'ctype': r.choice(CTYPES), 'clen': cl, 'remote': opt(r, ['127.0.0.1', '::1', '']), 'user': opt(r, ['bob', '']), 'scheme': opt(r, ['http', 'https', 'https', 'HTTPS', ''], .1),
            'flags': [opt(r, ['true', 'false']) for _ in range(3)], 'body': body, 'bcs': bcs, 'terminated': r.random() < .1, 'shallow': r.random() < .15, 'populate': r.random() < .8,
            'err': r.choice(['replace'] * 4 + ['ignore', 'strict']), 'own': r.random() < .2}


NAMES = ['X-Foo', 'x-foo', 'X-FOO', 'Content-Type', 'content-length', 'CONTENT-TYPE', 'Host', 'x-foo2bar', 'X-A-B', 'Cookie', 'missing', '', 'x', 'http-host', 'Max-Forwards', 'if-match']


def gen_op(r, c):
    x = r.random()
    if r.random() < .1:
        return {'op': 'attach', 'n': r.randint(0, 4)}
    if r.random() < .07:
        return {'op': 'parse'}
    if c['err'] == 'strict' and r.random() < .5:
        return {'op': 'one', 'name': r.choice(['path', 'script_root', 'query_string', 'full_path', 'args'])}
    if x < .25:
        return {'op': 'data', 'cache': r.random() < .6, 'text': r.random() < .4}
    if x < .45:
        return {'op': 'read', 'n': r.choice([-1, 0, 1, 2, 3, 10])}
    if x < .7:
        return {'op': 'header', 'name': r.choice(NAMES)}
    if x < .8:
        return {'op': 'change', 'how': r.choice(['set', 'add', 'del', 'copy', 'args', 'cookies', 'route', 'clear'])}
    if x < .86:
        return {'op': 'same', 'with': r.choice(['itself', 'copy', 'text', 'none', 'empty'])}
    if x < .95:
        return {'op': 'call', 'tag': r.randint(0, 9)}
    return {'op': 'close', 'how': r.choice(['with', 'raise', 'close'])}


def gen_cases(r, n):
    out = []
    for _ in range(n):
        c = gen_env(r)
        ops = [gen_op(r, c) for _ in range(r.randint(2, 7))]
        if c['own'] or c['err'] == 'strict':
            ops = [o for o in ops if o['op'] != 'change' or o['how'] not in ('args', 'cookies', 'route')]
        if c['err'] != 'strict':
            ops = [{'op': 'views'}] + ops + ([{'op': 'views'}] if r.random() < .3 else [])
        out.append({'init': c, 'ops': ops})
    return out
