"""Driver: spec/RespHead.tla - status, headers and typed properties of a
response."""
import datetime as dt
import random
import time

import d_dates
import d_resp
from core import capture, dec_text, enc, val

TEXT = ['location', 'content_type', 'content_location', 'content_encoding', 'content_md5', 'accept_ranges']
DATE = ['age', 'date', 'expires', 'last_modified']


def retry(r):
    """retry_after as seconds from now or as moment."""
    for _ in range(50):
        t0 = dt.datetime.utcnow()
        v = r.retry_after
        t1 = dt.datetime.utcnow()
        if not isinstance(v, dt.datetime):
            return v
        if v.tzinfo is not None:
            v = v.astimezone(dt.timezone.utc).replace(tzinfo=None)
        time.sleep(2e-6)
        w = r.retry_after
        if w.tzinfo is not None:
            w = w.astimezone(dt.timezone.utc).replace(tzinfo=None)
        if v == w:
            d = v - d_dates.EPOCH
            return ['at', d.days, d.seconds] if not d.microseconds else 'odd'
        lo, hi = v - t1, v - t0
        n = round(hi.total_seconds())
        if hi - lo < dt.timedelta(milliseconds=200):
            return ['in', n] if lo <= dt.timedelta(seconds=n) + dt.timedelta(milliseconds=1) and dt.timedelta(seconds=n) <= hi + dt.timedelta(milliseconds=1) else 'odd'
    return 'odd'


def read(f, *a):
    try:
        return f(*a)
    except Exception as e:
        return 'raised ' + type(e).__name__


class World:
    def __init__(self, c):
        from verktyg.responses import BaseResponse, Response

        def status(x):
            return x['n'] if x['s'] == 'int' else dec_text(x['t'])
        cls = dict(charset=c['cs'], default_mimetype=None if c['dm'] == '<None>' else c['dm'],
                   default_status=status(c['ds']), automatically_set_content_length=c['auto'])
        self.base = type('Base', (BaseResponse,), cls)
        self.full = type('Full', (Response,), cls)
        self.status = status
        self.cs = c['cs']
        self.r = self.full()

    def cls(self, e):
        return self.base if e['cls'] == 'Base' else self.full

    def make(self, e):
        from verktyg.http import Headers
        h = [(n, dec_text(v)) for n, v in e['headers']]
        kw = {}
        if e['how'] == 'headers':
            kw['headers'] = Headers(h)
        elif e['how'] == 'dict' and len({n.lower() for n, _ in h}) == len(h):
            kw['headers'] = dict(h)
        elif h or e['how'] == 'list':
            kw['headers'] = h
        if e['status']['s'] != 'none':
            kw['status'] = self.status(e['status'])
        if e['mimetype'] != '<None>':
            kw['mimetype'] = dec_text(e['mimetype'])
        if e['ctype'] != '<None>':
            kw['content_type'] = dec_text(e['ctype'])
        if e['body']:
            b = dec_text(e['body'])
            kw['response'] = b if e['as'] == 'str' else b.encode(self.cs) if e['as'] == 'bytes' else bytearray(b.encode(self.cs))
        self.r = self.cls(e)(**kw)

    def app(self, how):
        r = self.r

        def plain(env, start):
            return r(env, start)

        def writer(env, start):
            it, status, h = r.get_wsgi_response(env)
            w = start(status, h)
            try:
                for x in it:
                    w(x)
            finally:
                it.close()
            return []

        def late(env, start):
            it, status, h = r.get_wsgi_response(env)
            start(status, h)
            try:
                for x in it:
                    yield x
            finally:
                it.close()

        return {'plain': plain, 'writer': writer, 'late': late}[how]

    def do(self, e):
        from verktyg import http
        r, op = self.r, e['op']
        if op == 'make':
            return self.make(e)
        if op == 'code':
            r.status_code = e['n']
        elif op == 'status':
            r.status = dec_text(e['t'])
        elif op == 'mimetype':
            r.mimetype = dec_text(e['v'])
        elif op == 'text':
            setattr(r, e['p'], dec_text(e['v']))
        elif op == 'length':
            r.content_length = e['n']
        elif op == 'date':
            setattr(r, e['p'], d_dates.form(e['x'], e['form'], 90))
        elif op == 'retry_in':
            r.retry_after = e['n']
        elif op == 'retry_at':
            r.retry_after = d_dates.form(e['x'], e['form'], -90)
        elif op == 'retry_text':
            r.retry_after = dec_text(e['v'])
        elif op == 'retry_none':
            r.retry_after = None
        elif op == 'del':
            delattr(r, e['p'])
        elif op == 'raw':
            r.headers[e['name']] = dec_text(e['v'])
        elif op == 'add':
            r.headers.add(e['name'], dec_text(e['v']))
        elif op == 'data':
            v = dec_text(e['v'])
            if e['as'] == 'prop':
                r.set_data(v)
            else:
                r.set_data(v.encode(self.cs))
        elif op == 'write':
            from verktyg.responses import ResponseStream
            v = dec_text(e['v'])
            stream = r.stream if e['via'] == 'prop' and hasattr(r, 'stream') else ResponseStream(r)
            v = v if e['as'] == 'str' else v.encode(self.cs)
            if e['via'] == 'lines':
                stream.writelines([v])
            else:
                stream.write(v)
        elif op in ('entity', 'hops'):
            target = r.headers if e['on'] == 'headers' else list(r.headers)
            if op == 'hops':
                http.remove_hop_by_hop_headers(target)
            elif e['allowed'] == ['expires', 'content-location']:
                http.remove_entity_headers(target)
            else:
                http.remove_entity_headers(target, e['allowed'])
            if target is not r.headers:
                r.headers[:] = target
        elif op == 'kinds':
            return [http.is_entity_header(e['name']), http.is_hop_by_hop_header(e['name'])]
        elif op == 'force':
            self.r = self.cls(e).force_type(r) if not e['env'] else self.cls(e).force_type(r, d_resp.environ('GET'))
            return self.r is r
        elif op == 'anew':
            env = d_resp.environ('GET')
            self.r = self.cls(e).from_app(self.app(e['how']), env, **({'buffered': True} if e['buffered'] else {}))
            self.r.get_data()
        elif op == 'forceapp':
            env = d_resp.environ('GET')
            app = self.app(e['how'])
            new = self.cls(e).force_type(app, env) if e['env'] else self.cls(e).force_type(app)
            new.get_data()
            self.r = new
        elif op == 'repr':
            return repr(r)
        elif op == 'send':
            seen, out, _ = d_resp.serve(r, d_resp.environ(e['method']), -1)
            body = b''.join(out).decode(self.cs)
            return {'status': seen['status'], 'headers': [list(x) for x in seen['headers']], 'body': body}
        else:
            raise AssertionError(op)

    def obs(self):
        r = self.r
        o = {'code': r.status_code, 'status': r.status, 'headers': [list(x) for x in r.headers], 'props': []}
        if type(r) is not self.base:
            o['props'] = [[read(getattr, r, p) for p in TEXT], [read(lambda: d_dates.show(getattr(r, p))) for p in DATE],
                          read(lambda: r.mimetype), read(lambda: r.content_length), read(retry, r)]
        return enc(o)


def run(case):
    w = World(case['init'])
    log = [{'ret': val('<None>'), 'obs': w.obs()}]
    for e in case['ops']:
        ret = capture(w.do, e, conv=enc)
        log.append({'ret': ret, 'obs': w.obs()})
    return log


CODES = [100, 101, 102, 200, 201, 202, 203, 204, 205, 206, 207, 226, 300, 301, 302, 303, 304, 305, 307, 400, 401, 402, 403, 404, 405, 406, 407,
         408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 422, 423, 424, 426, 428, 429, 431, 449, 500, 501, 502, 503, 504, 505, 507, 510]
ODD = [0, 7, 99, 103, 199, 208, 299, 306, 308, 399, 419, 451, 499, 511, 599, 600, 999, 1000, -1]
TYPES = ['text/html', 'text/plain', 'text/', 'text', 'application/xml', 'application/xhtml+xml', 'application/json', 'application/xml-dtd', 'application/x+xmlish',
         'image/svg+xml', 'textual/plain', 'application/rss+xml', 'application/+xml', 'a/b', '', ' text/css', 'TEXT/html', 'Application/XML', 'text/html; level=1', 'text/\x0e']
NAMES = ['Allow', 'Content-Encoding', 'content-language', 'Content-Length', 'content-location', 'Content-MD5', 'CONTENT-RANGE', 'Content-Type', 'content-type',
         'expires', 'Last-Modified', 'Connection', 'Keep-Alive', 'Proxy-Authenticate', 'Proxy-Authorization', 'TE', 'Trailer', 'transfer-encoding',
         'Upgrade', 'ETag', 'Server', 'X-Content-Type', 'Retry-After', 'retry-after', 'Date', 'Age', 'Accept-Ranges', 'Location', 'Trailers', 'Content']
URLS = ['http://h/a', 'http://h/b?q=1', 'http://h/']


def status(r):
    x = r.random()
    if x < .35:
        return {'s': 'int', 'n': r.choice(CODES + CODES + ODD), 't': ''}
    return {'s': 'text', 'n': 0, 't': text(r)}


def text(r):
    return r.choice(['%d' % r.choice(CODES), '%d Fine' % r.choice(CODES + ODD), '%03d  Two' % r.choice([1, 204, 404]), 'not a number', 'OK 200', '200OK', ' 201 Made', '\t404\tX', '+200 x', '-5 x',
                     '20.0', 'x', '200 \x0e', '0x20', '1e3', '204', '304 Not', '0', '00200 z', '200, 201'])


def value(r, name):
    n = name.lower()
    if n in ('location', 'content-location'):
        return r.choice(URLS)
    if n == 'content-length':
        return r.choice(['12', '0', ' 7 ', '+5', '-3', 'x', '', '1.5', '007', '1 2', '999999999'])
    if n == 'retry-after':
        return retry_text(r)
    if n in ('date', 'age', 'expires', 'last-modified'):
        return d_dates.gen_parse(r)['text']
    if n == 'content-type':
        return r.choice(TYPES + ['text/html;charset=x', ' a/b ;c', ';', 'text/html ; a="b;c"'])
    return r.choice(['', 'a', 'b, c', 'gzip', 'bytes', 'none', 'x\x0e', ' y '])


def retry_text(r):
    x = r.random()
    if x < .3:
        return r.choice(['0', '1', '120', '007', '999999999', '3600', '000000000060'])
    if x < .5:
        return r.choice(['400000000000', '99999999999999999999', '1' + '0' * 30, '9' * 400, '\x04', '1\x04', '12\x040'])
    if x < .6:
        return r.choice(['-5', '1.5', '', ' ', 'soon', '1h', '+5', '-', '5 5'])
    return d_dates.gen_parse(r)['text']


def maybe_bad(r, v):
    return v + r.choice(['\n', '\r', '\r\nX: y', '\nx']) if r.random() < .04 else v


def gen_op(r, cls):
    x = r.random()
    full = cls == 'Full'
    if x < .07:
        return make(r)
    if x < .12:
        return {'op': 'code', 'n': r.choice(CODES + CODES + ODD)}
    if x < .17:
        return {'op': 'status', 't': text(r)}
    if x < .26:
        name = r.choice(NAMES)
        return {'op': r.choice(['raw', 'add']), 'name': name, 'v': maybe_bad(r, value(r, name))}
    if x < .31:
        return {'op': 'data', 'v': r.choice(['', 'abc', '\x0e', 'a\x0eb']), 'as': r.choice(['prop', 'bytes'])}
    if x < .35:
        return {'op': 'write', 'v': r.choice(['', 'abc', '\x0e']), 'as': r.choice(['str', 'bytes']), 'via': r.choice(['prop', 'fn', 'lines'])}
    if x < .39:
        return {'op': 'entity', 'allowed': r.choice([['expires', 'content-location'], ['expires', 'content-location'], [], ['Content-Type'], ['ALLOW', 'content-md5'], ['x']]), 'on': r.choice(['headers', 'list'])}
    if x < .42:
        return {'op': 'hops', 'on': r.choice(['headers', 'list'])}
    if x < .44:
        return {'op': 'kinds', 'name': r.choice(NAMES + ['', 'x'])}
    if x < .48:
        return {'op': 'force', 'cls': r.choice(['Full', 'Full', 'Base']), 'env': r.random() < .3}
    if x < .53:
        return {'op': 'anew', 'cls': r.choice(['Full', 'Full', 'Base']), 'how': r.choice(['plain', 'writer', 'late']), 'buffered': r.random() < .4}
    if x < .56:
        return {'op': 'forceapp', 'cls': 'Full', 'how': r.choice(['plain', 'writer', 'late']), 'env': r.random() < .8}
    if x < .6:
        return {'op': 'repr'}
    if x < .68 or not full:
        return {'op': 'send', 'method': r.choice(['GET', 'GET', 'HEAD', 'POST'])}
    if x < .74:
        return {'op': 'mimetype', 'v': maybe_bad(r, r.choice(TYPES))}
    if x < .8:
        p = r.choice(TEXT)
        return {'op': 'text', 'p': p, 'v': maybe_bad(r, value(r, p.replace('_', '-')))}
    if x < .83:
        return {'op': 'length', 'n': r.choice([0, 1, 12, 100, 999999999, -1])}
    if x < .88:
        return {'op': 'date', 'p': r.choice(DATE), 'x': d_dates.gen_moment(r), 'form': r.choice(['naive', 'micro', 'aware', 'int', 'float'])}
    if x < .9:
        return {'op': 'retry_in', 'n': r.choice([0, 1, 60, 86400, 999999999])}
    if x < .92:
        return {'op': 'retry_at', 'x': d_dates.gen_moment(r), 'form': r.choice(['naive', 'micro', 'aware'])}
    if x < .95:
        return {'op': 'retry_text', 'v': maybe_bad(r, retry_text(r))}
    if x < .96:
        return {'op': 'retry_none'}
    return {'op': 'del', 'p': r.choice(TEXT + DATE + ['content_length'])}


def make(r):
    h = []
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        n = r.choice(NAMES)
        h.append([n, value(r, n)])
    return {'op': 'make', 'cls': r.choice(['Full', 'Full', 'Base']), 'status': status(r) if r.random() < .7 else {'s': 'none', 'n': 0, 't': ''},
            'headers': h, 'how': r.choice(['list', 'list', 'headers', 'dict']),
            'mimetype': r.choice(TYPES) if r.random() < .35 else '<None>', 'ctype': r.choice(TYPES) if r.random() < .2 else '<None>',
            'body': r.choice(['', '', 'abc', '\x0e\x0e']), 'as': r.choice(['str', 'bytes', 'bytearray'])}


def gen_cases(r, n):
    out = []
    for _ in range(n):
        ops, cls = [], 'Full'
        for _ in range(r.randint(5, 14)):
            e = gen_op(r, cls)
            if e['op'] in ('make', 'force', 'anew') or (e['op'] == 'forceapp' and e['env']):
                cls = e['cls']
            ops.append(e)
        c = {'cs': r.choice(['utf-8', 'utf-8', 'latin-1']), 'dm': r.choice(['text/plain', 'text/plain', 'application/x-y', 'application/a+xml', '<None>']),
             'ds': r.choice([{'s': 'int', 'n': 200, 't': ''}, {'s': 'int', 'n': 200, 't': ''}, status(r)]), 'auto': r.random() < .8}
        out.append({'init': c, 'ops': ops})
    return out
