"""Driver: spec/Cookies.tla - setting, echoing and parsing cookies."""
import datetime as dt
import re
import time

from core import capture, dec_text, enc, val
import d_dates


def t(s):
    return None if s == '<None>' else dec_text(s)


def sync(header, age):
    """Replace an expiry date that many seconds from now."""
    from verktyg.http import parse_date
    m = re.search(r'Expires=([^;]*)', header)
    d = parse_date(m.group(1)) if m else None
    if d is None:
        return header
    off = (d - dt.datetime(1970, 1, 1)).total_seconds() - (time.time() + age)
    return header.replace(m.group(1), 'SYNC', 1) if -60 < off < 5 else header


def items(d):
    return {'SET': [[k, v] for k, v in d.items()]}


class World:
    def __init__(self):
        self.jar = {}

    def store(self, header):
        name, raw = header.split(';')[0].split('=', 1)
        self.jar[name] = raw

    def obs(self):
        from verktyg.requests import Request
        env = {'REQUEST_METHOD': 'GET'}
        if self.jar:
            env['HTTP_COOKIE'] = '; '.join('%s=%s' % p for p in self.jar.items())
        return {'cookies': items(Request(env).cookies)}

    def do(self, e):
        from verktyg.responses import Response
        from verktyg.http import dump_cookie, parse_cookie
        op = e['op']
        if op == 'set':
            a = e['a']
            r = Response('')
            r.headers.add('X', 'y')
            kw = {}
            if a['age'] >= 0:
                kw['max_age'] = dt.timedelta(seconds=a['age']) if e['form'] % 2 else a['age']
            if a['expires']['s'] >= 0:
                if e['form'] == 7:     # written out by the application
                    kw['expires'] = d_dates.form(a['expires'], 'naive', 0).strftime('%a, %d-%b-%Y %H:%M:%S GMT')
                else:
                    kw['expires'] = d_dates.form(a['expires'], ['naive', 'aware', 'int', 'tuple'][e['form'] % 4], 60)
            r.set_cookie(e['k'], t(e['v']), path=t(a['path']), domain=t(a['domain']), secure=a['secure'], httponly=a['httponly'], **kw)
            env = {'REQUEST_METHOD': 'GET', 'wsgi.url_scheme': 'http', 'SERVER_NAME': 'x', 'SERVER_PORT': '80'}
            h = [v for k, v in r.get_wsgi_response(env)[2] if k.lower() == 'set-cookie']
            if len(h) != 1:
                return 'headers: %r' % (h,)
            self.store(h[0])
            return sync(h[0], a['age']) if a['expires']['s'] < 0 and a['age'] >= 0 else h[0]
        if op == 'delete':
            r = Response('')
            r.delete_cookie(e['k'], path=t(e['path']), domain=t(e['domain']))
            self.jar.pop(e['k'], None)
            return r.headers['Set-Cookie']
        if op == 'dump':
            h = dump_cookie(e['k'], t(e['v']), charset=e['charset'])
            return [h, parse_cookie(h.split(';')[0], charset=e['charset']).get(e['k'])]
        if op == 'parse':
            text = dec_text(e['text'])
            if e['wire'] == 'latin-1':
                text = text.encode('latin-1', 'replace').decode('latin-1')
            else:
                text = text.encode('utf-8').decode('latin-1')
            got = items(parse_cookie(text, charset=e['charset']))
            if got != items(parse_cookie({'HTTP_COOKIE': text}, charset=e['charset'])) or got != items(parse_cookie(text.encode('latin-1'), charset=e['charset'])):
                return 'forms differ'
            return got
        raise AssertionError(op)


def conv(v):
    if isinstance(v, dict):
        return {k: conv(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [conv(x) for x in v]
    return enc(v)


def run(case):
    w = World()
    log = [{'ret': val('<None>'), 'obs': conv(w.obs())}]
    for e in case['ops']:
        ret = capture(w.do, e, conv=conv)
        log.append({'ret': ret, 'obs': capture(w.obs, conv=conv)['v']})
    return log


CH = list('ab01;,="\\ \t/%+&@(){}[]<>?:~') + ['\x00', '\x07', '\x1b', '\x7f', '\r', '\n', '\x0e', '\x10', '\x11', '\x16', '\x14', '\x12', '\x13']


def text(r, n=8, ch=CH):
    return ''.join(r.choice(ch) for _ in range(r.randint(0, n)))


def value(r):
    if r.random() < .2:
        return r.choice(['', 'plain', '"', '\\', '""', '"a"', '\\073', '; Path=/', 'a;b=c', ' a ', '\\', '\\\\', 'x\\"', '\x0e', ',', 'a=b', '\\101', 'a b; HttpOnly'])
    return text(r)


KEYS = ['a', 'b', 'sid', 'A', 'domain', 'x-y', '__k', 'n.1']


def attrs(r):
    return {'domain': r.choice(['<None>'] * 3 + ['example.com', '.example.com', 'a.b:80', 'localhost', 'ex,ample.com', 'a.b;c']),
            'expires': r.choice([{'d': 0, 's': -1}] * 2 + [{'d': 0, 's': 0}, {'d': r.randint(0, 24000), 's': r.randint(0, 86399)}]),
            'age': r.choice([-1, -1, 0, 1, 3600, 86400 * 40 + 5]),
            'secure': r.random() < .3, 'httponly': r.random() < .3,
            'path': r.choice(['/', '/', '<None>', '/a b', '/\x0e', '/a;Secure', '/a?b;Secure', '/a?x=1&y', '/a,b', '/x%20y', '/a=b"c\\'])}


ENDS = [';', '; ', ' ; ', ';;', ' ']
PIECES = ['a', 'b=1', 'a="x y"', 'b = 2', 'c="d;e"', 'd="f\\"g"', 'e="\\303\\251"', 'f="\\303"', 'g="open', '=x', 'path=/z', 'h="a"b', 'i=', ' =x', 'k="\\377\\376z"',
          '"q"=1', 'Expires=1', 'l=\x0e', 'm="\x10\\073"', 'n=a=b', 'o="\\9\\x"', 'p=\\101', 'q="\\1012"', 'a=2', 'r="', 's="\\"', 'u=\x16', 'w="\\400"']


def gen(r):
    x = r.random()
    if x < .4:
        return {'op': 'set', 'k': r.choice(KEYS), 'v': value(r), 'a': attrs(r), 'form': r.randint(0, 7)}
    if x < .5:
        return {'op': 'delete', 'k': r.choice(KEYS), 'path': r.choice(['/', '<None>', '/x']), 'domain': r.choice(['<None>', 'example.com'])}
    if x < .65:
        cs = r.choice(['utf-8', 'latin-1'])
        v = value(r)
        if cs == 'latin-1':
            v = ''.join(c for c in v if ord(c) < 128 and c not in '\x10\x11\x13\x15\x17\x18\x19\x1a')
        return {'op': 'dump', 'k': r.choice(KEYS), 'v': v, 'charset': cs}
    if r.random() < .5:
        s = ''.join(r.choice(PIECES) + r.choice(ENDS) for _ in range(r.randint(1, 4)))
    else:
        s = text(r, 14, list('ab1;;=="\\ 034,') + ['\x0e', '\x16'])
    return {'op': 'parse', 'text': s, 'wire': r.choice(['utf-8', 'utf-8', 'latin-1']), 'charset': r.choice(['utf-8', 'utf-8', 'utf-8', 'latin-1'])}


def gen_cases(r, n):
    return [{'init': 0, 'ops': [gen(r) for _ in range(r.randint(3, 9))]} for _ in range(n)]
