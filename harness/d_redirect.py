"""Driver: spec/Redirects.tla - redirect, append_slash_redirect and the
location headers of responses sent to different requests."""
import d_hosts
from core import IDNA_LABELS, capture, dec_text, enc, enc_text, exc, val


class World:
    def __init__(self, c):
        from verktyg.responses import BaseResponse, Response
        self.c = c

        class Full(Response):
            autocorrect_location_header = c['auto']

        class Plain(BaseResponse):
            autocorrect_location_header = c['auto']
        self.full, self.plain, self.default = Full, Plain, Response
        self.r = Full(status=200)

    def env(self, i):
        return d_hosts.environ({'env': self.c['envs'][i - 1]})

    def wire(self, env, via):
        if via == 'headers':
            h = list(self.r.get_wsgi_headers(env))
            status = self.r.status_code
        elif via == 'tuple':
            _, status, h = self.r.get_wsgi_response(env)
        else:
            got = []
            it = self.r(env, lambda s, h, e=None: got.extend([s, h]))
            if hasattr(it, 'close'):
                it.close()
            status, h = got
        out = {'location': [], 'content-location': []}
        for k, v in h:
            if k.lower() in out:
                out[k.lower()].append(v)
        one = [v[0] if len(v) == 1 else None if not v else 'many' for v in out.values()]
        return {'status': int(str(status).split()[0]), 'loc': one[0], 'cloc': one[1]}

    def do(self, e):
        from verktyg.utils import append_slash_redirect, redirect
        op = e['op']
        if op == 'redirect':
            loc = dec_text(e['loc'])
            cls = e.get('cls', 'full')
            if cls == 'default' and self.c['auto']:
                r = redirect(loc, e['code']) if e['code'] != 302 else redirect(loc)
            else:
                r = redirect(loc, e['code'], Response=self.plain if cls == 'plain' else self.full)
            self.r = r
            return {'status': r.status_code, 'loc': r.headers['location'], 'type': r.headers['content-type'], 'body': r.get_data(as_text=True)}
        if op == 'slash':
            env = self.env(e['i'])
            r = append_slash_redirect(env, e['code']) if e['code'] != 301 else append_slash_redirect(env)
            self.r = r
            w = self.wire(env, 'call')
            return {'status': w['status'], 'loc': w['loc']}
        if op in ('set', 'setc'):
            loc = e['loc']
            name, attr = ('Location', 'location') if op == 'set' else ('Content-Location', 'content_location')
            via = e.get('via', 'prop')
            if loc == '<None>':
                if via == 'prop' and hasattr(type(self.r), attr):
                    delattr(self.r, attr)
                else:
                    self.r.headers.pop(name.upper(), None)
            elif via == 'prop' and hasattr(type(self.r), attr):
                setattr(self.r, attr, dec_text(loc))
            else:
                self.r.headers[name.lower()] = dec_text(loc)
            return None
        if op == 'status':
            self.r.status_code = e['code']
            return None
        return self.wire(self.env(e['i']), e.get('via', 'call'))

    def obs(self):
        return enc([self.r.status_code, self.r.headers.get('Location'), self.r.headers.get('Content-Location')])


def run(case):
    w = World(case['init'])
    log = [{'ret': val('<None>'), 'obs': w.obs()}]
    for e in case['ops']:
        r = capture(w.do, e, conv=enc)
        log.append({'ret': r, 'obs': w.obs()})
    return log


LABELS = [enc_text(x) for x in IDNA_LABELS]
CH = list('ab/?#%&=+ <>"\'@~!$.\\(') + ['%41', '%2F', '%C3%A9', '%c3', '\x0e', '\x10', '\x15', '\x11', 'x=1', '&y=2', '\x07']
ESCAPES = ['%' + x for x in '2B 26 3D 3F 23 25 20 3B 3A 40 5C 22 0A 2C 2E 7E 5B 2D 3c 2b'.split()]
CH += ESCAPES
HOSTS = ['h', 'ex.com', 'ex.com:8080', '127.0.0.1', '[::1]:5000', 'xn--9ca.com', LABELS[0] + '.com', 'u@h', 'u:p%40@ex.com', 'a.b.c']


def tail(r, n):
    return ''.join(r.choice(CH) for _ in range(r.randint(0, n)))


def path(r, rel=False):
    segs = []
    for i in range(r.randint(0, 4)):
        segs.append(r.choice(['a', 'b', '.', '..', 'c d', '%2F', '\x0e', '"', "<i>", '\\', '@', 'a:b', '~', '...', '%7E', '&']))
    s = '/'.join(segs)
    if r.random() < .3:
        s += '/'
    return s


def suffix(r):
    s = ''
    if r.random() < .35:
        s += '?' + ''.join(r.choice([c for c in CH if c != '#']) for _ in range(r.randint(0, 4)))
    if r.random() < .25:
        s += '#' + ''.join(r.choice([c for c in CH if c != '#']) for _ in range(r.randint(0, 3)))
    return s


def location(r):
    x = r.random()
    if x < .25:
        return path(r) + suffix(r)
    if x < .5:
        return '/' + path(r) + suffix(r)
    if x < .6:
        return '//' + r.choice(HOSTS) + r.choice(['', '/' + path(r)]) + suffix(r)
    if x < .85:
        return r.choice(['http', 'https', 'HTTP', 'ftp', 'http']) + '://' + r.choice(HOSTS) + r.choice(['', '/' + path(r), '/' + path(r), ':80', ':99999/', ':007/x']) + suffix(r)
    if x < .9:
        return r.choice(['mailto:a@b', 'x-y:z', 'javascript:alert("1")', 'itms-services://?action=\x0e', 'data:text/html,<b>', 'about:blank'])
    if x < .94:
        return r.choice(['http://[::1', '//[x', 'http://h]/', 'http://h:x/'])
    return r.choice([' ', '\t', '']) + '/' + path(r) + r.choice(['', ' ', '\n', '\r\nX: y'])


def bad(l):
    """Locations outside the specification."""
    from urllib.parse import urlsplit
    try:
        u = urlsplit(dec_text(l))
    except ValueError:
        return False
    p = u.path
    if u.scheme in ('http', 'https', 'ftp') and not u.netloc:
        return True
    if ';' in p:
        return True
    return '//' in p and (not p.startswith('/') or '..' in p or '/.' in p)


def good_location(r):
    while True:
        l = location(r)
        if not bad(l):
            return l


def env(r):
    cs = r.choice(['utf-8', 'utf-8', 'utf-8', 'latin-1'])
    wide = ['\x10', '\x15', '\x11'] if cs == 'utf-8' else []
    seg = list('ab.:?#%&=+ ;@~!$"<') + ['//', '%41', 'http:', '//evil.com', '\\', '..a', '%2F', '\x0e', '\x16'] + ESCAPES[:10] + wide
    p = ''.join(r.choice(seg) for _ in range(r.randint(0, 6)))
    if r.random() < .9 or not p:
        p = '/' + p
    if r.random() < .2:
        p = '/' + p
    if any(s in ('.', '..') for s in p.split('/')):
        p = '/a'
    return {'xfh': [r.choice(['h', 'f.com:81'])] if r.random() < .15 else [],
            'host': [r.choice(['h', 'ex.com', 'ex.com:8080', '127.0.0.1', '[::1]:5000', 'xn--9ca.com'])] if r.random() < .8 else [],
            'name': r.choice(['n', 'localhost']), 'port': r.choice(['80', '443', '8080']), 'scheme': r.choice(['http', 'https']),
            'script': r.choice(['', '', '/s', '/s/', '/s t/\x0e', '/a%2Fb', '/x?y#z']) if cs == 'utf-8' else r.choice(['', '/s', '/s/t']),
            'path': p if p.strip('/') == '' or not p.endswith('/') else p.rstrip('/'),
            'query': ''.join(r.choice([x for x in CH if cs == 'utf-8' or x not in ('\x10', '\x15', '\x11')] + [';', ':', ',']) for _ in range(r.randint(0, 5))) if r.random() < .6 else '', 'cs': cs}


def gen_cases(r, n):
    out = []
    for _ in range(n):
        envs = [env(r) for _ in range(r.randint(1, 3))]
        ops = []
        for _ in range(r.randint(3, 9)):
            x = r.random()
            i = r.randint(1, len(envs))
            if x < .2:
                ops.append({'op': 'redirect', 'loc': good_location(r), 'code': r.choice([301, 302, 302, 303, 305, 307, 308]), 'cls': r.choice(['full', 'plain', 'default'])})
            elif x < .35:
                ops.append({'op': 'slash', 'i': i, 'code': r.choice([301, 301, 302, 308])})
            elif x < .5:
                ops.append({'op': 'set', 'loc': good_location(r) if r.random() < .9 else '<None>', 'via': r.choice(['prop', 'raw'])})
            elif x < .6:
                ops.append({'op': 'setc', 'loc': good_location(r) if r.random() < .85 else '<None>', 'via': r.choice(['prop', 'raw'])})
            elif x < .65:
                ops.append({'op': 'status', 'code': r.choice([200, 201, 302, 204, 404, 304])})
            else:
                ops.append({'op': 'send', 'i': i, 'via': r.choice(['call', 'headers', 'tuple'])})
        out.append({'init': {'envs': envs, 'auto': r.random() < .8}, 'ops': ops})
    return out
