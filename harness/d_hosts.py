"""Driver: spec/Hosts.tla - get_host, host_is_trusted, get_current_url and the
URL attributes of requests."""
from core import IDNA_LABELS, capture, dec_text, enc, enc_text, val


def wsgi(text, cs):
    return dec_text(text).encode('utf-8' if cs == 'utf-8' else 'latin-1').decode('latin-1')


def environ(c):
    e = c['env']
    env = {'SERVER_NAME': dec_text(e['name']), 'SERVER_PORT': e['port'], 'wsgi.url_scheme': e['scheme'],
           'SCRIPT_NAME': wsgi(e['script'], e['cs']), 'PATH_INFO': wsgi(e['path'], e['cs']), 'QUERY_STRING': wsgi(e['query'], e['cs']),
           'REQUEST_METHOD': 'GET'}
    if e['xfh']:
        env['HTTP_X_FORWARDED_HOST'] = dec_text(e['xfh'][0])
    if e['host']:
        env['HTTP_HOST'] = dec_text(e['host'][0])
    for k in ('SCRIPT_NAME', 'PATH_INFO', 'QUERY_STRING'):
        if not env[k] and len(e['name']) % 2:
            del env[k]
    return env


def do(c, e):
    from verktyg.requests import Request
    from verktyg.wsgi import get_current_url, get_host, host_is_trusted
    refs = [dec_text(x) for x in c['refs']]
    arg = refs[0] if len(refs) == 1 and e.get('single') else refs
    if e['op'] == 'trusted':
        r = host_is_trusted(dec_text(e['host']) or (None if e.get('single') else ''), arg)
        return r if isinstance(r, bool) else 'odd %r' % (r,)
    if not c['limited']:
        arg = None
    cls = type('Req', (Request,), {'trusted_hosts': arg})
    env = environ(c)
    if e['op'] == 'host':
        return cls(env).host if e.get('single') else get_host(env, arg)
    if e['what'] == 'host':
        a, kw = 'host_url', {'host_only': True}
    elif e['what'] == 'root':
        a, kw = 'url_root', {'root_only': True}
    elif e['what'] == 'base':
        a, kw = 'base_url', {'strip_querystring': True}
    else:
        a, kw = 'url', {}
    return getattr(cls(env), a) if e.get('single') else get_current_url(env, trusted_hosts=arg, **kw)


def run(case):
    c = case['init']
    return [{'ret': val('<None>'), 'obs': 0}] + [{'ret': capture(do, c, e, conv=enc), 'obs': 0} for e in case['ops']]


LABELS = [enc_text(x) for x in IDNA_LABELS]
NAMES = ['good.com', 'a.good.com', 'b.a.good.com', 'evil.com', 'xgood.com', 'com', 'good.com.evil.com', 'localhost', '127.0.0.1', '[::1]', '[::2]', '[fe80::1]',
         'xn--9ca.com', LABELS[0] + '.com', 'a.' + LABELS[0] + '.com', LABELS[2], 'xn--fiq', 'good.com.', '.good.com', 'a..good.com', 'good', '::1', '[::1', '::1]', '[::1]x',
         'x.[::1]', LABELS[0] * 64 + '.good.com', '[::1].good.com', '']
TAILS = ['', '', '', ':80', ':443', ':8080', ':', ':x', ':80:80', ':80x', ':-1', ':80@evil.com', ':65536', ':\x18']
HEADS = ['', '', '', '', '', '', 'evil.com/', 'evil.com?', 'evil.com#', 'evil.com\\', 'u@', 'u:p@', 'evil.com:80@', ' ', '\t', 'evil.com\x17.', 'evil.com/.', 'evil.com?.',
         'evil.com#.', 'evil.com\\.', 'evil.com@.', 'evil.com:80/.', 'evil.com .']
REFS = ['good.com', '.good.com', 'a.good.com', '.com', 'localhost', '127.0.0.1', '[::1]', '[::1]:80', 'good.com:80', '.good.com:8080', '.' + LABELS[0] + '.com', 'xn--9ca.com',
        LABELS[2], '.a.good.com']


def host(r):
    return r.choice(HEADS) + r.choice(NAMES) + r.choice(TAILS)


TEXT = list('ab/.:?#%&=+ ;@~!$\'"<') + ['//', '%41', '%2F', '%C3%A9', '%FF', '\x0e', '\x16', 'x=1', '&y=2']
TEXT += ['%' + x for x in '2B 26 3D 3F 23 25 20 3B 3A 40 5C 22 0A'.split()]
WIDE = ['\x10', '\x15', '\x11', '\x13']
GOODH = ['good.com', 'a.good.com:8080', 'localhost:80', '127.0.0.1', '[::1]:5000', 'xn--9ca.com', 'xn--fiq:80', 'h', 'good.com:']


def text(r, n, cs):
    return ''.join(r.choice(TEXT + (WIDE if cs == 'utf-8' else [])) for _ in range(r.randint(0, n)))


def gen_cases(r, n):
    out = []
    for _ in range(n):
        refs = [r.choice(REFS) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
        cs = r.choice(['utf-8', 'utf-8', 'latin-1'])
        limited = r.random() < .5
        well = r.random() < .75
        h = (lambda: r.choice(GOODH)) if well else (lambda: host(r))
        env = {'xfh': [r.choice(['', '', ' ']) + h() + r.choice(['', '', ', evil.com', ' ,good.com', ','])] if r.random() < .3 else [],
               'host': [h()] if r.random() < .7 else [],
               'name': r.choice(['good.com', 'n', 'localhost', '127.0.0.1', 'a.good.com']), 'port': r.choice(['80', '443', '8080', '5000']), 'scheme': r.choice(['http', 'https', 'http', 'ws']),
               'script': r.choice(['', '', '/s', '/s/', '/', '/' + text(r, 4, cs)]), 'path': r.choice(['', '/', '//', '/' + text(r, 6, cs), text(r, 5, cs)]), 'query': text(r, 6, cs), 'cs': cs}
        ops = [{'op': 'trusted', 'host': host(r) if r.random() < .95 else '', 'single': r.random() < .3} for _ in range(6)]
        ops.append({'op': 'host', 'single': r.random() < .5})
        if well:
            ops += [{'op': 'part', 'what': w, 'single': r.random() < .5} for w in ('host', 'root', 'base', 'url')]
        r.shuffle(ops)
        out.append({'init': {'env': env, 'limited': limited, 'refs': refs}, 'ops': ops})
    return out
