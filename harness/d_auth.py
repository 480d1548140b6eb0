"""Driver: spec/Auth.tla - Authorization and WWW-Authenticate headers."""
import base64

from core import capture, dec, dec_text, enc, val


def pairs(d, skip=()):
    return {'SET': [[enc(k), enc(v)] for k, v in dict(d).items() if k not in skip]}


def header(e):
    """The header a client sends, written independently of the code."""
    op = e['op']
    if op == 'raw':
        return dec_text(e['text'])
    if op == 'basic':
        cs = 'utf-8' if e['cs'] == 'utf-8' else 'latin-1'
        raw = (dec_text(e['user']) + ':' + dec_text(e['pass'])).encode(cs, 'replace')
        return 'Basic ' + base64.b64encode(raw).decode('ascii')
    out = []
    for k, v, how in e['params']:
        v = dec_text(v)
        if how == 'quoted':
            v = '"%s"' % v.replace('\\', '\\\\').replace('"', '\\"')
        elif how == 'escaped':
            v = '"%s"' % ''.join('\\' + c for c in v)
        out.append('%s=%s' % (k, v))
    return e['scheme'] + ' ' + e['sep'].join(out)


def do(e):
    from verktyg.http import WWWAuthenticate, parse_authorization_header, parse_www_authenticate_header
    from verktyg.requests import Request
    op = e['op']
    if op in ('basic', 'digest', 'raw'):
        text = header(e)
        if e.get('via') == 'bytes':
            a = parse_authorization_header(text.encode('latin-1'))
        elif e.get('via') == 'request':
            a = Request({'HTTP_AUTHORIZATION': text}).authorization
        else:
            a = parse_authorization_header(text)
        if a is None:
            got = {'type': '<None>'}
        else:
            got = {'type': a.type, 'd': pairs(a), 'qop': [enc(x) for x in a.qop]}
            for k in ('username', 'password', 'realm', 'nonce', 'uri', 'nc', 'cnonce', 'response', 'opaque'):
                if getattr(a, k) != a.get(k):
                    got['odd'] = k
        return {'text': enc(text), 'got': got}
    if op == 'challenge':
        w = WWWAuthenticate(e['type'], [(k, dec(v)) for k, v in e['d']])
    else:
        w = WWWAuthenticate()
        if op == 'set_basic':
            w.set_basic(dec_text(e['realm']))
        else:
            w.set_digest(dec_text(e['realm']), dec_text(e['nonce']), [dec_text(x) for x in e['q']], dec(e['opaque']), dec(e['algorithm']), e['stale'])
    text = w.to_header()
    p = parse_www_authenticate_header(text)
    out = {'text': enc(text), 'type': p.type, 'd': pairs(p, ('__auth_type__',))}
    if dict(p) != dict(w) or str(w) != text or p.to_header() != text:
        out['differs'] = True
    return out


def run(case):
    return [{'ret': val('<None>'), 'obs': 0}] + [{'ret': capture(do, e, conv=lambda x: x), 'obs': 0} for e in case['ops']]


WORDS = ['a', 'Aladdin', 'open sesame', 'x y', 'q"t', 'b\\s', 'a,b', 'k=v', ';', '', ' ', '\\', '"', '""', '\\"', 'utf', '~', "'", '\x0e', 'M\x16', '\x0e\x16', 'a:b', ':', '::', '%41', '+', '/']
WIDE = ['\x10', '\x15', '\x11']
KEYS = ['username', 'realm', 'nonce', 'uri', 'response', 'qop', 'nc', 'cnonce', 'opaque', 'algorithm', 'x']
PLAIN = ['a', '00000001', '0f0f', 'auth', '/x?y', 'MD5', 'a"b', 'a=b', 'x y', 'TRUE']


def word(r, wide=False):
    return ''.join(r.choice(WORDS + (WIDE if wide else [])) for _ in range(r.choice([0, 1, 1, 2, 3])))


def gen(r):
    x = r.random()
    via = r.choice(['', '', 'bytes', 'request'])
    if x < .3:
        cs = r.choice(['utf-8', 'latin-1'])
        return {'op': 'basic', 'user': word(r, cs == 'utf-8'), 'pass': word(r, cs == 'utf-8'), 'cs': cs, 'via': via}
    if x < .55:
        ks = KEYS[:5] + r.choice([[], KEYS[5:8], KEYS[5:8], ['qop'], ['qop', 'nc'], ['nc', 'cnonce'], KEYS[5:], ['opaque', 'x']])
        if r.random() < .3:
            ks.remove(r.choice(ks))
        if r.random() < .5:
            r.shuffle(ks)
        ps = []
        for k in ks:
            how = r.choice(['quoted', 'quoted', 'quoted', 'escaped', 'plain'])
            v = r.choice(PLAIN[:6]) if how == 'plain' else r.choice(['auth', 'auth-int', 'auth, auth-int', '']) if k == 'qop' else word(r)
            ps.append([k, v, how])
        return {'op': 'digest', 'params': ps, 'scheme': r.choice(['Digest', 'digest', 'DIGEST']), 'sep': r.choice([', ', ',', ' , ', ',\t']), 'via': via}
    if x < .7:
        y = r.random()
        if y < .45:
            b = base64.b64encode(bytes(r.choice(b'ab:\xc3\xa9\xff\x00:') for _ in range(r.randint(0, 7)))).decode()
            b = r.choice([b, b, b.rstrip('='), b[:-1], b + 'A', 'A' + b if '=' not in b else b])
            if b.rstrip('=') != b and (len(b) % 4 == 0) is False and not b.endswith('='):
                b = b.replace('=', '')
            if '=' in b and len(b) % 4 and not malformed(b):
                b = 'QTpi'
            t = r.choice(['Basic', 'basic', 'BASIC', 'Basic']) + r.choice([' ', '  ', '\t']) + b + r.choice(['', '', ' '])
        elif y < .8:
            t = r.choice(['Digest ', 'Digest ', 'digest\t']) + ','.join(
                r.choice(KEYS[:8]) + r.choice(['', '=', '="', '=""', '=x', '="x"', '="x', ' = x', '="a\\"b"', '="a"b"']) for _ in range(r.randint(0, 9)))
        else:
            t = r.choice(['', ' ', 'Basic', 'Digest', 'Basic ', 'Digest ', 'Bearer abc', 'Basic\tOg==', ' Basic Og==', 'x', 'Basic,Og==', 'BasicOg==', 'Negotiate YTpi', 'Digest ,', 'Digest =', 'Digest "'])
        return {'op': 'raw', 'text': t, 'via': via}
    if x < .78:
        return {'op': 'set_basic', 'realm': word(r, True)}
    if x < .88:
        return {'op': 'set_digest', 'realm': word(r, True), 'nonce': word(r), 'q': r.choice([['auth'], ['auth', 'auth-int'], [], ['x y'], ['a,b', 'q"']]), 'stale': r.random() < .5,
                'opaque': r.choice(['<None>', word(r)]), 'algorithm': r.choice(['<None>', 'MD5', 'MD5-sess', 'SHA-256', word(r)])}
    ks = r.sample(['realm', 'nonce', 'domain', 'opaque', 'qop', 'stale', 'algorithm', 'charset', 'x', 'error-description', 'Title'], r.randint(0, 6))
    return {'op': 'challenge', 'type': r.choice(['basic', 'digest', 'bearer', 'x-foo', 'negotiate']),
            'd': [[k, '<None>' if r.random() < .08 else word(r, True)] for k in ks]}


def malformed(b):
    try:
        base64.b64decode(b)
    except Exception:
        return True
    return False


def gen_cases(r, n):
    return [{'init': 0, 'ops': [gen(r) for _ in range(6)]} for _ in range(n)]
