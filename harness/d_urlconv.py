"""Driver: spec/UrlConv.tla - iri_to_uri, uri_to_iri, url_fix."""
from core import IDNA_LABELS, PUNY_LABELS, capture, dec_text, enc, enc_text, val


def do(e):
    from verktyg.urls import iri_to_uri, uri_to_iri, url_fix
    text = dec_text(e['text'])
    op = e['op']
    if op == 'to_uri':
        return iri_to_uri(text)
    if op == 'to_iri':
        return uri_to_iri(text)
    if op == 'to_iri_as':
        return uri_to_iri(text, errors=e['errors'])
    if op == 'fix':
        return url_fix(text, e['charset'])
    f, g = (uri_to_iri, iri_to_uri) if op == 'uri_iri_uri' else (iri_to_uri, uri_to_iri)
    a = f(text)
    return [a, g(a)]


def run(case):
    return [{'ret': val('<None>'), 'obs': 0}] + [{'ret': capture(do, e, conv=enc), 'obs': 0} for e in case['ops']]


PIECES = (list('ab/;=&+ ?@:,!$*()\'~[]"<>|^`{}\\#') +
          ['%2F', '%2f', '%3B', '%3F', '%23', '%25', '%26', '%3D', '%2B', '%40', '%3A', '%20', '%0A', '%00', '%7F', '%41', '%7e', '%5B', '%5C', '%2E', '%21',
           '%C3%A9', '%c3%89', '%E2%82%AC', '%F0%9F%98%80', '%C3', '%FF', '%E2%82', '%A9', '%', '%4', '%zz', '%%41', '%C2%A0', '%E2%80%A8',
           '\x0e', '\x0f', '\x10', '\x11', '\x12', '\x13', '\x14', '\x15', '\x17', '\x19', '\n', '\t', '\x07', '\x00', '\x7f', '//', '.', '..'])
LABELS = [enc_text(x) for x in IDNA_LABELS] + PUNY_LABELS + ['h', 'H', 'Ex', 'com', 'a-b', '1']


ASCII_LABELS = [x.encode('idna').decode() for x in IDNA_LABELS]


def part(r, n=5):
    return ''.join(r.choice(PIECES) for _ in range(r.randint(0, n)))


def host(r):
    x = r.random()
    if x < .08:
        return r.choice(['[::1]', '[2001:DB8::1]', '127.0.0.1'])
    return '.'.join(r.choice(LABELS) for _ in range(r.randint(1, 3)))


def netloc(r):
    s = ''
    if r.random() < .4:
        pieces = [p for p in PIECES if p not in ('/', '//', '?', '#', '[', ']', '\\', '\x17')]
        s = ''.join(r.choice(pieces) for _ in range(r.randint(0, 4))) + '@'
    s += host(r) if r.random() < .95 else ''
    if r.random() < .3:
        s += r.choice([':80', ':0', ':', ':8080', ':65535', ':65536', ':x', ':007', ':\x18'])
    return s


def url(r):
    s = ''
    if r.random() < .7:
        s += r.choice(['http', 'HTTP', 'https', 'ftp', 'mailto', 'x-y', 'file', 'http', 'http']) + ':'
    if r.random() < .7:
        s += '//' + netloc(r)
        if r.random() < .8:
            s += '/'
    s += part(r)
    if r.random() < .4:
        s += '?' + part(r)
    if r.random() < .3:
        s += '#' + part(r)
    return s


def known(text):
    """The labels of the host are in the specification's table."""
    from urllib.parse import unquote, urlsplit
    if '<U+' in enc_text(unquote(dec_text(text), errors='replace')):
        return False
    for t in (dec_text(text), dec_text(text).replace('\\', '/')):
        try:
            h = urlsplit(t).hostname or ''
        except ValueError:
            continue
        if any(not x.isascii() and x not in IDNA_LABELS or x[:4] == 'xn--' and x not in PUNY_LABELS and x not in ASCII_LABELS for x in h.split('.')):
            return False
    return True


def gen(r):
    while True:
        e = gen1(r)
        if known(e['text']):
            return e


def gen1(r):
    op = r.choice(['to_uri', 'to_iri', 'to_iri_as', 'uri_iri_uri', 'uri_iri_uri', 'iri_uri_iri', 'iri_uri_iri', 'fix'])
    e = {'op': op, 'text': url(r)}
    if r.random() < .03:
        e['text'] = r.choice(['', '/', '//', '///x', '////x', 'http:////x', '?', '#', ' http://h/', '\x00/x', 'a:b', '1:b', ':b', '%3A', 'http:', 'http:x', 'file:///C|/x'])
    if op == 'to_iri_as':
        e['errors'] = r.choice(['strict', 'ignore', 'replace'])
    if op == 'fix':
        e['charset'] = 'utf-8'
        if r.random() < .3:
            e['text'] = r.choice(['file://C:\\', 'file://c|/', 'file:///C:/', 'file:/C:/', 'file://\x0e:/', 'file://h/', 'file://CC:/']) + part(r)
        if r.random() < .2:
            bad = {'\x10', '\x11', '\x13', '\x15', '\x17', '\x18', '\x19', '\x1a'}
            if not bad & set(e['text']):
                e['charset'] = 'latin-1'
    return e


def gen_cases(r, n):
    return [{'init': 0, 'ops': [gen(r) for _ in range(4)]} for _ in range(n)]
