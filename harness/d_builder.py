"""Driver: spec/Builder.tla on verktyg.test.EnvironBuilder."""
import re
from io import BytesIO

import d_client
from core import CaseTimeout, dec, enc, exc, exc_name, val


def storage(f):
    from verktyg.http import FileStorage
    how = f.get('how', 'tuple')
    data = BytesIO(f['v'].encode('utf-8'))
    ct = f['ct']
    if how == 'storage' or (f['fn'] is None and ct is not None and how == 'tuple'):
        if ct is None:
            ct = d_client.field_value(f, 'storage').content_type
        return FileStorage(data, f['fn'], f['n'], ct)
    if how == 'dict':
        out = {'file': data}
        if f['fn'] is not None:
            out['filename'] = f['fn']
        if ct is not None:
            out['content_type'] = ct
        return out
    if f['fn'] is None:
        return data
    return (data, f['fn']) if ct is None else (data, f['fn'], ct)


def add(files, f):
    v = storage(f)
    if isinstance(v, tuple):
        files.add_file(f['n'], *v)
    elif isinstance(v, dict):
        files.add_file(f['n'], **v)
    else:
        files.add_file(f['n'], v)


def new(c, make=None):
    from verktyg.datastructures import MultiDict
    from verktyg.http import Headers
    from verktyg.test import EnvironBuilder
    how = c.get('how', '')
    kw = {'path': c['path'], 'method': c['method'], 'charset': c['cs']}
    if c['base'] is not None:
        kw['base_url'] = c['base']
    q = c['query']
    if q['t'] == 'text':
        kw['query_string'] = q['s']
    elif q['t'] == 'pairs':
        pairs = [tuple(p) for p in q['pairs']]
        if how == 'dict':
            kw['query_string'] = {}
            for k, v in pairs:
                kw['query_string'].setdefault(k, []).append(v)
        else:
            kw['query_string'] = MultiDict(pairs)
    if c['hdrs']:
        kw['headers'] = [tuple(h) for h in c['hdrs']]
        if how == 'dict':
            kw['headers'] = Headers(kw['headers'])
    if c['ctype'] is not None:
        kw['content_type'] = c['ctype']
    if c['clen'] is not None:
        kw['content_length'] = int(c['clen'])
    if c['body'] is not None:
        kw['input_stream'] = BytesIO(c['body'].encode('utf-8'))
    d = c['data']
    if d['t'] == 'text':
        kw['data'] = d['s']
    elif d['t'] == 'bytes':
        kw['data'] = d['s'].encode('utf-8')
    elif d['t'] == 'form':
        kw['data'] = d_client.container(d['fields'], how, lambda f: storage(f) if f['k'] == 'file' else f['v'])
    return (make or EnvironBuilder)(**kw)


def number(n):
    return None if n is None else str(n)


def views(b):
    return {'base': b.base_url, 'scheme': b.url_scheme, 'host': b.host, 'root': b.script_root, 'name': b.server_name,
            'port': str(b.server_port), 'query': b.query_string, 'ctype': b.content_type, 'clen': number(b.content_length),
            'path': b.path, 'method': b.method, 'closed': bool(b.closed)}


def built(b, read):
    env = b.get_environ()
    stream = env['wsgi.input']
    if (env['SERVER_PROTOCOL'], env['wsgi.version']) != ('HTTP/1.1', (1, 0)) or env['wsgi.errors'].write('') is NotImplemented \
            or env['wsgi.multithread'] or env['wsgi.multiprocess'] or env['wsgi.run_once']:
        raise AssertionError('not a WSGI environment')
    at = stream.tell()
    body = stream.read()
    if not read:
        stream.seek(at)
    ct = env['CONTENT_TYPE']
    m = re.search(r'-+WerkzeugFormPart_[0-9.e_-]+', ct)
    length = env['CONTENT_LENGTH']
    if m:
        own = m.group(0)
        if length == str(len(body)):
            length = str(len(body) - body.count(own.encode()) * (len(own) - 1))
        ct = ct.replace(own, 'B')
        body = body.replace(own.encode(), b'B')
    skip = {'HTTP_CONTENT_TYPE', 'HTTP_CONTENT_LENGTH', 'HTTP_HOST'}
    return {'method': env['REQUEST_METHOD'], 'scheme': env['wsgi.url_scheme'], 'host': env['HTTP_HOST'],
            'name': env['SERVER_NAME'], 'port': env['SERVER_PORT'], 'script': env['SCRIPT_NAME'],
            'path': env['PATH_INFO'], 'query': env['QUERY_STRING'], 'ctype': ct, 'length': length, 'body': body,
            'hdrs': {'SET': [[k[5:], v] for k, v in env.items() if k.startswith('HTTP_') and k not in skip]}}


def request(b, base, first):
    from verktyg.requests import Request
    if first is not None:
        # the same in one call
        b.get_environ()['wsgi.input'].read()
        q = new(first, Request.from_values)
        if type(q) is not Request:
            raise AssertionError('a request of another class')
    elif base:
        class Own(Request):
            pass
        b.request_class = Own
        q = b.get_request()
        if type(q) is not Own:
            raise AssertionError('a request of another class')
    else:
        q = b.get_request(Request)
    length = q.environ['CONTENT_LENGTH']
    if str(q.content_length) != length:
        raise AssertionError('length %r of a body of %s' % (q.content_length, length))
    body = q.get_data()
    own = re.search(rb'-+WerkzeugFormPart_[0-9.e_-]+', q.content_type.encode('utf-8', 'replace'))
    if own:
        own = own.group(0)
        length = str(len(body) - body.count(own) * (len(own) - 1))
        body = body.replace(own, b'B')
    args = []
    if b._query_string is None and b.charset == 'utf-8':
        args = [list(p) for p in q.args.items(multi=True)]
    return {'method': q.method, 'length': length, 'body': body, 'mimetype': q.mimetype, 'args': args}


def step(b, e, first=None):
    from verktyg.datastructures import MultiDict
    from verktyg.test import FileMultiDict
    op = e['op']
    if op == 'query':
        b.query_string = e['v']
    elif op == 'args':
        b.args = MultiDict([tuple(p) for p in e['pairs']])
    elif op == 'arg':
        b.args.add(e['n'], e['v'])
    elif op == 'getargs':
        return [list(p) for p in b.args.items(multi=True)]
    elif op == 'form':
        b.form = MultiDict([(f['n'], f['v']) for f in e['fields']])
    elif op == 'field':
        b.form.add(e['f']['n'], e['f']['v'])
    elif op == 'getform':
        return [list(p) for p in b.form.items(multi=True)]
    elif op == 'files':
        d = FileMultiDict()
        for f in e['fields']:
            add(d, f)
        b.files = d
    elif op == 'file':
        add(b.files, e['f'])
    elif op == 'getfiles':
        return [[k, f.filename, f.content_type] for k, f in b.files.items(multi=True)]
    elif op == 'stream':
        s = None
        if e['v'] is not None:
            s = BytesIO(e['v'].encode('utf-8'))
            s.seek(e['pos'])
        b.input_stream = s
    elif op == 'ctype':
        b.content_type = e['v']
    elif op == 'clen':
        b.content_length = None if e['v'] is None else int(e['v'])
    elif op == 'header':
        b.headers.add(e['n'], e['v'])
    elif op == 'noheader':
        b.headers.pop(e['n'], None)
    elif op == 'base':
        b.base_url = e['v']
    elif op == 'host':
        b.host = e['v']
    elif op == 'root':
        b.script_root = e['v']
    elif op == 'scheme':
        b.url_scheme = e['v']
    elif op == 'path':
        b.path = e['v']
    elif op == 'method':
        b.method = e['v']
    elif op == 'build':
        return built(b, e['read'])
    elif op == 'request':
        return request(b, e['own'], first)
    elif op == 'close':
        b.close()
    return None


def run(case):
    c = dec(case['init'])
    try:
        b = new(c)
    except CaseTimeout:
        raise
    except Exception as x:
        return [{'ret': exc(exc_name(x)), 'obs': {'failed': True}}]
    log = [{'ret': val(enc(None)), 'obs': enc(views(b))}]
    for i, e in enumerate(dec(case['ops'])):
        try:
            r = val(d_client.fit(step(b, e, c if i == 0 else None)))
        except CaseTimeout:
            raise
        except Exception as x:
            r = exc(exc_name(x))
        log.append({'ret': r, 'obs': enc(views(b))})
    return log


# ---- cases -----------------------------------------------------------------
E_ = '\x0e'
SITES = ['<None>', 'http://localhost/', 'http://h.com', 'https://h.com/', 'http://a.h.com:8080/app', 'http://h.com/app/x/', 'http://[::1]/', 'https://[::1]:8443/r',
         'http://h.com/' + E_, 'http://h.com/a%20b/', 'http://h.com/?q=1', 'http://h.com/#f', 'https://h.com:80', 'http://h.com:443/app//']
HOSTS = ['localhost', 'h.com', 'h.com:8080', 'h.com:443', '[::1]', '[::1]:81', 'a.h.com:0']
ROOTS = ['', '/app', '/app/x', '/a%20b', '/' + E_, '/app/']
PATHS = ['/', '/a', '/a/b/', '/a%20b', '/' + E_, '/%C3%A9', '', '/a b', '/a;b', '/%']
TYPES = ['<None>', '<None>', 'text/plain', 'application/x-www-form-urlencoded', 'multipart/form-data', 'multipart/form-data; boundary=xyz', 'Multipart/Form-Data; charset=utf-8',
         'Application/X-WWW-Form-Urlencoded; a=b', 'multipart/form-data; boundary="x y"', 'application/json; charset=utf-8']
NAMES = ['Host', 'Content-Type', 'content-length', 'Content-Length', 'X-One', 'x-one', 'Accept', 'Cookie', 'X_One']


def header(r):
    n = r.choice(NAMES)
    if n.lower() == 'content-type':
        return [n, r.choice(TYPES[2:])]
    if n.lower() == 'content-length':
        return [n, r.choice(['0', '5', 'x', '', '12 '])]
    return [n, r.choice(['a', 'b.org', 'c=d', 'h.com:9', 'text/html, */*'])]


def text(r, latin):
    return {'n': r.choice(d_client.KEYS), 'k': 'text', 'v': r.choice(d_client.LVALS if latin else d_client.VALS), 'fn': '<None>', 'ct': '<None>', 'how': ''}


def file(r):
    return {'n': r.choice(d_client.KEYS), 'k': 'file', 'v': r.choice(d_client.VALS), 'fn': r.choice(['<None>', 'a.txt', 'b.png', 'noext', 'x.txt']),
            'ct': r.choice(['<None>', '<None>', 'text/x', 'a/b; c=d']), 'how': r.choice(['tuple', 'tuple', 'storage', 'dict'])}


def pairs(r, latin):
    return [[r.choice(d_client.KEYS), r.choice(d_client.LVALS if latin else d_client.VALS)] for _ in range(r.randint(0, 3))]


def gen_init(r):
    latin = r.random() < .15
    c = {'path': r.choice(PATHS[:7]), 'base': r.choice(SITES), 'query': {'t': 'none', 's': '', 'pairs': []}, 'method': r.choice(['GET', 'POST']), 'hdrs': [],
         'ctype': '<None>', 'clen': '<None>', 'body': '<None>', 'data': {'t': 'none', 's': '', 'fields': []}, 'cs': 'latin-1' if latin else 'utf-8', 'how': r.choice(['', 'dict'])}
    x = r.random()
    if x < .2:
        c['query'] = {'t': 'text', 's': r.choice(d_client.QUERIES), 'pairs': []}
    elif x < .45:
        c['query'] = {'t': 'pairs', 's': '', 'pairs': pairs(r, latin)}
    elif x < .6:
        c['path'] += '?' + r.choice(d_client.QUERIES)
    if r.random() < .5:
        c['hdrs'] = [header(r) for _ in range(r.randint(1, 3))]
    if r.random() < .3:
        c['ctype'] = r.choice(TYPES)
    if r.random() < .15:
        c['clen'] = r.choice(['0', '4', '99'])
    x = r.random()
    if x < .15:
        c['body'] = r.choice(['', 'abc', E_ + 'x', 'a=1'])
    if x < .03 or x > .85:
        c['data'] = {'t': r.choice(['text', 'bytes']), 's': r.choice(d_client.LVALS if latin else d_client.VALS), 'fields': []}
    elif .15 < x < .6:
        c['data'] = {'t': 'form', 's': '', 'fields': [file(r) if r.random() < .45 else text(r, latin) for _ in range(r.randint(0, 3))]}
        if c['how'] == 'dict':
            c['data']['fields'] = [f for f in c['data']['fields']]
    return c


def gen_op(r, latin, closed):
    op = r.choice(['query', 'args', 'arg', 'arg', 'getargs', 'form', 'field', 'field', 'getform', 'files', 'file', 'file', 'getfiles', 'stream', 'stream', 'ctype', 'clen',
                   'header', 'header', 'noheader', 'base', 'host', 'root', 'scheme', 'path', 'method', 'build', 'build', 'build', 'build', 'request', 'request', 'close'])
    if closed and op in ('files', 'file'):
        op = 'build'
    e = {'op': op}
    if op == 'query':
        e['v'] = r.choice(['<None>'] + d_client.QUERIES)
    elif op == 'args':
        e['pairs'] = pairs(r, latin)
    elif op == 'arg':
        e['n'], e['v'] = r.choice(d_client.KEYS), r.choice(d_client.LVALS if latin else d_client.VALS)
    elif op == 'form':
        e['fields'] = [text(r, latin) for _ in range(r.randint(0, 3))]
    elif op == 'field':
        e['f'] = text(r, latin)
    elif op == 'files':
        e['fields'] = [file(r) for _ in range(r.randint(0, 2))]
    elif op == 'file':
        e['f'] = file(r)
    elif op == 'stream':
        e['v'] = r.choice(['<None>', '', 'abc', E_ + 'x', 'a=1&b=2'])
        e['pos'] = 0 if e['v'] in ('<None>', '') else r.choice([0, 0, 1, 3])
    elif op == 'ctype':
        e['v'] = r.choice(TYPES)
    elif op == 'clen':
        e['v'] = r.choice(['<None>', '0', '3', '77'])
    elif op == 'header':
        e['n'], e['v'] = header(r)
    elif op == 'noheader':
        e['n'] = r.choice(NAMES[:-1])
    elif op == 'base':
        e['v'] = r.choice(SITES)
    elif op in ('host', 'root', 'scheme', 'path', 'method'):
        e['v'] = r.choice({'host': HOSTS, 'root': ROOTS, 'scheme': ['http', 'https'], 'path': PATHS, 'method': ['GET', 'PUT', 'POST', 'x']}[op])
    elif op == 'build':
        e['read'] = r.random() < .7
    elif op == 'request':
        e['own'] = r.random() < .5
    return e


def gen_cases(r, n):
    out = []
    for _ in range(n):
        c = gen_init(r)
        latin = c['cs'] == 'latin-1'
        ops = []
        bad = c['base'].endswith(('?q=1', '#f')) or (c['body'] != '<None>' and (c['data']['s'] or c['data']['fields']))
        for _ in range(0 if bad else r.randint(1, 10)):
            ops.append(gen_op(r, latin, any(o['op'] == 'close' for o in ops)))
        out.append({'init': c, 'ops': ops})
    return out
