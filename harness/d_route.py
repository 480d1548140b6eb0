"""Driver: replay behaviours of spec/Routing.tla on verktyg.routing."""
import decimal
import uuid as _uuid
from urllib.parse import unquote, urlencode, urlsplit

from core import CaseTimeout, capture, dec_text, enc_text, exc, exc_name, val


def typed(v):
    """spec value -> Python value"""
    t, x = v['t'], dec_text(v['v'])
    if t == 'i':
        return int(x)
    if t == 'f':
        return float(x)
    if t == 'u':
        return _uuid.UUID(x)
    if t == 'n':
        return None
    return x


def untyped(v):
    """Python value -> spec value"""
    if isinstance(v, bool):
        return {'t': 'bool', 'v': str(v)}
    if isinstance(v, int):
        return {'t': 'i', 'v': str(v)}
    if isinstance(v, float):
        t = '{:f}'.format(decimal.Decimal(repr(v)))
        return {'t': 'f', 'v': t if '.' in t else t + '.0'}
    if isinstance(v, _uuid.UUID):
        return {'t': 'u', 'v': str(v)}
    if isinstance(v, str):
        return {'t': 's', 'v': enc_text(v)}
    return {'t': type(v).__name__, 'v': repr(v)}


def vals_out(d):
    return {k: untyped(v) for k, v in d.items()} or []


def target_fn(path):
    def target(adapter, **values):
        assert adapter.router is not None
        q = sorted((k, dec_text(untyped(v)['v'])) for k, v in values.items())
        return path + ('?' + urlencode(q) if q else '')
    return target


def make_route(d):
    from verktyg.routing import (EndpointPrefix, Route, RouteTemplate,
                                 Subdomain, Submount)
    kw = {'endpoint': dec_text(d['ep'])}
    if d['defs']:
        kw['defaults'] = {k: typed(v) for k, v in d['defs']}
    if d['sub'] != '<None>':
        kw['subdomain'] = d['sub']
    if d['host']:
        kw['host'] = d['host']
    if d['strict'] != '-':
        kw['strict_slashes'] = d['strict'] == 'T'
    if d['bo']:
        kw['build_only'] = True
    if d['alias']:
        kw['alias'] = True
    if d['redir'] != '<None>':
        tmpl = dec_text(d['redir'])
        kw['redirect_to'] = target_fn(tmpl) if d.get('fn') else tmpl
    def build():
        r = base = Route(dec_text(d['r']), **kw)
        for w in d['wrap']:
            v = dec_text(w['v'])
            if w['w'] == 'mount':
                r = Submount(v, [r])
            elif w['w'] == 'subdomain':
                r = Subdomain(v, [r])
            elif w['w'] == 'prefix':
                r = EndpointPrefix(v, [r])
            else:
                r = RouteTemplate([r])(name=v)
        return base, r
    if d['wrap'] and len(d['r']) % 3 == 0:
        # a group leaves the route it is made of as it was: both can be used again
        from verktyg.routing import URLMap
        base, r = build()
        try:
            URLMap([r, r])
            URLMap([base])
        except ValueError:       # a malformed route
            base = None
        if base and (base.endpoint, base.subdomain) != (kw['endpoint'], kw.get('subdomain', '')):
            raise AssertionError('a group changed the route it was given')
    return build()[1]


def make_map(c):
    from verktyg.routing import URLMap
    cfg = c['cfg']
    return URLMap([make_route(d) for d in c['routes']],
                  default_subdomain=cfg['dsub'], strict_slashes=cfg['strict'],
                  redirect_defaults=cfg['rdef'], host_matching=cfg['hostm'],
                  charset=cfg['cs'])


def query(q):
    if q['t'] == 'p':
        return {dec_text(k): dec_text(v) for k, v in q['pairs']}
    if q['t'] == 'm':
        from verktyg.datastructures import MultiDict
        return MultiDict([(dec_text(k), dec_text(v)) for k, v in q['pairs']])
    if q['t'] == 'l':
        d = {}
        for k, v in q['pairs']:
            d.setdefault(dec_text(k), []).append(dec_text(v))
        return d
    return q['s'] or None


def bind(m, c, b):
    sub = b['sub'].upper() if b['script'] == '/app/' else b['sub']     # in any case
    return m.bind(b['server'], b['script'], None if c['hostm'] else sub,
                  b['scheme'])


def tidy(url):
    """http://host and http://host/ are the same address."""
    p = urlsplit(url)
    if p.netloc and not p.path:
        return url.replace('//' + p.netloc, '//' + p.netloc + '/', 1)
    return url


def do_match(ad, *a, **kw):
    from verktyg.routing import RequestRedirect
    try:
        ep, vals = ad.match(*a, **kw)
    except CaseTimeout:
        raise
    except RequestRedirect as e:
        if e.code not in (301, 302, 303, 307, 308):
            return exc('redirect with status %s' % e.code)
        return {'k': 'redirect', 'v': enc_text(tidy(str(e.new_url)))}
    except Exception as e:
        from verktyg.exceptions import NotFound
        return exc('NotFound' if isinstance(e, NotFound) else exc_name(e))
    route = '?'
    try:
        r2, vals2 = ad.match(*a, return_route=True, **kw)
        route = r2.route if vals2 == vals else 'values differ'
    except Exception as e:
        route = exc_name(e)
    return {'k': 'match', 'v': {'ep': enc_text(ep), 'vals': vals_out(vals),
                                'route': enc_text(route)}}


def script(b):
    return b['script'] if b['script'].endswith('/') else b['script'] + '/'


def on_site(cfg, b, url):
    p = urlsplit(url)
    host = p.netloc
    return (p.scheme == b['scheme'] and
            (cfg['hostm'] or host == b['server'] or host.endswith('.' + b['server'])) and
            p.path.startswith(script(b)))


def arrive(cfg, b, url):
    b = dict(b)
    host = urlsplit(url).netloc
    if cfg['hostm']:
        b['server'] = host
    else:
        b['sub'] = '' if host == b['server'] else host[:-len(b['server']) - 1]
    return b


def path_in(cfg, b, url):
    return unquote(urlsplit(url).path[len(script(b)) - 1:], encoding=cfg['cs'])


def norm(b):
    return dict(b, server=b['server'].lower(), sub=b['sub'].lower())


def follow(m, cfg, b, path, q):
    hops = []
    while True:
        r = do_match(bind(m, cfg, b), path, query_args=q)
        if r['k'] != 'redirect':
            return {'hops': hops, 'end': r}
        url = dec_text(r['v'])
        if not on_site(cfg, b, url):
            return {'hops': hops + [r['v']], 'end': exc('left the site')}
        if len(hops) == 6:
            return {'hops': hops, 'end': exc('too many redirects')}
        hops = hops + [r['v']]
        path = path_in(cfg, b, url)
        q = url.split('?', 1)[1] if '?' in url else None
        b = arrive(cfg, b, url)


def wsgi(s, cs):
    return s.encode(cs).decode('latin-1')


def values_in(e):
    from verktyg.datastructures import MultiDict
    d = {dec_text(k): typed(v) for k, v in e['vals']}
    for k, vs in e.get('extra', ()):
        d[dec_text(k)] = [dec_text(x) for x in vs] if len(vs) != 1 else dec_text(vs[0])
    if e.get('multi'):
        return MultiDict(d)
    return d


def apply(m, c, b, e):
    op = e['op']
    cfg = c['cfg']
    ad = bind(m, cfg, b)
    if op == 'match':
        path = dec_text(e['path'])
        if e.get('pre'):     # path and query given when binding
            ad = m.bind(b['server'], b['script'], None if cfg['hostm'] else b['sub'],
                        b['scheme'], path, query(e['q']))
            return do_match(ad)
        return do_match(ad, path, query_args=query(e['q']))
    if op == 'test':
        return capture(ad.test, dec_text(e['path']))
    if op == 'follow':
        return val(follow(m, cfg, b, dec_text(e['path']), query(e['q'])))
    if op == 'build':
        keep = values_in(e)
        given = values_in(e)
        def build():
            from verktyg.routing import BuildError
            try:
                if not given and not e['ext'] and e['unknown'] and len(e['ep']) % 2 == 0:
                    return ad.build(e['ep'])
                return ad.build(e['ep'], given or None, force_external=e['ext'], append_unknown=e['unknown'])
            except BuildError as x:
                if x.endpoint != e['ep'] or any(k not in keep for k in x.values):
                    return 'the error is about something else'
                raise
        r = capture(build)
        if given != keep:
            return exc('argument changed')
        return r
    if op == 'roundtrip':
        r = capture(ad.build, e['ep'], values_in(e), force_external=True,
                    append_unknown=False, conv=str)
        if r['k'] == 'exc':
            return r
        url = r['v']
        b2 = arrive(cfg, b, url)
        return val({'url': enc_text(url),
                    'back': do_match(bind(m, cfg, b2), path_in(cfg, b2, url))})
    if op == 'add':
        return capture(lambda: m.add_routes(make_route(e['r'])))
    if op == 'env':
        v = e['env']
        environ = {'SERVER_NAME': v['name'], 'SERVER_PORT': v['port'],
                   'wsgi.url_scheme': v['scheme'], 'REQUEST_METHOD': 'GET',
                   'SCRIPT_NAME': wsgi(dec_text(v['script']), cfg['cs']),
                   'PATH_INFO': wsgi(dec_text(v['path']), cfg['cs']),
                   'QUERY_STRING': v['query']}
        if v['host']:
            environ['HTTP_HOST'] = v['host']
        if len(v['path']) % 3 == 0:      # a request stands for its environment
            from verktyg.requests import Request
            environ = Request(environ)
        try:
            ad = m.bind_to_environ(environ, server_name=v['hint'] or None)
        except Exception as x:
            return exc(exc_name(x))
        return do_match(ad)
    if op == 'expecting':
        return capture(lambda: m.is_endpoint_expecting(e['ep'], *e['args']))
    if op == 'iterep':
        return capture(lambda: [r.route for r in m.iter_routes(e['ep'])])
    if op == 'again':
        return capture(lambda: m.add_routes(*list(m.iter_routes())[:1]))
    if op == 'trybind':
        none = lambda x: None if x == '<None>' else x
        def bind_again():
            ad = m.bind(none(e['server']), none(e['script']), none(e['sub']))
            if ad.script_name != (none(e['script']) or '').rstrip('/') + '/':
                return 'wrong root'
        return capture(bind_again)
    if op == 'iter':
        return capture(lambda: [r.route for r in m.iter_routes()])
    raise AssertionError(op)


def run(case):
    c = case['init']
    m = make_map(c)
    b = norm(c['bind'])
    log = [{'ret': val('<None>'), 'obs': 0}]
    for e in case['ops']:
        if e['op'] == 'bind':
            b = norm(e['bind'])
            ret = val('<None>')
        else:
            ret = apply(m, c, b, e)
        log.append({'ret': ret, 'obs': 0})
    return log


# ---- case generation -------------------------------------------------------
STATIC = ['a', 'b', 'foo', 'ab', 'a b', '\x0e', 'x.y', '1', 'a+b', 'a|b', '(c)', 'fo']
CONVS = ['', '', '', 'int:', 'int:', 'float:', 'path:', 'path:', 'any(a,foo):',
         'any("a b",ab):', 'string(length=2):', 'string(minlength=2, maxlength=3):',
         'string(2,3):', 'int(fixed_digits=2):', 'int(min=1,max=12):',
         'float(min=1,max=2):', 'uuid:', 'string:', "any('b',a):", 'int(2):',
         'int(min=None,max=12):', 'string(maxlength=None):']
UUIDS = ['12345678-1234-5678-1234-567812345678', 'abcdef00-0000-4000-8000-00000000000f']
SVALS = ['a', 'b', 'foo', 'ab', 'a b', '\x0e', 'x', '1', '12', 'a:b', 'a+b', 'a%b', 'c?d',
         'e#f', '\x15\x10', 'abc', 'x.y', '100%25', 'a;b', 'a=b&c', '"q"', "it's", 'A', 'a|b', '~_-']
PVALS = SVALS + ['a/b', 'foo/x', 'a//b', 'a/b/c', 'x/', '1/2', 'http://evil.com', 'a/../b']
IVALS = ['0', '1', '5', '12', '13', '007', '10', '99', '100', '04', '123456789012']
FVALS = ['1.0', '1.5', '0.25', '2.0', '2.5', '10.0', '00.50', '3.1400', '0.00001', '0.5', '123456.25', '10000000000000000000000.0', '123456789012345680000.0']
NAMES = ['x', 'y', 'z']


def gen_conv(r):
    """a converter, often with random (also extreme) arguments"""
    if r.random() < .7:
        return r.choice(CONVS)
    k = r.choice(['int', 'int', 'float', 'string', 'string', 'any'])
    if k == 'any':
        return 'any(%s):' % ','.join(r.sample(['a', 'b', 'foo', '"a b"', 'ab', '"x.y"', "'a+b'", '"1"', 'fo'], r.randint(1, 4)))
    args = []
    small = [0, 0, 1, 2, 5, 12, 13, 99, 100]
    if k == 'string':
        p = r.random()
        if p < .3:
            args = ['length=%d' % r.randint(1, 4)]
        else:
            lo = r.randint(1, 3)
            args = r.choice([['minlength=%d' % lo], ['maxlength=%d' % r.randint(1, 4)],
                             ['minlength=%d' % lo, 'maxlength=%d' % r.randint(lo, 4)],
                             ['maxlength=%d' % r.randint(lo, 4), 'minlength=%d' % lo], ['%d' % lo]])
    else:
        if r.random() < .6:
            args.append('max=%d' % r.choice(small))
        if r.random() < .6:
            args.append('min=%d' % r.choice(small))
        if k == 'int' and r.random() < .3:
            args.append('fixed_digits=%d' % r.randint(1, 3))
    if not args:
        return k + ':'
    return '%s(%s):' % (k, r.choice([',', ', ', ' ,']).join(args))


def conv_kind(cv):
    return cv.split('(')[0].rstrip(':') or 'string'


def conv_text(r, cv):
    """text that often fits the converter"""
    k = conv_kind(cv)
    if k == 'int':
        return r.choice(IVALS + ['\x18', '1\x18'] if r.random() < .1 else IVALS)
    if k == 'float':
        return r.choice(FVALS)
    if k == 'uuid':
        return r.choice(UUIDS + [UUIDS[1].upper()])
    if k == 'path':
        return r.choice(PVALS)
    if k == 'any':
        return r.choice(['a', 'foo', 'a b', 'ab', 'b'])
    return r.choice(SVALS)


def canon_num(t, k):
    if k == 'int':
        return t.lstrip('0') or '0'
    a, b = t.split('.')
    return (a.lstrip('0') or '0') + '.' + (b.rstrip('0') or '0')


def typed_for(r, cv, wild=0.1):
    k = conv_kind(cv)
    if k == 'int':
        if r.random() < wild:
            return {'t': r.choice('sf'), 'v': r.choice(['5', '12']) } if r.random() < .5 else {'t': 'f', 'v': '5.0'}
        return {'t': 'i', 'v': canon_num(r.choice(IVALS), 'int')}
    if k == 'float':
        if r.random() < wild:
            return {'t': 'i', 'v': r.choice(['1', '2', '7'])}
        return {'t': 'f', 'v': canon_num(r.choice(FVALS), 'float')}
    if k == 'uuid':
        return {'t': 'u', 'v': r.choice(UUIDS)}
    if r.random() < wild and k != 'path':
        return {'t': 'i', 'v': '12'}
    t = conv_text(r, cv)
    return {'t': 's', 'v': t}


def fix_f(v):
    if v['t'] == 'f' and '.' not in v['v']:
        v['v'] += '.0'
    return v


def gen_pattern(r, names, base=None):
    """-> (text without trailing slash, [(kind, payload)] tokens)"""
    toks = []
    names = list(names)
    for _ in range(r.choice([0, 1, 1, 2, 2, 2, 3])):
        toks.append(('s', '/'))
        p = r.random()
        if p < .45 or not names:
            toks.append(('s', r.choice(STATIC)))
        elif p < .85:
            toks.append(('v', names.pop(0), gen_conv(r)))
        elif p < .95:
            toks.append(('s', r.choice(['a', 'b.', 'foo-'])))
            toks.append(('v', names.pop(0), gen_conv(r)))
            if r.random() < .5:
                toks.append(('s', r.choice(['b', '.x', '-1'])))
        elif len(names) >= 2:
            toks.append(('v', names.pop(0), gen_conv(r)))
            toks.append(('s', r.choice(['-', '.', ':'])))
            toks.append(('v', names.pop(0), gen_conv(r)))
        else:
            toks.append(('s', 'b'))
    return toks


def text_of(toks):
    return ''.join(t[1] if t[0] == 's' else '<%s%s>' % (t[2], t[1]) for t in toks)


def new_def(r, toks, ep, slash, **kw):
    d = {'r': (text_of(toks) or '') + ('/' if slash or not toks else ''),
         'ep': ep, 'defs': [], 'sub': '<None>', 'host': '', 'strict': '-',
         'bo': False, 'alias': False, 'redir': '<None>', 'wrap': []}
    d.update(kw)
    return d


def kinds(table):
    out = {}
    for _, toks, _ in table:
        for t in toks:
            if t[0] == 'v':
                out.setdefault(t[1], set()).add(conv_kind(t[2]))
    return out.values()


def gen_table(r, cfg, n, p_special, redirs=True, wraps=True):
    """No UUID is built by a number converter (a redirect may build a value
    with another converter than it was matched with)."""
    while True:
        t = table_once(r, cfg, n, p_special, redirs, wraps)
        if not any('uuid' in k and k & {'int', 'float'} for k in kinds(t)):
            return t


def tiny(table, path):
    """A float whose text needs an exponent might be built as text."""
    return ('0.00001' in path or '0000000000' in path or '12345678901234' in path) and any('float' in k and k - {'float'} for k in kinds(table))


def table_once(r, cfg, n, p_special, redirs=True, wraps=True):
    """-> list of (def, toks, slash)"""
    out = []
    while len(out) < n:
        ep = r.choice(['e1', 'e2', 'e3'])
        names = NAMES[:]
        r.shuffle(names)
        toks = gen_pattern(r, names)
        slash = r.random() < .4
        d = new_def(r, toks, ep, slash)
        vs = [t for t in toks if t[0] == 'v']
        free = [x for x in NAMES + ['page'] if x not in [v[1] for v in vs]]
        p = r.random()
        if p < p_special * .4 and vs:
            # the same endpoint reached through a default value
            keep = vs[:-1]
            gone = vs[-1]
            toks2 = [('s', '/'), ('s', r.choice(STATIC))]
            for v in keep:
                toks2 += [('s', '/'), v]
            dv = fix_f(typed_for(r, gone[2], 0))
            if dv['t'] == 's' and conv_kind(gone[2]) == 'path' and '..' in dv['v']:
                dv['v'] = 'a/b'
            sl2 = r.random() < .5
            d2 = new_def(r, toks2, ep, sl2, defs=[[gone[1], dv]])
            pair = [(d, toks, slash), (d2, toks2, sl2)]
            r.shuffle(pair)
            out += pair
            continue
        if p < p_special * .7 and vs:
            toks2 = [('s', '/'), ('s', r.choice(['old', 'b', 'foo']))]
            for v in vs:
                toks2 += [('s', '/'), v]
            sl2 = r.random() < .3
            d2 = new_def(r, toks2, ep, sl2, alias=True)
            pair = [(d, toks, slash), (d2, toks2, sl2)]
            r.shuffle(pair)
            out += pair
            continue
        if p < p_special and redirs:
            if vs and r.random() < .65:
                v = r.choice(vs)[1]
                d['redir'] = r.choice(['foo/<%s>', '/abs/<%s>', '<%s>', 'a/<%s>/', 'b/x<%s>',
                                       'http://other.example/<%s>', '/app/a/<%s>']) % v
            else:
                d['redir'] = r.choice(['foo', '/abs', 'a/', 'http://other.example/x'])
                d['fn'] = r.random() < .4
                if d['fn'] and tiny([(d, toks, slash)], '0.00001'):
                    d['fn'] = False
            out.append((d, toks, slash))
            continue
        if r.random() < .12 and free:
            x = r.choice(free)
            d['defs'] = [[x, fix_f(typed_for(r, r.choice(['', 'int:', 'float:']), 0))]]
        if r.random() < .1:
            d['bo'] = True
        if r.random() < .15:
            d['strict'] = r.choice('TF')
        out.append((d, toks, slash))
    for d, toks, slash in out:
        if cfg['hostm']:
            d['host'] = r.choice(['example.com', 'example.com', 'b.example.com', '<sub>.example.com'])
        elif r.random() < .2:
            d['sub'] = r.choice(['', 'www', 'b', '<sub>', '<any(a,b):sub>', '<sub>.b'])
        if wraps and r.random() < .2:
            w = r.choice(['mount', 'mount', 'subdomain', 'prefix', 'template', 'two'])
            if w == 'mount':
                d['wrap'] = [{'w': 'mount', 'v': r.choice(['/a', '/foo/', '/b', '/<w>'])}]
            elif w == 'subdomain':
                d['wrap'] = [{'w': 'subdomain', 'v': r.choice(['www', 'b', '<sub>'])}]
            elif w == 'prefix':
                d['wrap'] = [{'w': 'prefix', 'v': 'e'}]
                d['ep'] = d['ep'][1:]
            elif w == 'two':
                d['wrap'] = [{'w': 'mount', 'v': '/b'}, {'w': 'mount', 'v': '/a/'},
                             {'w': 'prefix', 'v': 'p.'}]
            else:
                d['wrap'] = [{'w': 'template', 'v': r.choice(['a', 'foo'])}]
                d['r'] = '/{name}' + d['r']
                if r.random() < .5:
                    d['ep'] = 'e{name}'
                if d['defs'] and d['defs'][0][1]['t'] == 's':
                    d['defs'][0][1]['v'] = '{name}'
    return out


def prefix_path(d):
    out = ''
    for w in d['wrap']:
        if w['w'] == 'mount':
            out = w['v'].rstrip('/').replace('<w>', 'foo') + out
        if w['w'] == 'template':
            out = '/' + w['v'] + out
    return out


def gen_path(r, table):
    while True:
        p = path_once(r, table)
        if not tiny(table, p):
            return p


def path_once(r, table):
    if r.random() < .06:
        return r.choice(['/', '', '//', '/nope', '/a//b', '/\n', '/a/b/c/d', '/|', '/..', '/a/'])
    d, toks, slash = r.choice(table)
    t = prefix_path(d)
    for k in toks:
        if k[0] == 's':
            t += k[1]
        else:
            if d['defs'] == [] and r.random() < .35:
                # aim at a default value used elsewhere in the table
                ds = [x[1]['v'] for e in table for x in e[0]['defs'] if x[0] == k[1]]
                if ds:
                    t += r.choice(ds)
                    continue
            t += conv_text(r, k[2])
    if slash != (r.random() < .25):
        t += '/'
    p = r.random()
    if p < .05:
        t += r.choice(['/', '\n', 'x', ' ', '//'])
    elif p < .08:
        t = '/' + t
    elif p < .11:
        t = t.upper()
    elif p < .13 and t:
        i = r.randrange(len(t))
        t = t[:i] + r.choice(['/', 'a', '.', '']) + t[i + 1:]
    return t or '/'


QPIECES = ['a', 'x', '1', '=', '=', '&', '&', '+', '?', '/', ';', ':', '%'] + ['%' + x for x in '2B 26 3D 3F 23 25 20 3B 0A 2f C3%A9 ff'.split()]


def qtext(r):
    return ''.join(r.choice(QPIECES) for _ in range(r.randint(1, 6)))


def gen_query(r):
    p = r.random()
    if p < .5:
        return {'t': 's', 's': '', 'pairs': []}
    if p < .8:
        return {'t': 's', 's': r.choice(['a=1', 'x=%20y&b', 'q=a+b', 'a=1&a=2', qtext(r), qtext(r), qtext(r)]), 'pairs': []}
    t = r.choice('pml')
    return {'t': t, 's': '', 'pairs': [[k, r.choice(['1', 'a b', '\x0e', 'x/y?', '&=', '+', 'a%2Bb', '#', '\n'])]
                                       for k in r.sample(['q', 'p', 'r'], r.randint(1, 2))
                                       for _ in range(1 if t == 'p' else r.choice([1, 1, 2, 3]))]}


def ep_of(d):
    ep = d['ep']
    for w in d['wrap']:
        if w['w'] == 'prefix':
            ep = w['v'] + ep
        if w['w'] == 'template':
            ep = ep.replace('{name}', w['v'])
    return ep


def gen_vals(r, table, ep, wild):
    ds = [x for x in table if ep_of(x[0]) == ep]
    vals = {}
    if ds:
        d, toks, _ = r.choice(ds)
        for k in toks:
            if k[0] == 'v':
                vals[k[1]] = fix_f(typed_for(r, k[2], wild))
        for n, v in d['defs']:
            p = r.random()
            if p < .3:
                vals[n] = dict(v)
            elif p < .35:
                vals[n] = fix_f({'t': 'i', 'v': '7'})
        if 'sub' in d['sub'] or 'sub' in d['host'] or any('sub' in w['v'] for w in d['wrap']):
            vals['sub'] = {'t': 's', 'v': r.choice(['a', 'b', 'www'])}
        if any('<w>' in w['v'] for w in d['wrap']):
            vals['w'] = {'t': 's', 'v': 'foo'}
        if r.random() < .1 and vals:
            vals.pop(r.choice(sorted(vals)))
    return [[k, vals[k]] for k in sorted(vals)]


def ok_vals(table, vals):
    """exponent-form floats only where a float variable renders them"""
    kinds = {}
    for d, toks, _ in table:
        for k in toks:
            if k[0] == 'v':
                kinds.setdefault(k[1], set()).add(conv_kind(k[2]))
    for n, v in vals:
        if v['t'] == 'u' and 'int' in kinds.get(n, ()):
            return False    # a UUID has an integer value in Python
        if v['t'] == 's' and 'uuid' in kinds.get(n, ()) and not v['v'].isalnum():
            return False    # not what a UUID converter is for
        if v['t'] == 'f' and (v['v'] == '0.00001' or len(v['v']) > 9):
            if kinds.get(n, ()) != {'float'} or any(
                    n not in [k[1] for k in toks if k[0] == 'v'] for _, toks, _ in table):
                return False
    return True


def gen_bind(r, cfg):
    return {'server': r.choice(['example.com', 'example.com', 'Example.COM', 'localhost:5000'])
            if not cfg['hostm'] else r.choice(['example.com', 'b.example.com', 'x.example.com']),
            'sub': '' if cfg['hostm'] else r.choice([cfg['dsub'], cfg['dsub'], '', 'b', 'WWW', 'a']),
            'script': r.choice(['/', '/', '/app', '/app/', '/deep/app']),
            'scheme': r.choice(['http', 'http', 'https'])}


def gen_env(r, cfg, path):
    name = r.choice(['example.com', 'b.example.com', 'a.b.example.com', 'other.org'])
    if r.random() < .15:     # a server of its own port, known only by its name
        return {'name': r.choice(['example.com', 'b.example.com']), 'host': '', 'port': '8080',
                'scheme': r.choice(['http', 'https']), 'hint': r.choice(['', 'example.com:8080', 'example.com:8080']),
                'script': '', 'path': path, 'query': ''}
    return {'name': name, 'host': r.choice(['', '', name, 'Example.com', 'www.Example.com', 'evilexample.com',
                                            'b.example.com:8080', '10.0.0.1']),
            'port': r.choice(['80', '443', '8080']), 'scheme': r.choice(['http', 'https']),
            'hint': r.choice(['', 'example.com', 'Example.com', 'b.example.com', 'example.com:8080']),
            'script': r.choice(['', '/app']), 'path': path, 'query': r.choice(['', 'a=1', qtext(r), qtext(r)])}


MIXES = {
    'C01': (['match'] * 10 + ['test', 'env', 'env', 'iter', 'iterep', 'again', 'trybind', 'add', 'bind', 'expecting'], .25),
    'C02': (['build'] * 10 + ['roundtrip'] * 12 + ['add', 'bind'] * 2 + ['iterep'], .3),
    'C03': (['match'] * 5 + ['follow'] * 6 + ['add', 'env'], .75),
}


def gen_cases(r, n, mix, length=12):
    ops, special = MIXES[mix]
    out = []
    while len(out) < n:
        cfg = {'strict': r.random() < .8, 'rdef': r.random() < .85,
               'hostm': r.random() < .12, 'dsub': r.choice(['', '', '', 'www']),
               'cs': r.choice(['utf-8'] * 7 + ['latin-1'])}
        table = gen_table(r, cfg, r.randint(1, 6), special, redirs=mix != 'C02')
        names = [w for d, _, _ in table for w in [ep_of(d)]]
        case = {'init': {'cfg': cfg, 'bind': gen_bind(r, cfg), 'routes': [d for d, _, _ in table]},
                'ops': []}
        table = list(table)
        if r.random() < .05 and not any('\x0e' in x for x in [text_of(t) for _, t, _ in table]):
            pass
        for _ in range(r.randint(4, length)):
            op = r.choice(ops)
            e = {'op': op}
            if op == 'match':
                e.update(path=gen_path(r, table), q=gen_query(r), pre=r.random() < .2)
            elif op == 'follow':
                e.update(path=gen_path(r, table), q=gen_query(r))
            elif op == 'test':
                e.update(path=gen_path(r, table))
            elif op == 'env':
                e.update(env=gen_env(r, cfg, gen_path(r, table)))
            elif op in ('build', 'roundtrip'):
                ep = r.choice(names + ['nope']) if r.random() < .1 else r.choice(names)
                vals = gen_vals(r, table, ep, .1 if op == 'build' else 0)
                if not ok_vals(table, vals):
                    continue
                e.update(ep=ep, vals=vals)
                if op == 'build':
                    e.update(ext=r.random() < .3, unknown=r.random() < .8, multi=r.random() < .3,
                             extra=[[k, r.sample(['1', 'a b', '\x0e', 'x&y', '/', 'z=1', 'a+b', '~'], r.choice([1, 1, 2]))]
                                    for k in r.sample(['q', 'p', 'aa', 'k k'], r.choice([0, 0, 1, 2]))])
            elif op == 'add':
                if r.random() < .2:
                    d = new_def(r, [], 'e1', False)
                    d['r'] = r.choice(['/<x', '/a>', '/<x>/<x>', '/<nope:x>', '/<1x>', 'a', '', '<x>'])
                    e.update(r=d)
                else:
                    more = gen_table(r, cfg, 1, 0, wraps=False)
                    d = more[0][0]
                    e.update(r=d)
                    table.append(more[0])
                    names.append(ep_of(d))
            elif op == 'bind':
                e.update(bind=gen_bind(r, cfg))
            elif op == 'iterep':
                e.update(ep=r.choice(names + ['nope']))
            elif op == 'trybind':
                e.update(server=r.choice(['<None>', 'example.com', '']), script=r.choice(['<None>', '/', '/app']),
                         sub=r.choice(['<None>', '<None>', '', 'b']))
            elif op == 'expecting':
                e.update(ep=r.choice(names + ['nope']), args=r.sample(NAMES + ['page'], r.randint(1, 2)))
            case['ops'].append(e)
        out.append(narrow(case) if cfg['cs'] == 'latin-1' else case)
    return out


def narrow(case):
    """Only text the narrow charset can express."""
    def go(v):
        if isinstance(v, dict):
            return {k: go(x) for k, x in v.items()}
        if isinstance(v, list):
            return [go(x) for x in v]
        if isinstance(v, str):
            return v.replace('\x15', '\x0e').replace('\x10', 'e').replace('\x18', '1')
        return v
    return go(case)


def only_match(op, x):
    """C01 speaks about which route answers, not about redirect targets."""
    if x['ret'].get('k') == 'redirect':
        return {'ret': {'k': 'redirect'}, 'obs': 0}
    return x


def redirects_only(op, x):
    """C03 speaks about redirects: whether there is one and where it leads."""
    r = x['ret']
    if op.get('op') in ('match', 'env') and r.get('k') != 'redirect':
        return {'ret': 'no redirect', 'obs': 0}
    return x
