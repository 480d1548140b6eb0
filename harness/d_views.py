"""Driver: spec/Views.tla - live views of response headers."""
from core import capture, dec_text, enc, val

HEADER = {'vary': 'Vary', 'allow': 'Allow', 'content_language': 'Content-Language', 'cache_control': 'Cache-Control',
          'mimetype_params': 'Content-Type', 'content_range': 'Content-Range', 'www_authenticate': 'WWW-Authenticate'}
OTHERS = [('X-Other', 'one'), ('Set-Cookie', 'a=b'), ('set-cookie', 'c=d')]
CCPROPS = ('no_cache no_store max_age no_transform public private must_revalidate proxy_revalidate s_maxage').split()


def t(s):
    return None if s == '<None>' else dec_text(s)


def none(n):
    return None if n < 0 else n


def num(n):
    return -1 if n is None else n


def sh(v):
    return v if v is None or isinstance(v, bool) else str(v)


def norange():
    return {'k': 'crange', 'units': None, 'start': -1, 'stop': -1, 'length': -1}


def show(kind, v):
    if kind == 'set':
        return list(v)
    if kind in ('cc', 'params'):
        return [[k, sh(x)] for k, x in v.items()]
    if kind == 'crange':
        if v.units is None:
            return norange()
        return {'k': 'crange', 'units': v.units, 'start': num(v.start), 'stop': num(v.stop), 'length': num(v.length)}
    d = [[k, sh(x)] for k, x in v.items() if k != '__auth_type__']
    typ = v.type.lower() if v.type else ('basic' if d else None)
    return {'type': typ, 'd': d}


class World:
    def __init__(self, c):
        from verktyg.responses import Response
        self.kind, self.name = c['kind'], c['name']
        self.header = HEADER[self.name]
        self.r = Response('body')
        del self.r.headers['content-type']
        for k, v in OTHERS:
            self.r.headers.add(k, v)
        self.fixed = sorted(self.r.headers)
        self.agree = True
        if t(c['text']) is not None:
            self.r.headers[self.header] = t(c['text'])
        self.fetch()

    def fetch(self):
        self.v = getattr(self.r, self.name)

    def texts(self):
        return self.r.headers.getlist(self.header)

    def settled(self):
        from verktyg.http import is_byte_range_valid
        return self.kind != 'crange' or is_byte_range_valid(self.v.start, self.v.stop, self.v.length)

    def viewtext(self):
        if not self.settled():
            return ''
        if self.kind == 'params':
            return ''
        if self.kind == 'auth' and not self.v:
            return ''
        return str(self.v)

    def obs(self):
        h = self.texts()
        fresh = getattr(self.r, self.name)
        others = sorted((k, v) for k, v in self.r.headers if k.lower() != self.header.lower()) == self.fixed and len(h) <= 1
        extra = []
        if self.kind == 'cc':
            extra = [sh(getattr(self.v, p)) for p in CCPROPS]
        elif self.kind == 'params':
            extra = [self.r.mimetype]
        elif self.kind == 'set':
            extra = [len(self.v), {'SET': sorted(enc(x) for x in self.v.as_set())}]
            if self.v.as_set(preserve_casing=True) != set(self.v) or bool(self.v) != (len(self.v) > 0) \
                    or any(x.swapcase() not in self.v or self.v.index(x) != i for i, x in enumerate(self.v)):
                extra.append('sets differ')
        elif self.kind == 'auth':
            extra = [self.v.stale, list(self.v.qop), list(self.v.domain)]
        return conv({'present': bool(h), 'view': show(self.kind, self.v), 'text': self.viewtext(),
                     'parsed': show(self.kind, fresh), 'others': others, 'agree': self.agree, 'extra': extra})

    def alone(self):
        """the same view, made by itself: nobody listens"""
        from verktyg.datastructures import CallbackDict
        v = self.v
        if self.kind == 'set':
            return type(v)(list(v))
        if self.kind == 'params':
            return CallbackDict(dict(v)) if v else CallbackDict()
        if self.kind == 'cc':
            return type(v)(dict(v))
        if self.kind == 'auth':
            d = dict(v)
            typ = d.pop('__auth_type__', None)
            return type(v)(typ, d)
        return type(v)(v.units, v.start, v.stop, v.length) if self.settled() else None

    def do(self, e):
        before = show(self.kind, self.v)
        lone = None
        if e['op'] not in FETCH:
            real, lone = self.v, self.alone()
            if lone is not None:
                self.v = lone
                quiet = capture(self._do, e, conv=lambda x: x)
                # the view may have been replaced (|=)
                lone, self.v = self.v, real
        fine = False
        try:
            ret = self._do(e)
            fine = True
            return ret
        finally:
            if lone is not None and fine != (quiet['k'] == 'val'):
                self.fixed = 'ends differently without a listener'
            if lone is not None and show(self.kind, lone) != show(self.kind, self.v):
                self.fixed = 'differs without a listener'
            # whatever changed the view wrote its text to the header
            self.agree = True
            if show(self.kind, self.v) != before and e['op'] not in FETCH and self.settled():
                h = self.texts()
                self.agree = self.kind == 'params' or (h == [str(self.v)] if h else not self.v)

    def _do(self, e):
        op, v, r = e['op'], self.v, self.r
        x = t(e['v']) if isinstance(e.get('v'), str) else e.get('v')
        if op == 'raw':
            text = t(e['text'])
            if text is None:
                r.headers.pop(self.header, None)
            elif e.get('byprop') and self.kind == 'set' and text:
                setattr(r, self.name, text)
            elif e.get('byprop') and self.kind == 'crange' and text:
                r.content_range = text
            else:
                r.headers[self.header] = text
            return self.fetch()
        if op == 'refetch':
            return self.fetch()
        if op in ('add', 'remove', 'discard', 'find', 'index'):
            return getattr(v, op)(x)
        if op == 'update':
            return v.update([t(y) for y in e['q']])
        if op in ('clear', 'dclear', 'aclear'):
            return v.clear()
        if op == 'has':
            return x in v
        if op == 'getidx':
            return v[e['idx']]
        if op == 'delidx':
            del v[e['idx']]
            return
        if op == 'setidx':
            v[e['idx']] = x
            return
        if op == 'assign':
            from verktyg.http import HeaderSet
            q = [t(y) for y in e['q']]
            setattr(r, self.name, HeaderSet(q) if e.get('hs') else q)
            return self.fetch()
        k = e.get('k')
        if op == 'put':
            v[k] = x
            return
        if op == 'del':
            del v[k]
            return
        if op == 'pop':
            return sh(v.pop(k))
        if op == 'popd':
            return sh(v.pop(k, 'dflt'))
        if op == 'setdefault':
            return sh(v.setdefault(k, x))
        if op == 'popitem':
            k, x = v.popitem()
            return [k, sh(x)]
        if op in ('dupdate', 'ior'):
            d = {a: t(b) for a, b in e['items']}
            if op == 'ior':
                v |= d
            elif e.get('kw') and all(a.isidentifier() for a in d):
                v.update(**d)
            else:
                v.update(list(d.items()) if e.get('kw') else d)
            return
        if op == 'prop':
            if x == 'no' and e.get('del'):
                delattr(v, e['p'])
                return
            if x == 'no':
                val_ = False if e['p'] in FLAGS else None
            elif x == 'yes':
                val_ = True
            else:
                val_ = int(x) if e.get('int') and x.isdigit() else x
            setattr(v, e['p'], val_)
            return
        if op == 'mimetype':
            r.mimetype = x
            return self.fetch()
        if op == 'crset':
            return v.set(none(e['start']), none(e['stop']), none(e['length']), t(e['units']))
        if op == 'unset':
            return v.unset()
        if op == 'crattr':
            setattr(v, e['attr'], none(e['n']))
            return
        if op == 'crunits':
            v.units = t(e['units'])
            return
        if op == 'crassign':
            from verktyg.http import ContentRange
            u = t(e['units'])
            r.content_range = None if u is None and e.get('none') else ContentRange(u, none(e['start']), none(e['stop']), none(e['length']))
            return self.fetch()
        if op == 'type':
            v.type = x
            return
        if op == 'attr':
            setattr(v, k, x)
            return
        if op == 'stale':
            v.stale = None if x is None else x == 'TRUE'
            return
        if op == 'basic':
            return v.set_basic(x)
        if op == 'digest':
            return v.set_digest(x, t(e['nonce']), tuple(t(y) for y in e['q']), t(e['opaque']), t(e['algorithm']), e['stale'])
        if op == 'subadd':
            return getattr(v, k).add(x)
        if op == 'subdiscard':
            return getattr(v, k).discard(x)
        raise AssertionError(op)


FETCH = ('raw', 'refetch', 'assign', 'crassign', 'mimetype')
FLAGS = ('no_store', 'public', 'must_revalidate', 'proxy_revalidate')


def conv(v):
    if isinstance(v, dict):
        return {k: conv(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [conv(x) for x in v]
    return enc(v)


def run(case):
    w = World(case['init'])
    log = [{'ret': val('<None>'), 'obs': w.obs()}]
    for e in case['ops']:
        ret = capture(w.do, e, conv=conv)
        log.append({'ret': ret, 'obs': capture(w.obs, conv=lambda x: x)['v']})
    return log


# ---- generation

ITEMS = ['Accept', 'accept', 'ACCEPT', 'Cookie', 'cookie', 'GET', 'get', 'a b', 'x,y', 'q"t', '', 'b\\s', '*']
KEYS = {'cc': ['no-cache', 'no-store', 'max-age', 'no-transform', 'public', 'private', 'must-revalidate', 's-maxage', 'x-ext'],
        'params': ['charset', 'a', 'b', 'x-y', 'Q'],
        'auth': ['realm', 'nonce', 'opaque', 'algorithm', 'qop', 'domain', 'stale', 'x', 'charset']}
VALUES = ['1', '60', 'a b', 'x', '', 'q"t', 'b\\s', 'utf-8', 'a, b', 'a;b', 'TRUE', 'false', 'auth, auth-int', '0010', '-3', 'c=d']


def gen_value(r, kind):
    return '<None>' if r.random() < .25 else r.choice(VALUES)


def quote(r, v):
    import re
    if re.fullmatch(r"[A-Za-z0-9-]+", v) and r.random() < .7:
        return v
    return '"%s"' % v.replace('\\', '\\\\').replace('"', '\\"')


def gen_text(r, kind):
    if kind == 'set':
        return r.choice([',', ', ', ' , ']).join(quote(r, r.choice(ITEMS)) for _ in range(r.randint(1, 4)))
    if kind == 'crange':
        return r.choice(['bytes 0-4/10', 'bytes */10', 'bytes */*', 'x 3-9/*', 'bytes 5-1/3', 'bytes', 'junk/', 'bytes 0-0/1', ' bytes  1-2/3', 'bytes 1-2/\x18'])
    ks = r.sample(KEYS[kind], r.randint(1 if kind != 'params' else 0, 3))
    parts = []
    for k in ks:
        v = gen_value(r, kind)
        parts.append(k if v == '<None>' else '%s=%s' % (k, quote(r, v)))
    if kind == 'params':
        return r.choice([';', '; ']).join([r.choice(['text/html', 'text/plain', 'a/b', 'Text/X '])] + parts)
    text = r.choice([',', ', ']).join(parts)
    if kind == 'auth':
        text = r.choice(['Basic', 'digest', 'Bearer', 'X-Foo']) + r.choice([' ', ' ', '  ']) + text
        if r.random() < .1:
            text = r.choice(['Basic', 'digest ', ' Negotiate'])
    return text


NAMES = {'set': ['vary', 'allow', 'content_language'], 'cc': ['cache_control'], 'params': ['mimetype_params'],
         'crange': ['content_range'], 'auth': ['www_authenticate']}


def gen_range(r):
    a = r.randint(0, 5)
    b = r.choice([a, a + 1, a + 1, a + 6])
    if r.random() < .25:
        a = b = -1
    return {'start': a, 'stop': r.choice([b, b, b, -1]), 'length': r.choice([-1, 0, a, 20, 20])}


def gen_op(r, kind):
    if r.random() < .12:
        return {'op': 'refetch'}
    if r.random() < .08:
        return {'op': 'raw', 'text': '<None>' if kind != 'params' and r.random() < .3 else gen_text(r, kind), 'byprop': r.random() < .5}
    if kind == 'set':
        op = r.choice(['add', 'add', 'update', 'update', 'remove', 'remove', 'discard', 'clear', 'find', 'index', 'has', 'getidx', 'delidx', 'setidx', 'setidx', 'assign'])
        e = {'op': op, 'v': r.choice(ITEMS), 'idx': r.randint(-4, 4)}
        if op in ('update', 'assign'):
            e['q'] = [r.choice(ITEMS) for _ in range(r.choice([0, 1, 2, 3]))]
        if op == 'assign':
            e['hs'] = r.random() < .5
        return e
    if kind == 'crange':
        op = r.choice(['crset', 'crset', 'unset', 'crattr', 'crattr', 'crattr', 'crunits', 'crassign'])
        e = {'op': op, 'units': r.choice(['bytes', 'bytes', 'X', '<None>'])}
        if op == 'crassign':
            a = r.randint(0, 3)
            e.update(r.choice([{'start': a, 'stop': a + 2, 'length': 9}, {'start': -1, 'stop': -1, 'length': r.choice([-1, 0, 7])}]))
            e['none'] = r.random() < .5
        elif op == 'crset':
            e.update(gen_range(r))
        elif op == 'crattr':
            e['attr'] = r.choice(['start', 'stop', 'length'])
            e['n'] = r.choice([-1, 0, 1, 3, 6, 10])
        return e
    if kind == 'cc' and r.random() < .45:
        p = r.choice(CCPROPS)
        x = r.choice(['yes', 'no', 'no', 'v', 'v']) if p not in FLAGS else r.choice(['yes', 'no'])
        if x == 'v':
            x = r.choice(['5', '60', 'a b', 'Set-Cookie', '0', '7']) if p != 'max_age' else r.choice(['0', '5', '60'])
        return {'op': 'prop', 'p': p, 'v': x, 'int': r.random() < .7, 'del': r.random() < .3}
    if kind == 'auth' and r.random() < .55:
        op = r.choice(['type', 'attr', 'attr', 'stale', 'basic', 'digest', 'subadd', 'subadd', 'subdiscard', 'aclear'])
        e = {'op': op}
        if op == 'type':
            e['v'] = r.choice(['basic', 'digest', 'x-foo', '<None>'])
        elif op == 'attr':
            e.update(k=r.choice(['realm', 'nonce', 'opaque', 'algorithm']), v=gen_value(r, kind))
        elif op == 'stale':
            e['v'] = r.choice(['TRUE', 'FALSE', '<None>'])
        elif op == 'basic':
            e['v'] = r.choice(VALUES)
        elif op == 'digest':
            e.update(v=r.choice(VALUES), nonce=r.choice(VALUES), q=r.choice([['auth'], ['auth', 'auth-int'], ['x y']]),
                     opaque=gen_value(r, kind), algorithm=r.choice(['<None>', 'MD5']), stale=r.random() < .5)
        elif op in ('subadd', 'subdiscard'):
            e.update(k=r.choice(['qop', 'domain']), v=r.choice(['auth', 'AUTH', 'auth-int', '/x y', '/a,b', '']))
        return e
    op = r.choice(['put', 'put', 'put', 'del', 'pop', 'popd', 'setdefault', 'dupdate', 'ior', 'popitem', 'dclear'])
    if kind == 'auth' and op in ('popitem', 'dclear'):
        op = 'put'
    e = {'op': op}
    if op in ('put', 'del', 'pop', 'popd', 'setdefault'):
        e['k'] = r.choice(KEYS[kind])
    if op in ('put', 'setdefault'):
        e['v'] = gen_value(r, kind)
    if op in ('dupdate', 'ior'):
        e['items'] = [[k, gen_value(r, kind)] for k in r.sample(KEYS[kind], r.choice([0, 1, 2, 3]))]
        e['kw'] = r.random() < .5
    return e


def gen_cases(r, n):
    out = []
    for _ in range(n):
        kind = r.choice(['set', 'set', 'cc', 'cc', 'params', 'crange', 'auth', 'auth'])
        text = '<None>' if kind != 'params' and r.random() < .5 else gen_text(r, kind)
        out.append({'init': {'kind': kind, 'name': r.choice(NAMES[kind]), 'text': text},
                    'ops': [gen_op(r, kind) for _ in range(r.randint(4, 12))]})
    return out
