"""Driver: replay behaviours of spec/Headers.tla on verktyg.http.Headers."""
import copy as _copy
from core import capture, dec_text, enc, exc, val

PROBES = ['A', 'a', 'b', 'Content-Type', 'X-Y']


def arg(a):
    v = dec_text(a['v'])
    if a['t'] == 'b':
        return v.encode('latin-1')
    if a['t'] == 'i':
        return int(v)
    return v


def pairs(items):
    return [(dec_text(k), arg(v)) for k, v in items]


def ddict(items):
    out = {}
    # the values of a name may come as a single value, as list or as tuple
    for i, (k, vs) in enumerate(items):
        vs = [arg(v) for v in vs]
        plain = len(vs) == 1 and i % 3 != 1
        out[dec_text(k)] = (vs[0] if plain else tuple(vs) if len(k) % 2 else vs)
    return out


def kwargs(kw):
    return {k: (None if v == '<None>' else dec_text(v)) for k, v in kw}


def observe(h):
    def reads():
        return {
            'list': enc(list(h)), 'n': len(h), 'text': enc(str(h)),
            'lkeys': enc(list(h.keys(lower=True))),
            'probes': [enc(h.getlist(p)) for p in PROBES],
        }
    try:
        o = reads()
        # all the other ways of reading must agree
        full = list(h)
        alt = {
            'wsgi': list(h.to_wsgi_list()), 'items': list(h.items()),
            'zip': list(zip(h.keys(), h.values())), 'slice': list(h[:]),
            'idx': [h[i] for i in range(len(h))],
            'litems': [(k.lower(), v) for k, v in h],
        }
        for name in ('wsgi', 'items', 'zip', 'slice', 'idx'):
            if [tuple(x) for x in alt[name]] != [tuple(x) for x in full]:
                o['disagree'] = name
        if list(h.items(lower=True)) != alt['litems']:
            o['disagree'] = 'items(lower)'
        for p in PROBES:
            if h.get_all(p) != h.getlist(p):
                o['disagree'] = 'get_all'
            if (p in h) != bool(h.getlist(p)) or h.has_key(p) != (p in h):  # noqa
                o['disagree'] = 'contains'
            if h.get(p) != (h.getlist(p) or [None])[0]:
                o['disagree'] = 'get'
        return o
    except Exception as e:
        return {'error': type(e).__name__}


def apply(h, e):
    from verktyg.http import Headers
    op = e['op']
    key = dec_text(e['key']) if 'key' in e else None
    if op == 'add':
        return h.add(key, arg(e['v']), **kwargs(e['kw']))
    if op == 'add_header':
        return h.add_header(key, arg(e['v']), **kwargs(e['kw']))
    if op == 'set':
        return h.set(key, arg(e['v']), **kwargs(e['kw']))
    if op == 'setitem':
        h[key] = arg(e['v'])
        return
    if op == 'setidx':
        h[e['i']] = (key, arg(e['v']))
        return
    if op == 'setslice':
        h[e['i']:e['j']] = pairs(e['items'])
        return
    if op == 'delkey':
        del h[key]
        return
    if op == 'remove':
        return h.remove(key)
    if op == 'delidx':
        del h[e['i']]
        return
    if op == 'delslice':
        del h[e['i']:e['j']]
        return
    if op == 'pop':
        return h.pop(key)
    if op == 'popdef':
        return h.pop(key, dec_text(e['d']))
    if op == 'popidx':
        return h.pop(e['i'])
    if op == 'poplast':
        return h.pop()
    if op == 'popitem':
        return h.popitem()
    if op == 'clear':
        return h.clear()
    if op == 'setdefault':
        return h.setdefault(key, arg(e['v']))
    if op == 'extend':
        return h.extend(pairs(e['items']))
    if op == 'extendh':
        # any iterable of pairs will do
        return h.extend(iter(pairs(e['items'])))
    if op == 'extendd':
        return h.extend(ddict(e['items']))
    if op == 'getitem':
        return h[key]
    if op == 'get':
        return h.get(key, dec_text(e['d']))
    if op == 'getbytes':
        return h.get(key, as_bytes=True)
    if op == 'getint':
        return h.get(key, dec_text(e['d']), type=int)
    if op == 'getlistint':
        return h.getlist(key, type=int)
    if op == 'contains':
        return key in h
    if op == 'getidx':
        return h[e['i']]
    if op == 'getslice':
        return list(h[e['i']:e['j']])
    if op == 'eq':
        o = Headers([(k, str(v.decode('latin-1') if isinstance(v, bytes) else v))
                     for k, v in pairs(e['items'])])
        r = h == o
        if (h != o) == r or (o == h) != r:
            return 'inconsistent'
        return r
    raise AssertionError(op)


def run(case):
    from verktyg.http import Headers
    c = case['init']
    box = {}

    def make():
        if c['how'] == 'dict':
            box['h'] = Headers(ddict(c['items']))
        elif c['how'] == 'list':
            src = pairs(c['items'])
            keep = list(src)
            box['h'] = Headers(src)
            if src != keep:
                return 'source changed'
            src.append(('later', 'x'))      # must not be shared
        elif c['how'] == 'headers':
            src = Headers()
            for k, v in pairs(c['items']):
                src.add(k, v)
            box['h'] = Headers(src)
            src.add('later', 'x')
        else:
            box['h'] = Headers(iter(pairs(c['items'])))

    ret = capture(make)
    h = box.get('h')
    if h is None:
        h = Headers()
    log = [{'ret': ret, 'obs': observe(h)}]
    for e in case['ops']:
        if e['op'] == 'copy':
            try:
                other = h.copy() if e.get('deep') is not True else _copy.copy(h)
                before = list(h)
                other.add('Only-In-Copy', '1')
                if list(h) != before:
                    ret = val('copy shares state')
                elif type(other) is not type(h):
                    ret = val('copy of another type')
                else:
                    other.popitem()
                    ret = val(enc(list(other)))
                    h = other
            except Exception as x:
                ret = exc(type(x).__name__)
        else:
            ret = capture(apply, h, e)
        log.append({'ret': ret, 'obs': observe(h)})
    return log


# ---- case generation -------------------------------------------------------
KEYS = ['A', 'a', 'b', 'B', 'Content-Type', 'content-type', 'CONTENT-TYPE',
        'X-Y', 'x-y', 'Set-Cookie', 'set-cookie']
TEXTS = ['1', 'x', '', 'text/plain', '42', '-7', ' 5 ', 'a, b', 'q="z"', '\x0e',
         'a b', '0', '12', 'nan']
BREAKS = ['a\nb', 'x\r', '\r\nSet-Cookie: e=1', '\n', 'ok\r\n', '\rb', 'a\r\n b']


def gen_value(r, kinds='sbi', p_break=0.12):
    t = r.choice(kinds)
    if t == 'i':
        return {'t': 'i', 'v': str(r.randint(0, 99))}
    if r.random() < p_break:
        return {'t': t, 'v': r.choice(BREAKS)}
    return {'t': t, 'v': r.choice(TEXTS)}


def gen_items(r, p_break=0.05, kinds='ssbi'):
    return [[r.choice(KEYS), gen_value(r, kinds, p_break)]
            for _ in range(r.randint(0, 4))]


def gen_dict(r, p_break=0.05):
    ks = r.sample(KEYS, r.randint(0, 3))
    return [[k, [gen_value(r, 'ssbi', p_break) for _ in range(r.choice([0, 1, 1, 2, 3]))]] for k in ks]


def gen_kw(r, p_break=0.1):
    if r.random() < 0.65:
        return []
    ks = r.sample(['filename', 'f_n', 'x', 'size'], r.randint(1, 3))
    vs = ['a b', 'tok', 'q"q', 'b\\s', '', '<None>', '\x0e', 'a;b', 'a,b']
    return [[k, r.choice(BREAKS) if r.random() < p_break else r.choice(vs)] for k in ks]


OPS = (['add', 'set', 'setitem'] * 4 + ['extend', 'extendh', 'extendd', 'setdefault',
       'setidx', 'setslice'] * 2 +
       ['add_header', 'delkey', 'remove', 'delidx', 'delslice', 'pop', 'popdef',
        'popidx', 'poplast', 'popitem', 'clear', 'getitem', 'get', 'getbytes', 'getint',
        'getlistint', 'contains', 'getidx', 'getslice', 'eq', 'copy', 'copy'])


def gen_op(r, p_break=0.12):
    op = r.choice(OPS)
    e = {'op': op}
    key = r.choice(KEYS)
    if op in ('add', 'add_header', 'set'):
        kw = gen_kw(r, p_break)
        e.update(key=key, v=gen_value(r, 's' if kw else 'ssbi', p_break), kw=kw)
    elif op == 'setitem':
        e.update(key=key, v=gen_value(r, 'ssbi', p_break))
    elif op == 'setdefault':
        e.update(key=key, v=gen_value(r, 's', p_break))
    elif op == 'setidx':
        e.update(i=r.randint(-4, 4), key=key, v=gen_value(r, 'ssb', p_break))
    elif op == 'setslice':
        e.update(i=r.randint(-4, 4), j=r.randint(-4, 5), items=gen_items(r, p_break))
    elif op in ('delslice', 'getslice'):
        e.update(i=r.randint(-4, 4), j=r.randint(-4, 5))
    elif op in ('delidx', 'popidx', 'getidx'):
        e.update(i=r.randint(-4, 4))
    elif op in ('extend', 'extendh', 'eq'):
        e.update(items=gen_items(r, p_break if op != 'eq' else 0))
    elif op == 'extendd':
        e.update(items=gen_dict(r, p_break))
    elif op in ('popdef', 'get', 'getint'):
        e.update(key=key, d='dflt')
    elif op in ('delkey', 'remove', 'pop', 'getitem', 'getbytes', 'getlistint', 'contains'):
        e.update(key=key)
    elif op == 'copy':
        e.update(deep=r.random() < .5)
    return e


def gen_cases(r, n, length, p_break=0.12):
    out = []
    for _ in range(n):
        how = r.choice(['list', 'dict', 'headers', 'iter'])
        pb = p_break / 2 if how != 'headers' else 0
        # a list given to the constructor keeps the type of its values
        # (pinned by the repository's own test), so only text there
        items = (gen_dict(r, pb) if how == 'dict' else
                 gen_items(r, pb, 's' if how == 'list' else 'ssbi'))
        out.append({'init': {'how': how, 'items': items},
                    'ops': [gen_op(r, p_break) for _ in range(r.randint(1, length))]})
    return out
