"""Driver: spec/MultiDict.tla on verktyg.datastructures."""
import copy
import pickle
from core import CaseTimeout, capture, enc, exc, exc_name, val

KEYS = ['x', 'y', 'z']


class Boxed(str):
    """A value with identity, to tell deep copies from shallow ones."""


def classes():
    from verktyg import datastructures as ds
    return {'plain': ds.MultiDict, 'ordered': ds.OrderedMultiDict, 'comb': ds.CombinedMultiDict}


def as_dict(pairs):
    out = {}
    for k, v in pairs:
        out.setdefault(k, []).append(v)
    return {k: (v[0] if len(v) == 1 else tuple(v) if len(v) == 2 else v) for k, v in out.items()}


def source(s, src):
    how = src['how']
    pairs = [tuple(p) for p in src['pairs']]
    if how == 'pairs':
        return pairs if len(pairs) % 2 else iter(pairs)
    if how == 'dict':
        d = as_dict(pairs)
        for k in src.get('empty', ()):
            d.setdefault(k, [])
        return d
    if how == 'none':
        return None
    if how in classes():
        return classes()[how](pairs)
    return s[how]


def view(d):
    """Everything the dictionary can be asked, if it all agrees."""
    lists = [(k, list(v)) for k, v in d.lists()]
    want = dict(lists)
    o = {'lists': {'SET': enc(lists)}}
    multi = list(d.items(multi=True))
    ordered = isinstance(d, classes()['ordered'])
    if ordered:
        o['multi'] = enc(multi)
    if len(want) != len(lists):
        o['bad'] = 'duplicate key'

    def agree(name, got, expected):
        if not ordered:
            got, expected = sorted(got), sorted(expected)
        if got != expected:
            o['bad'] = '%s: %r' % (name, got)
    flat = [(k, v) for k, l in lists for v in l]
    firsts = [(k, l[0]) for k, l in lists]
    if sorted(flat) != sorted(multi):
        o['bad'] = 'items(multi)'
    for k in want:
        if [v for kk, v in multi if kk == k] != want[k]:
            o['bad'] = 'order of items(multi)'
    agree('items', list(d.items()), firsts)
    agree('keys', list(d.keys()), [k for k, _ in lists])
    agree('iter', list(d), [k for k, _ in lists])
    agree('values', list(d.values()), [v for _, v in firsts])
    agree('listvalues', list(d.listvalues()), [l for _, l in lists])
    if len(d) != len(lists) or bool(d) != bool(lists):
        o['bad'] = 'len'
    if d.to_dict() != dict(firsts) or d.to_dict(flat=False) != want:
        o['bad'] = 'to_dict'
    if type(d.to_dict()) is not dict:
        o['bad'] = 'type of to_dict'
    for k in KEYS + ['nope']:
        if (k in d) != (k in want) or d.getlist(k) != want.get(k, []):
            o['bad'] = 'contains or getlist of ' + k
        if d.get(k, 'D') != want.get(k, ['D'])[0]:
            o['bad'] = 'get of ' + k
    # what was handed out is not the inside
    for k in want:
        d.getlist(k).append('leak')
    for _, l in d.lists():
        l.append('leak')
    for l in d.listvalues():
        l.append('leak')
    for l in d.to_dict(flat=False).values():
        l.append('leak')
    if [(k, list(v)) for k, v in d.lists()] != lists:
        o['bad'] = 'exposed list'
    return o


def observe(s):
    out = {}
    for o in 'abc':
        try:
            out[o] = view(s[o])
        except CaseTimeout:
            raise
        except Exception as e:
            out[o] = {'error': '%s: %s' % (type(e).__name__, e)}
    return out


def clone(d, how):
    if how == 'copy':
        return d.copy()
    if how == 'copy.copy':
        return copy.copy(d)
    if how == 'deepcopy':
        return d.deepcopy()
    if how == 'copy.deepcopy':
        return copy.deepcopy(d)
    if how.startswith('pickle'):
        return pickle.loads(pickle.dumps(d, int(how[6:] or 2)))
    return type(d)(d)


def conv(t):
    return {'none': None, 'int': int}[t]


def do(s, e):
    op, o = e['op'], e['o']
    d = s[o]
    k = e.get('k')
    if op == 'getitem':
        return d[k]
    if op == 'get':
        return d.get(k, e['d'], type=conv(e['t']))
    if op == 'getlist':
        return d.getlist(k, type=conv(e['t']))
    if op == 'contains':
        return k in d
    if op == 'setitem':
        d[k] = e['v']
    elif op == 'add':
        return d.add(k, e['v'])
    elif op == 'delitem':
        try:
            del d[k]
        except KeyError:
            raise KeyError(k) from None
    elif op == 'setlist':
        l = list(e['vs'])
        d.setlist(k, l if len(l) % 2 else iter(l))
        l.append('leak')
    elif op == 'setdefault':
        return d.setdefault(k, e['v'])
    elif op == 'setlistdefault':
        src = list(e['vs'])
        l = d.setlistdefault(k, src)
        src.append('leak')
        l.extend(e['ext'])
        return l
    elif op == 'update':
        return d.update(source(s, e['src']) or ())
    elif op == 'ior':
        d2 = d
        d2 |= source(s, e['src']) or ()
        return None if d2 is d else 'replaced'
    elif op == 'or':
        return view(d | (source(s, e['src']) or ()))
    elif op == 'pop':
        return d.pop(k)
    elif op == 'popdef':
        return d.pop(k, e['d'])
    elif op == 'poplist':
        return d.poplist(k)
    elif op == 'popitem':
        return d.popitem()
    elif op == 'popitemlist':
        return d.popitemlist()
    elif op == 'clear':
        return d.clear()
    elif op == 'copy':
        c = clone(d, e['how'])
        if c is d or type(c) is not type(d):
            return 'same or other type'
        if o == 'c':
            return view(c)
        s.put(e['to'], c)
    elif op == 'setstate':
        t = s[e['to']]
        t.__setstate__(d.__getstate__())
    elif op == 'new':
        src = source(s, e['src'])
        c = classes()[e['kind']]
        s.put(o, c() if src is None else c(src))
    elif op == 'fromkeys':
        s.put(o, type(d).fromkeys(list(e['ks']), e['v']))
    elif op == 'eq':
        t = s[e['to']]
        return [d == t, d != t]
    elif op == 'eqother':
        res = [[d == t, d != t] for t in (5, 'x', None, [('x', '1')], {'nope': 1})]
        return res[0] if all(x == res[0] for x in res) else res
    return None


class Slots(dict):
    def put(self, o, d):
        self[o] = d
        self['c'] = classes()['comb']([self['a'], self['b']])


def result(fn, *a):
    from verktyg.exceptions import BadRequestKeyError
    try:
        return val(enc(fn(*a)))
    except CaseTimeout:
        raise
    except BadRequestKeyError:
        return exc('BadRequestKeyError')
    except Exception as e:
        return exc(exc_name(e))


def run(case):
    init = case['init']
    s = Slots(a=None, b=None)
    for o in 'ab':
        src = source(s, init[o + 'src'])
        c = classes()[init[o]]
        s[o] = c() if src is None else c(src)
    s.put('a', s['a'])
    log = [{'ret': val('<None>'), 'obs': observe(s)}]
    for e in case['ops']:
        ret = result(do, s, e)
        log.append({'ret': ret, 'obs': observe(s)})
    return log


VALUES = ['1', '2', 'q', '', '33', ' 4 ']
HOWS = ['copy', 'copy.copy', 'deepcopy', 'copy.deepcopy', 'construct'] + ['pickle%d' % i for i in range(6)]


def gen_pairs(r, n=5):
    return [[r.choice(KEYS), r.choice(VALUES)] for _ in range(r.randint(0, n))]


def gen_src(r, hows):
    how = r.choice(hows)
    src = {'how': how, 'pairs': gen_pairs(r) if how in ('pairs', 'dict', 'plain', 'ordered') else []}
    if how == 'dict' and r.random() < .3:
        src['empty'] = ['w']
    return src


def gen_cases(r, n):
    out = []
    for _ in range(n):
        init = {}
        for o in 'ab':
            init[o] = r.choice(['plain', 'ordered'])
            init[o + 'src'] = gen_src(r, ['none', 'pairs', 'pairs', 'dict', 'plain', 'ordered'])
        kinds = dict(init)
        ops = []
        if r.random() < .15:
            # nearly the same content in another order
            ps = gen_pairs(r, 4)
            qs = r.sample(ps, len(ps))
            if qs and r.random() < .3:
                qs = qs[1:] if r.random() < .5 else qs + qs[:1]
            init['asrc'] = {'how': 'pairs', 'pairs': ps}
            init['bsrc'] = {'how': 'pairs', 'pairs': qs}
            ops = [{'op': 'eq', 'o': 'a', 'to': 'b'}, {'op': 'eq', 'o': 'b', 'to': 'a'}, {'op': 'eq', 'o': 'c', 'to': 'a'}]
        size = 8
        for _ in range(r.randint(2, 14)):
            o = r.choice('aab')
            k, v = r.choice(KEYS), r.choice(VALUES)
            rd = r.choice('abcc')
            op = r.choice(['getitem', 'get', 'getlist', 'contains', 'setitem', 'setitem', 'add', 'add', 'add', 'delitem',
                           'setlist', 'setlist', 'setdefault', 'setlistdefault', 'update', 'update', 'ior', 'or', 'pop', 'popdef',
                           'poplist', 'popitem', 'popitemlist', 'clear', 'copy', 'copy', 'setstate', 'new', 'fromkeys', 'eq', 'eq',
                           'eqother'])
            if op in ('getitem', 'contains'):
                e = {'op': op, 'o': rd, 'k': k}
            elif op == 'get':
                e = {'op': op, 'o': rd, 'k': k, 'd': 'dflt', 't': r.choice(['none', 'int'])}
            elif op == 'getlist':
                e = {'op': op, 'o': rd, 'k': k, 't': r.choice(['none', 'int'])}
            elif op in ('setitem', 'add', 'setdefault'):
                e = {'op': op, 'o': o, 'k': k, 'v': v}
            elif op in ('delitem', 'pop', 'poplist'):
                e = {'op': op, 'o': o, 'k': k}
            elif op == 'setlist':
                e = {'op': op, 'o': o, 'k': k, 'vs': [r.choice(VALUES) for _ in range(r.randint(0, 3))]}
            elif op == 'setlistdefault':
                e = {'op': op, 'o': o, 'k': k, 'vs': [r.choice(VALUES) for _ in range(r.randint(1, 2))],
                     'ext': [r.choice(VALUES) for _ in range(r.randint(0, 2))]}
            elif op in ('update', 'ior', 'or'):
                hows = ['pairs', 'dict', 'plain', 'ordered']
                if size < 40:
                    hows += ['a', 'b', 'c']
                e = {'op': op, 'o': o, 'src': gen_src(r, hows)}
                size = size * 2
            elif op == 'popdef':
                e = {'op': op, 'o': o, 'k': k, 'd': 'dflt'}
            elif op in ('popitem', 'popitemlist', 'clear', 'eqother'):
                e = {'op': op, 'o': o if op != 'eqother' or r.random() < .6 else 'c'}
            elif op == 'copy':
                src = r.choice('abc')
                to = {'a': 'b', 'b': 'a', 'c': 'c'}[src]
                e = {'op': op, 'o': src, 'to': to, 'how': r.choice([h for h in HOWS if src != 'c' or h != 'construct'])}
                kinds[to] = kinds.get(src)
            elif op == 'setstate':
                if kinds['a'] != kinds['b']:
                    continue
                e = {'op': op, 'o': o, 'to': 'b' if o == 'a' else 'a'}
            elif op == 'new':
                e = {'op': op, 'o': o, 'kind': r.choice(['plain', 'ordered']),
                     'src': gen_src(r, ['pairs', 'dict', 'plain', 'ordered', 'a', 'b', 'c', 'none'])}
                kinds[o] = e['kind']
            elif op == 'fromkeys':
                e = {'op': op, 'o': o, 'ks': r.sample(KEYS, r.randint(0, 3)), 'v': v}
            elif op == 'eq':
                e = {'op': op, 'o': rd, 'to': r.choice('abc')}
            ops.append(e)
        out.append({'init': init, 'ops': ops})
    return out
