"""Driver: spec/Immutable.tla."""
import copy
import pickle
from core import CaseTimeout, capture, enc, exc, exc_name, val
from d_multi import KEYS

LISTS = ('list', 'route')
MULTI = ('multi', 'omulti', 'comb', 'args')


def make(kind, items):
    from verktyg import datastructures as ds, http
    from verktyg.requests import Request
    from verktyg.wsgi import EnvironHeaders
    items = [tuple(i) for i in items]
    firsts = {}
    for k, v in items:
        firsts.setdefault(k, v)
    if kind == 'list':
        return ds.ImmutableList([v for _, v in items])
    if kind == 'route':
        return Request({'HTTP_X_FORWARDED_FOR': ', '.join(v for _, v in items)}).access_route if items else \
            Request({}).access_route
    if kind == 'dict':
        return ds.ImmutableDict(firsts)
    if kind == 'tcdict':
        return ds.ImmutableTypeConversionDict(firsts)
    if kind == 'cookies':
        return Request({'HTTP_COOKIE': '; '.join('%s=%s' % i for i in firsts.items())}).cookies
    if kind == 'auth':
        return http.Authorization('digest', firsts)
    if kind == 'cache':
        return http.parse_cache_control_header(', '.join('%s=%s' % i for i in firsts.items()))
    if kind == 'multi':
        return ds.ImmutableMultiDict(items)
    if kind == 'omulti':
        return ds.ImmutableOrderedMultiDict(items)
    if kind == 'args':
        return Request({'QUERY_STRING': '&'.join('%s=%s' % i for i in items)}).args
    if kind == 'comb':
        half = len(items) // 2
        return ds.CombinedMultiDict([ds.MultiDict(items[:half]), ds.OrderedMultiDict(items[half:])])
    if kind == 'headers':
        return EnvironHeaders({'HTTP_' + k.upper(): v for k, v in firsts.items()})
    raise AssertionError(kind)


def content(kind, d):
    if kind in LISTS:
        return {'seq': [['', v] for v in d]}
    if kind == 'headers':
        return {'lists': {'SET': [[k.lower(), [v]] for k, v in d]}}
    if kind == 'omulti':
        return {'seq': enc(list(d.items(multi=True)))}
    if kind in MULTI:
        return {'lists': {'SET': enc([(k, list(l)) for k, l in d.lists()])}}
    return {'lists': {'SET': enc([(k, [v]) for k, v in d.items()])}}


def mutate(kind, d, name, k, v):
    if kind in LISTS:
        if name == 'append':
            d.append(v)
        elif name == 'extend':
            d.extend([v])
        elif name == 'insert':
            d.insert(0, v)
        elif name == 'pop':
            d.pop()
        elif name == 'popidx':
            d.pop(0)
        elif name == 'remove':
            d.remove(v)
        elif name == 'reverse':
            d.reverse()
        elif name == 'sort':
            d.sort()
        elif name == 'sortkey':
            d.sort(key=len, reverse=True)
        elif name == 'clear':
            d.clear()
        elif name == 'setidx':
            d[0] = v
        elif name == 'setslice':
            d[0:1] = [v, v]
        elif name == 'delidx':
            del d[0]
        elif name == 'delslice':
            del d[:]
        elif name == 'iadd':
            d += [v]
        elif name == 'imul':
            d *= 2
        else:
            return 'not applicable'
        return None
    if kind == 'headers':
        k = k.upper()
    if name == 'setitem':
        d[k] = v
    elif name == 'delitem':
        del d[k]
    elif name == 'clear':
        d.clear()
    elif name == 'pop':
        d.pop(k)
    elif name == 'popdef':
        d.pop(k, None)
    elif name == 'popitem':
        d.popitem()
    elif name == 'setdefault':
        d.setdefault(k, v)
    elif name == 'add':
        d.add(k, v)
    elif kind == 'headers':
        if name == 'set':
            d.set(k, v)
        elif name == 'add_header':
            d.add_header(k, v)
        elif name == 'remove':
            d.remove(k)
        elif name == 'extend':
            d.extend([(k, v)])
        elif name == 'insert':
            d.insert(0, (k, v))
        elif name == 'setidx':
            d[0] = (k, v)
        elif name == 'delidx':
            del d[0]
        else:
            return 'not applicable'
    elif name == 'update':
        d.update({k: v})
    elif name == 'updatekw':
        d.update(x=v)
    elif name == 'popmissing':
        d.pop('missing', 'default')
    elif name == 'setdefault2':
        d.setdefault(k)
    elif name == 'ior':
        d |= {k: v}
    elif name == 'setlist':
        d.setlist(k, [v])
    elif name == 'setlistdefault':
        d.setlistdefault(k, [v])
    elif name == 'poplist':
        d.poplist(k)
    elif name == 'popitemlist':
        d.popitemlist()
    elif name == 'setprop':
        d.max_age = 5
    elif name == 'setprop2':
        d.no_store = True
    elif name == 'delprop':
        if 'max-age' in d:
            del d.max_age
        else:
            d.no_store = False
    elif name == 'setnone':
        d.max_age = None
    else:
        return 'not applicable'
    return None


def tamper(kind, d):
    """Change everything the structure hands out."""
    if kind in MULTI:
        for l in list(d.listvalues()):
            l.append('leak')
        for _, l in list(d.lists()):
            l.append('leak')
        for k in KEYS:
            d.getlist(k).append('leak')
        for l in d.to_dict(flat=False).values():
            l.append('leak')
        d.to_dict()['leak'] = 1
    if kind == 'cache' or kind == 'auth':
        dict(d)['leak'] = 1


def derived(d, how):
    if how == 'copy.copy':
        return copy.copy(d)
    if how == 'deepcopy':
        return copy.deepcopy(d)
    return pickle.loads(pickle.dumps(d))


class State:
    pass


def do(s, e):
    op = e['op']
    if op == 'mutate':
        return mutate(s.kind, s.d, e['name'], e['k'], e['v'])
    if op == 'copy':
        if s.kind in ('comb', 'headers'):
            return 'not applicable'
        s.copy = s.d.copy()
        return None if s.copy is not s.d else 'same object'
    if op in ('copy.copy', 'deepcopy', 'pickle'):
        if s.kind == 'headers':
            return 'not applicable'
        c = derived(s.d, op)
        # it is immutable as well
        for name in (['append'] if s.kind in LISTS else ['setitem', 'ior']):
            try:
                mutate(s.kind, c, name, 'x', 'changed')
            except TypeError:
                pass
            else:
                return 'mutable'
        if type(c) is not type(s.d) or getattr(c, 'type', None) != getattr(s.d, 'type', None):
            return 'other type'
        return {'content': content(s.kind, c), 'equal': c == s.d and not c != s.d, 'hash': hash(c) == hash(s.d)}
    if op == 'fromkeys':
        if s.kind not in ('dict', 'tcdict', 'multi', 'omulti', 'comb'):
            return 'not applicable'
        c = type(s.d).fromkeys(e['keys'], e['v'])
        try:
            c['x'] = 'changed'
        except TypeError:
            pass
        else:
            return 'mutable'
        return content(s.kind, c)
    c = s.copy
    if c is None:
        return 'not applicable'
    lst = s.kind in LISTS
    if op in ('cset', 'cadd'):
        if lst:
            c.append(e['v'])
        elif op == 'cadd' and s.kind in MULTI:
            c.add(e['k'], e['v'])
        else:
            c[e['k']] = e['v']
    elif op == 'cdel':
        if lst:
            if c:
                del c[0]
        else:
            c.pop(e['k'], None)
    elif op == 'cclear':
        c.clear()
    return None


def observe(s):
    try:
        tamper(s.kind, s.d)
        h = 'same'
        if s.kind != 'headers':
            twin = make(s.kind, s.items)
            if hash(s.d) != s.hash:
                h = 'changed'
            elif hash(twin) != s.hash or twin != s.d:
                h = 'differs from an equal object'
        if s.copy is None:
            cp = content('list' if s.kind in LISTS or s.kind == 'omulti' else 'dict', [] if s.kind in LISTS + ('omulti',) else {})
        else:
            cp = content(s.kind, s.copy)
        return {'content': content(s.kind, s.d), 'hash': h, 'copy': cp}
    except CaseTimeout:
        raise
    except Exception as e:
        return {'error': '%s: %s' % (type(e).__name__, e)}


def run(case):
    s = State()
    s.kind = case['init']['kind']
    s.items = case['init']['items']
    s.d = make(s.kind, s.items)
    s.copy = None
    # half of the time the hash is first taken after the changes
    s.hash = hash(make(s.kind, s.items)) if s.kind != 'headers' else None
    if len(case['ops']) % 2 and s.kind != 'headers':
        hash(s.d)
    log = [{'ret': val('<None>'), 'obs': observe(s)}]
    for e in case['ops']:
        ret = capture(do, s, e)
        log.append({'ret': ret, 'obs': observe(s)})
    return log


NAMES = ['append', 'extend', 'insert', 'pop', 'popidx', 'remove', 'reverse', 'sort', 'sortkey', 'clear', 'setidx',
         'setslice', 'delidx', 'delslice', 'iadd', 'imul', 'setitem', 'delitem', 'update', 'updatekw', 'popdef', 'popmissing',
         'popitem', 'setdefault', 'setdefault2', 'ior', 'add', 'setlist', 'setlistdefault', 'poplist', 'popitemlist', 'set',
         'add_header', 'setprop', 'setprop2', 'delprop', 'setnone']
VALUES = ['1', '2', 'q', '33', 'a']
KINDS = ['list', 'route', 'dict', 'tcdict', 'auth', 'cache', 'cookies', 'multi', 'omulti', 'comb', 'args', 'headers']


def applicable(kind, name):
    lst = NAMES[:16]
    dct = ['setitem', 'delitem', 'update', 'updatekw', 'clear', 'pop', 'popdef', 'popmissing', 'popitem', 'setdefault',
           'setdefault2', 'ior']
    if kind in LISTS:
        return name in lst
    if kind == 'headers':
        return name in ['setitem', 'delitem', 'set', 'add', 'add_header', 'remove', 'extend', 'insert', 'pop', 'popdef', 'popitem',
                        'setdefault', 'clear', 'setidx', 'delidx']
    if kind in MULTI:
        return name in dct + ['add', 'setlist', 'setlistdefault', 'poplist', 'popitemlist']
    if kind == 'cache':
        return name in dct + ['setprop', 'setprop2', 'delprop', 'setnone']
    return name in dct


def gen_cases(r, n):
    out = []
    for _ in range(n):
        kind = r.choice(KINDS)
        items = [[r.choice(KEYS), r.choice(VALUES)] for _ in range(r.randint(0, 6))]
        names = [x for x in NAMES if applicable(kind, x)]
        ops = []
        for _ in range(r.randint(1, 12)):
            op = r.choice(['mutate'] * 6 + ['copy', 'copy.copy', 'deepcopy', 'pickle', 'cset', 'cadd', 'cdel', 'cclear', 'fromkeys'])
            e = {'op': op}
            if op == 'mutate':
                e.update(name=r.choice(names), k=r.choice(KEYS), v=r.choice(VALUES))
            elif op == 'fromkeys':
                e.update(keys=r.sample(KEYS, min(len(KEYS), r.randint(0, 3))), v=r.choice(VALUES))
            elif op in ('cset', 'cadd'):
                e.update(k=r.choice(KEYS), v=r.choice(VALUES))
            elif op == 'cdel':
                e.update(k=r.choice(KEYS))
            ops.append(e)
        out.append({'init': {'kind': kind, 'items': items}, 'ops': ops})
    return out
