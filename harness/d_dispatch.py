"""Driver: spec/Dispatch.tla on verktyg.dispatch and verktyg.views."""
import json
from core import capture, exc, val
from d_accept import gen_attr, gen_header, text, value


class Env:
    debug = False


def action(label):
    def act(app, req, *a, **kw):
        return label
    return act


def record(label):
    """What a JSON view returns: everything JSON knows."""
    return {'label': label, 'of': [1, 1.5, None, True, {'"': '\\', '\u20ac': []}]}


def json_action(label):
    def act(app, req, *a, **kw):
        if len(str(label)) % 2 == 0 or str(label)[-1:] in '13579':
            # already a response: not for the view to touch
            from verktyg.responses import Response
            return Response(json.dumps(record(label)), status=202, content_type='text/plain')
        return record(label)
    return act


def add(d, e):
    from verktyg.dispatch import Binding
    from verktyg.views import View, ClassView, JsonView, expose, expose_json
    p = e['rep']
    kw = dict(content_type=value('ct', p['ct']), language=value('lang', p['lang']),
              charset=value('cs', p['cs']), qs=None if p['qs'] == 1000 else p['qs'] / 1000)
    methods = e['methods']
    kind = e['kind']
    if kind == 'binding':
        d.add_bindings(*[Binding(e['name'], action(e['label']), method=m, **kw) for m in methods])
    elif kind == 'classview':
        body = {m: staticmethod(action(e['label'])) for m in methods}
        body['name'] = e['name']
        d.add_bindings(type('V', (ClassView,), body)())
    elif kind in ('jsonview', 'expose_json'):
        kw = {'qs': kw['qs']}
        if kind == 'jsonview':
            d.add_bindings(JsonView(e['name'], json_action(e['label']), methods=methods, **kw))
        else:
            fn = json_action(e['label'])
            if expose_json(d, e['name'], methods=methods, **kw)(fn) is not fn:
                raise AssertionError('the decorator hides the function')
    else:
        if methods == ['GET']:
            kw['methods'] = None
        elif len(methods) == 1:
            kw['methods'] = methods[0]
        else:
            kw['methods'] = iter(methods) if kind == 'view' else tuple(methods)
        if kind == 'view':
            d.add_bindings(View(e['name'], action(e['label']), **kw))
        else:
            fn = action(e['label'])
            if expose(d, e['name'], **kw)(fn) is not fn:
                raise AssertionError('the decorator hides the function')


def called(b):
    res = b(Env(), None)
    if isinstance(res, str):
        return res
    got = json.loads(res.get_data(as_text=True))
    if res.status_code == 202 and res.headers['Content-Type'] == 'text/plain' and got == record(got['label']):
        return got['label']
    if got != record(got['label']) or res.status_code != 200 or res.headers['Content-Type'] != 'application/json':
        return 'wrong JSON'
    return got['label']


def lookup(d, e):
    kw = {}
    if e['method'] != 'GET' or len(e['name']) % 2:
        kw['method'] = e['method']
    b = d.lookup(e['name'], accept=text(e['accept']), accept_language=text(e['lang']),
                 accept_charset=text(e['cs']), **kw)
    return called(b)


def observe(ds):
    out = []
    for d in ds:
        seen = {(b.name, b.method, called(b)) for b in d.get_bindings()}
        out.append({'SET': [list(x) for x in sorted(seen)]})
    return out


def run(case):
    from verktyg.dispatch import Dispatcher
    ds = [Dispatcher() for _ in range(case['init']['n'])]
    log = [{'ret': val('<None>'), 'obs': observe(ds)}]
    for e in case['ops']:
        d = ds[e['d'] - 1]
        if e['op'] == 'add':
            ret = capture(add, d, e)
        elif e['op'] == 'nest':
            ret = capture(d.add_bindings, ds[e['from'] - 1])
        else:
            ret = capture(lookup, d, e)
        log.append({'ret': ret, 'obs': observe(ds)})
    return log


NAMES = ['index', 'a', 'b', 'item', 'x.y']
METHODS = ['GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'PATCH', 'OPTIONS']
NOREP = {'ct': {'v': '<None>', 'qs': 1000}, 'lang': {'v': '<None>', 'qs': 1000},
         'cs': {'v': '<None>', 'qs': 1000}, 'qs': 1000}


def gen_rep(r):
    if r.random() < .4:
        return NOREP
    return {'ct': gen_attr(r, 'ct', .8), 'lang': gen_attr(r, 'lang', .2), 'cs': gen_attr(r, 'cs', .1),
            'qs': r.choice([1000, 1000, 500, 100])}


def gen_cases(r, n):
    out = []
    for _ in range(n):
        nd = r.randint(1, 4)
        names = r.sample(NAMES, r.randint(1, 3))
        ops = []
        for k in range(r.randint(3, 14)):
            x = r.random()
            d = r.randint(1, nd)
            if x < .45 or k == 0:
                kind = r.choice(['binding', 'view', 'view', 'expose', 'classview', 'jsonview', 'expose_json'])
                pool = ['GET', 'HEAD', 'POST', 'PUT', 'DELETE'] if kind == 'classview' else METHODS
                ms = r.sample(pool, r.choice([1, 1, 1, 2, 3]))
                rep = gen_rep(r)
                if kind == 'classview':
                    rep = NOREP
                elif kind in ('jsonview', 'expose_json'):
                    rep = dict(NOREP, ct={'v': 'application/json', 'qs': 1000}, qs=rep['qs'])
                ops.append({'op': 'add', 'kind': kind, 'd': d, 'name': r.choice(names), 'methods': ms,
                            'rep': rep, 'label': 'L%d' % k})
            elif x < .6 and nd > 1:
                o = r.choice([i for i in range(1, nd + 1) if i != d])
                ops.append({'op': 'nest', 'd': d, 'from': o})
            else:
                plain = r.random() < .5
                ops.append({'op': 'lookup', 'd': d, 'name': r.choice(names + ['nowhere'] if r.random() < .2 else names),
                            'method': r.choice(METHODS[:r.choice([2, 4, 7])]),
                            'accept': '<None>' if plain else gen_header(r, 'ct'),
                            'lang': '<None>' if plain else gen_header(r, 'lang'),
                            'cs': '<None>' if plain else gen_header(r, 'cs')})
        out.append({'init': {'n': nd}, 'ops': ops})
    return out
