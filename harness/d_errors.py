"""Driver: spec/Errors.tla on verktyg.exceptions."""
import copy

from core import capture, dec_text, val

NO = '<None>'
ALSO = {'KeyError': KeyError, 'LookupError': LookupError, 'ValueError': ValueError}
STD = ['HTTPException', 'BadRequest', 'ClientDisconnected', 'SecurityError', 'Unauthorized', 'Forbidden', 'NotFound',
       'MethodNotAllowed', 'NotAcceptable', 'RequestTimeout', 'Conflict', 'Gone', 'LengthRequired', 'PreconditionFailed',
       'RequestEntityTooLarge', 'RequestURITooLarge', 'UnsupportedMediaType', 'RequestedRangeNotSatisfiable',
       'ExpectationFailed', 'ImATeapot', 'UnprocessableEntity', 'PreconditionRequired', 'TooManyRequests',
       'RequestHeaderFieldsTooLarge', 'InternalServerError', 'NotImplemented', 'BadGateway', 'ServiceUnavailable',
       'GatewayTimeout', 'HTTPVersionNotSupported', 'BadRequestKeyError']


class World:
    def __init__(self, c):
        from verktyg import exceptions
        self.x = exceptions
        self.classes = {n: getattr(exceptions, n) for n in STD}
        self.texts = {}
        for n in STD:
            self.texts.setdefault(self.classes[n].description, '*' + n)
        for k in c['classes']:
            body = {}
            if k['code']:
                body['code'] = k['code']
            if k['desc'] != NO:
                body['description'] = dec_text(k['desc'])
            self.classes[k['name']] = type(k['name'], (self.classes[k['base']],), body)
        self.own = {}
        self.aborters = [exceptions.abort]
        self.wrapped = {'BadRequestKeyError'}

    def args(self, cls, e):
        """What the error is made of, in order or by name."""
        a, kw = e['a'], {}
        args = []
        if hasattr(cls, '__mro__') and any(k.__name__ in self.wrapped for k in cls.__mro__):
            if a['arg'] != NO:
                args.append(a['arg'])
            elif not e['kw']:
                args.append(None)
        if issubclass(cls, self.x.MethodNotAllowed):
            if a['methods'] != NO:
                kw['valid_methods'] = a['methods'].split(',')
            elif not e['kw']:
                kw['valid_methods'] = None
        if a['desc'] != NO:
            kw['description'] = dec_text(a['desc'])
        elif not e['kw']:
            kw['description'] = None
        if a['resp'] != NO:
            kw['response'] = self.response(a['resp'])
        if not e['kw']:
            return args + list(kw.values()), {}
        return args, kw

    def response(self, r):
        from verktyg.responses import Response
        self.last = Response(r)
        return self.last

    def about(self, x):
        cls = type(x)
        d = x.description
        methods = NO
        if isinstance(x, self.x.MethodNotAllowed):
            methods = NO if x.valid_methods is None else ','.join(x.valid_methods)
        arg = NO
        if any(k.__name__ in self.wrapped for k in cls.__mro__):
            arg = NO if not x.args or x.args[0] is None else x.args[0]
        resp = NO
        if x.response is not None:
            resp = x.response.get_data(as_text=True) if x.response is self.last else 'another response'
        out = {'cls': cls.__name__, 'code': x.code or 0, 'name': x.name,
               'desc': NO if d is None else self.texts.get(d, d), 'resp': resp,
               'methods': methods, 'arg': arg, 'text': str(x), 'repr': repr(x),
               'isa': {'SET': sorted({n for n, k in list(self.classes.items()) + list(ALSO.items()) + [('Exception', Exception)]
                                      if isinstance(x, k)})}}
        return out

    def shown(self, x):
        out = self.about(x)
        if self.about(copy.copy(x)) != out:
            return dict(out, text='its copy is another one')
        return out

    def raised(self, i, *args, **kw):
        try:
            self.aborters[i](*args, **kw)
        except self.x.HTTPException as x:
            return self.shown(x)
        return 'nothing was raised'

    def step(self, e):
        op = e['op']
        if op == 'make':
            cls = self.classes[e['cls']]
            args, kw = self.args(cls, e)
            return self.shown(cls(*args, **kw))
        if op == 'wrap':
            args = () if e['name'] == NO else (e['name'],)
            k = self.classes[e['cls']].wrap(ALSO[e['also']], *args)
            self.classes[k.__name__] = k
            self.wrapped.add(k.__name__)
            return k.__name__
        if op == 'put':
            self.own[e['code']] = self.classes[e['cls']]
            return NO
        if op == 'aborter':
            m = {'default': None, 'own': self.own, 'none': {}}
            kw = {}
            if e['map'] != 'default':
                kw['mapping'] = m[e['map']]
            if e['extra'] != 'none':
                kw['extra'] = m[e['extra']]
            self.aborters.append(self.x.Aborter(**kw))
            return NO
        if op == 'abort':
            ab = self.aborters[e['i'] - 1]
            cls = ab.mapping.get(e['code'])
            args, kw = self.args(cls, e) if cls is not None else (['x'], {})
            return self.raised(e['i'] - 1, e['code'], *args, **kw)
        if op == 'answer':
            return self.raised(0, self.response(e['resp']))
        if op == 'standard':
            return {'SET': [[k, v.__name__] for k, v in sorted(self.x.default_exceptions.items())]}
        raise AssertionError(op)


def run(case):
    w = World(case['init'])
    return [{'ret': val(NO), 'obs': 0}] + [{'ret': capture(w.step, e), 'obs': 0} for e in case['ops']]


# ---- cases -----------------------------------------------------------------
def gen_cases(r, n):
    out = []
    for _ in range(n):
        classes = []
        names = list(STD)
        base = {k: None for k in STD}
        for i in range(r.randint(0, 3)):
            k = {'name': 'K%d' % i, 'base': r.choice(names), 'code': r.choice([0, 0, 404, 402, 451, 599, 200]),
                 'desc': r.choice([NO, NO, 'told', '', '\x0e'])}
            base[k['name']] = k['base']
            names.append(k['name'])
            classes.append(k)
        double, both, meth = set(), {'BadRequestKeyError'}, {'MethodNotAllowed'}

        def up(k):
            while k:
                yield k
                k = base[k]
        ops, aborters = [], 1
        for _ in range(r.randint(3, 12)):
            x = r.random()

            def given(known=None):
                a = {'desc': r.choice([NO, NO, 'said', '', '\x0e <b>']), 'resp': NO, 'methods': NO, 'arg': NO}
                k = known or r.choice(names)
                mna = 'MethodNotAllowed' in up(k)
                wraps = sum(u in both for u in up(k))
                if mna:
                    a['methods'] = r.choice([NO, 'GET', 'GET,HEAD,X'])
                elif r.random() < .3:
                    a['resp'] = r.choice(['r', 'other'])
                if wraps and r.random() < .6:
                    a['arg'] = r.choice(['key', 'k'])
                return k, a, wraps > 1 or r.random() < .6
            if x < .35:
                k, a, kw = given()
                ops.append({'op': 'make', 'cls': k, 'a': a, 'kw': kw})
            elif x < .5:
                k, also, name = r.choice(names), r.choice(list(ALSO)), r.choice([NO, NO, 'Both'])
                new = k + also if name == NO else name
                if new in names:
                    continue
                ops.append({'op': 'wrap', 'cls': k, 'also': also, 'name': name})
                names.append(new)
                base[new] = k
                both.add(new)
            elif x < .62:
                ops.append({'op': 'put', 'code': r.choice([1, 404, 405, 499, 700]), 'cls': r.choice(names)})
            elif x < .74:
                ops.append({'op': 'aborter', 'map': r.choice(['default', 'default', 'own', 'none']), 'extra': r.choice(['own', 'none'])})
                aborters += 1
            elif x < .94:
                _, a, kw = given('NotFound')
                ops.append({'op': 'abort', 'i': r.randint(1, aborters), 'code': r.choice([1, 404, 404, 405, 499, 700, 400, 403, 500, 505, 200]),
                            'a': dict(a, resp=NO), 'kw': True})
            else:
                ops.append(r.choice([{'op': 'answer', 'resp': 'r'}, {'op': 'standard'}]))
        out.append({'init': {'classes': classes}, 'ops': ops})
    return out
