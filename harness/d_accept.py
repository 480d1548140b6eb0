"""Driver: spec/Accept.tla on verktyg.accept."""
from core import CaseTimeout, capture, dec, enc, exc, exc_name, val


def text(h):
    return None if h == '<None>' else h


def value(kind, a):
    from verktyg.accept.content_type import ContentType
    from verktyg.accept.language import Language
    from verktyg.accept.charset import Charset
    if a['v'] == '<None>':
        return None
    cls = {'ct': ContentType, 'lang': Language, 'cs': Charset}[kind]
    if a['qs'] == 1000:
        return a['v']
    return cls(a['v'], qs=a['qs'] / 1000)


def as_value(kind, a):
    from verktyg.accept.content_type import ContentType
    from verktyg.accept.language import Language
    from verktyg.accept.charset import Charset
    cls = {'ct': ContentType, 'lang': Language, 'cs': Charset}[kind]
    return cls(a['v'], qs=None if a['qs'] == 1000 else a['qs'] / 1000)


def parser(kind):
    from verktyg.accept.content_type import parse_accept_header
    from verktyg.accept.language import parse_accept_language_header
    from verktyg.accept.charset import parse_accept_charset_header
    return {'ct': parse_accept_header, 'lang': parse_accept_language_header,
            'cs': parse_accept_charset_header}[kind]


def representation(p):
    from verktyg.accept import Representation
    return Representation(
        content_type=value('ct', p['ct']), language=value('lang', p['lang']),
        charset=value('cs', p['cs']), qs=None if p['qs'] == 1000 else p['qs'] / 1000)


def select(reprs, e):
    from verktyg.accept import select_representation
    order = list(reversed(reprs)) if e['order'] == 'rev' else list(reprs)
    kw = {}
    for arg, key, kind in (('accept', 'accept', 'ct'), ('accept_language', 'lang', 'lang'),
                           ('accept_charset', 'cs', 'cs')):
        h = text(e[key])
        if h is not None and e.get('form') == 'parsed':
            try:
                h = parser(kind)(h)
            except ValueError:
                pass
        kw[arg] = h
    got = select_representation(order, **kw)
    return [i for i, x in enumerate(reprs, 1) if x is got][0]


def thousandths(x):
    return int(round(x * 1000000))


def one_value(e):
    accept = parser(e['kind'])(e['header'])
    v = as_value(e['kind'], e['a'])
    try:
        a = v.acceptability(accept)
    except Exception:
        if v in accept:
            return 'excluded but contained'
        try:
            accept[v]
            return 'excluded but found'
        except KeyError:
            pass
        raise
    if v not in accept:
        return 'acceptable but not contained'
    if not accept[v] == a:
        return 'lookup differs'
    k = e['kind']
    # how close the range that decided is, from the details of the answer
    if k == 'ct':
        closeness = 2 * bool(a.type_matches) + bool(a.subtype_matches)
        if (v.type + '/' + v.subtype, v.to_header(), a.content_type) != (v.value, v.value, v):
            return 'parts differ'
    elif k == 'lang':
        closeness = 900 - 20 * a.tail + a.specificity
        if a.language is not v:
            return 'parts differ'
    else:
        closeness = int(a.exact_match)
        if a.charset is not v:
            return 'parts differ'
    if str(v) != v.value:
        return 'text differs'
    return {'quality': thousandths(a.quality), 'exact': bool(a.exact_match), 'closeness': closeness}


def make(e):
    from verktyg.accept.content_type import ContentTypeAccept
    from verktyg.accept.language import LanguageAccept
    from verktyg.accept.charset import CharsetAccept
    cls = {'ct': ContentTypeAccept, 'lang': LanguageAccept, 'cs': CharsetAccept}[e['kind']]
    opts = []
    for o in e['opts']:
        t = (o['v'], o['q'] / 1000, dict(map(tuple, o['params'])))
        opts.append(o['v'] if o['form'] == 'str' else t[:2] if o['form'] == 'two' else t)
    a = cls(opts)
    if a.to_header() != str(a) or [str(x) for x in a] != [x.to_header() for x in a]:
        return 'texts differ'
    return enc(a.to_header())


def order(reprs, e):
    kw = {}
    for arg, key, kind in (('accept', 'accept', 'ct'), ('accept_language', 'lang', 'lang'),
                           ('accept_charset', 'cs', 'cs')):
        h = text(e[key])
        anything = '*/*' if kind == 'ct' else '*'
        try:
            kw[arg] = parser(kind)(anything if h is None else h)
        except ValueError:
            kw[arg] = parser(kind)(anything)
    x = reprs[e['i'] - 1].acceptability(**kw)
    y = reprs[e['j'] - 1].acceptability(**kw)
    res = 'gt' if x > y else 'lt' if x < y else 'eq'
    table = {'gt': (True, False, False, True, False), 'lt': (False, True, False, False, True),
             'eq': (False, False, True, True, True)}
    if (x > y, x < y, x == y, x >= y, x <= y) != table[res]:
        return 'inconsistent %s' % ((x > y, x < y, x == y, x >= y, x <= y),)
    return res


def ranges(accept):
    return [{'v': enc(r.value), 'q': int(round(r.q * 1000)),
             'params': {'SET': [[k, v] for k, v in r.params.items()]}} for r in accept]


def parse(e):
    accept = parser(e['kind'])(e['header'])
    res = ranges(accept)
    again = ranges(parser(e['kind'])(accept.to_header()))
    if again != res:
        return {'dumped': accept.to_header(), 'first': res, 'second': again}
    return res


def run(case):
    reprs = [representation(p) for p in case['init']['reprs']]
    log = [{'ret': val('<None>'), 'obs': {'n': len(reprs)}}]
    for e in case['ops']:
        op = e['op']
        if op == 'select':
            ret = capture(select, reprs, e, conv=lambda x: x)
        elif op == 'value':
            ret = capture(one_value, e, conv=lambda x: x)
        elif op == 'make':
            ret = capture(make, e, conv=lambda x: x)
        elif op == 'order':
            ret = capture(order, reprs, e, conv=lambda x: x)
        else:
            ret = capture(parse, e, conv=lambda x: x)
        log.append({'ret': ret, 'obs': {'n': len(reprs)}})
    return log


# --------------------------------------------------------------------------
TYPES = ['text', 'image', 'application']
SUBS = ['html', 'plain', 'png', 'xml', 'xhtml+xml', 'vnd.a+json', 'x-y']
LANGS = ['en', 'en-gb', 'en-us', 'en-gb-oed', 'fr', 'fr-be', 'e', 'de']
CHARSETS = ['utf-8', 'ascii', 'iso-8859-1', 'iso-8859-15', 'utf-16']
QS = ['1', '0', '0.5', '0.8', '0.1', '0.333', '0.25', '1.0', '0.0', '0.000', '2', '0.05', '0.001']
BAD = ['', 'text', 'text/', '/html', '*;q', 'text/html;q=abc', 'text/html;level', 'text/html;q=', '-', '@/x',
       ' ', ',', 'text/html,,*/*', 'text html', '*/']


def gen_value(r, kind):
    if kind == 'ct':
        return '%s/%s' % (r.choice(TYPES[:2 + r.randint(0, 1)]), r.choice(SUBS[:r.choice([2, 4, 7])]))
    return r.choice(LANGS if kind == 'lang' else CHARSETS)


def gen_range(r, kind):
    x = r.random()
    if kind == 'ct':
        v = ('*/*' if x < .25 else r.choice(TYPES) + '/*' if x < .45 else
             '*/' + r.choice(SUBS) if x < .5 else gen_value(r, kind))
    else:
        v = '*' if x < .25 else gen_value(r, kind)
    s = r.choice(['', '', ' ']) + v
    ps = []
    if kind == 'ct' and r.random() < .15:
        ps += [r.choice([';level=1', '; a=b', ';charset=utf-8;x=', ';level=2;level=3'])]
    if r.random() < .6:
        ps += [r.choice([';q=', '; q=', ' ;q = ']) + r.choice(QS)]
    r.shuffle(ps)
    return s + ''.join(ps)


def gen_header(r, kind, bad=.05):
    if r.random() < .15:
        return '<None>'
    if r.random() < bad:
        return r.choice(BAD + (['en;a=b', 'x;q=0.5;a=1'] if kind != 'ct' else ['text/html/x']))
    return ','.join(gen_range(r, kind) for _ in range(r.randint(1, 5)))


def gen_attr(r, kind, p):
    if r.random() > p:
        return {'v': '<None>', 'qs': 1000}
    return {'v': gen_value(r, kind), 'qs': r.choice([1000, 1000, 1000, 500, 250])}


def gen_repr(r):
    mode = r.choice(['ct', 'ct', 'all', 'all', 'lang', 'cs'])
    return {'ct': gen_attr(r, 'ct', .9 if mode in ('ct', 'all') else .2),
            'lang': gen_attr(r, 'lang', .9 if mode in ('lang', 'all') else .1),
            'cs': gen_attr(r, 'cs', .9 if mode in ('cs', 'all') else .1),
            'qs': r.choice([1000, 1000, 500, 900, 0, 100])}


def gen_cases(r, n):
    out = []
    for _ in range(n):
        reprs = [gen_repr(r) for _ in range(r.randint(1, 5))]
        ops = []
        for _ in range(r.randint(2, 6)):
            x = r.random()
            heads = {'accept': gen_header(r, 'ct'), 'lang': gen_header(r, 'lang'), 'cs': gen_header(r, 'cs')}
            if x < .65:
                ops.append({'op': 'select', 'order': r.choice(['fwd', 'rev']), **heads})
                if r.random() < .2:
                    ops[-1]['form'] = 'parsed'
            elif x < .8:
                k = r.choice(['ct', 'lang', 'cs'])
                h = gen_header(r, k)
                a = gen_attr(r, k, 1)
                ops.append({'op': 'value', 'kind': k, 'a': a,
                            'header': '*/*' if h == '<None>' and k == 'ct' else '*' if h == '<None>' else h})
            elif x < .93:
                ops.append({'op': 'order', 'i': r.randint(1, len(reprs)), 'j': r.randint(1, len(reprs)), **heads})
            else:
                k = r.choice(['ct', 'lang', 'cs'])
                if r.random() < .4:
                    opts = []
                    for _ in range(r.randint(1, 3)):
                        f = r.choice(['str', 'two', 'three', 'three'])
                        opts.append({'form': f,
                                     'v': r.choice(['*/*', 'text/*'] if k == 'ct' else ['*', 'en;', '']) if r.random() < .3
                                     else gen_value(r, k),
                                     'q': 1000 if f == 'str' else r.choice([1000, 0, 500, 333, 50, 1, 250]),
                                     'params': [['level', '1'], ['a', 'b']][:r.randint(0, 2)]
                                     if f == 'three' and (k == 'ct' or r.random() < .2) else []})
                    ops.append({'op': 'make', 'kind': k, 'opts': opts})
                    continue
                h = gen_header(r, k, .2)
                ops.append({'op': 'parse', 'kind': k, 'header': 'en' if h == '<None>' else h})
        out.append({'init': {'reprs': reprs}, 'ops': ops})
    return out
