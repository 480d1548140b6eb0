"""Driver: spec/HeaderForms.tla - dumping and parsing of header values."""
from core import capture, dec_text, enc, val


def none(n):
    return None if n < 0 else n


def num(n):
    return -1 if n is None else n


def show_range(r):
    if r is None:
        return None
    return {'k': 'range', 'units': r.units, 'ranges': [[a, num(b)] for a, b in r.ranges]}


def show_crange(r):
    if r is None:
        return None
    return {'k': 'crange', 'units': r.units, 'start': num(r.start), 'stop': num(r.stop), 'length': num(r.length)}


def dset(d):
    return {'SET': [[k, v] for k, v in d.items()]}


def dic(items):
    return {k: (None if v == '<None>' else dec_text(v)) for k, v in items}


def do(e):
    from verktyg import http
    op = e['op']
    if op == 'quote':
        v = dec_text(e['v'])
        if v.isascii() and http.quote_header_value(v.encode('ascii')) != http.quote_header_value(v):
            return 'octets are quoted differently'
        a, b = http.quote_header_value(v), http.quote_header_value(v, allow_token=False)
        return [a, http.unquote_header_value(a), b, http.unquote_header_value(b)]
    if op == 'unquote':
        v = dec_text(e['v'])
        return [http.unquote_header_value(v), http.unquote_header_value(v, is_filename=True)]
    if op == 'list':
        q = [dec_text(v) for v in e['q']]
        t = http.dump_header(tuple(q) if len(q) % 2 else q)
        # set headers: the same without repetitions
        hs = http.parse_set_header(t)
        want = []
        for v in q:
            if v.lower() not in [w.lower() for w in want]:
                want.append(v)
        if len(want) == len(q) and (list(hs) != q or http.parse_set_header(hs.to_header()).as_set() != hs.as_set()):
            return 'set header differs: %r' % (list(hs),)
        t2 = http.dump_header(q, allow_token=False)
        if http.parse_list_header(t2) != http.parse_list_header(t) or t2 != ', '.join(http.quote_header_value(v, allow_token=False) for v in q):
            return 'quoted list differs'
        return [t, http.parse_list_header(t)]
    if op == 'dict':
        d = dic(e['d'])
        t = http.dump_header(d)
        b = http.parse_dict_header(t.encode('latin-1')) if all(ord(c) < 256 for c in t) else http.parse_dict_header(t)
        if b != http.parse_dict_header(t):
            return 'bytes differ'
        if http.parse_dict_header(http.dump_header(d, allow_token=False)) != b:
            return 'quoted dict differs'
        return [t, dset(b)]
    if op == 'ifrange':
        r = http.IfRange(etag=dec_text(e['v']))
        p = http.parse_if_range_header(str(r))
        return [str(r), p.etag if p.date is None else 'a date', http.parse_if_range_header('W/' + str(r)).etag]
    if op == 'options':
        t = http.dump_options_header(e['name'], dic(e['d']))
        name, opts = http.parse_options_header(t)
        return [t, {'name': name, 'opts': dset(opts)}]
    if op == 'plist':
        return http.parse_list_header(dec_text(e['text']))
    if op == 'pdict':
        return dset(http.parse_dict_header(dec_text(e['text'])))
    if op == 'poptions':
        name, opts = http.parse_options_header(dec_text(e['text']))
        return {'name': name, 'opts': dset(opts)}
    if op == 'range':
        r = http.Range(e['r']['units'], [(a, none(b)) for a, b in e['r']['ranges']])
        t = r.to_header()
        if str(r) != t:
            return 'str differs'
        return [t, show_range(http.parse_range_header(t))]
    if op == 'prange':
        r = http.parse_range_header(dec_text(e['text']))
        out = []
        for n in e['lengths']:
            x = None if r is None else r.range_for_length(none(n))
            c = None if r is None else r.make_content_range(none(n))
            if (x is None) != (c is None):
                return 'make_content_range differs'
            if c is not None and ((c.start, c.stop) != x or c.length != n):
                return 'make_content_range differs'
            out.append([] if x is None else list(x))
        return [show_range(r), out]
    if op == 'crange':
        r = e['r']
        c = http.ContentRange(r['units'], none(r['start']), none(r['stop']), none(r['length']))
        t = c.to_header()
        return [t, show_crange(http.parse_content_range_header(t))]
    if op == 'pcrange':
        return show_crange(http.parse_content_range_header(dec_text(e['text'])))
    if op == 'newcrange':
        return http.ContentRange('bytes', none(e['start']), none(e['stop']), none(e['length'])).to_header()
    raise AssertionError(op)


def conv(v):
    if isinstance(v, dict):
        return {k: conv(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [conv(x) for x in v]
    return enc(v)


def run(case):
    log = [{'ret': val('<None>'), 'obs': 0}]
    for e in case['ops']:
        log.append({'ret': capture(do, e, conv=conv), 'obs': 0})
    return log


CH = list('ab,;="\\ /-') + ['\x0e', '\x10', 'é'[:0] or 'c', '\t', '.', '*', '1']


def text(r, n=10, ch=CH):
    return ''.join(r.choice(ch) for _ in range(r.randint(0, n)))


def keys(r, n):
    return r.sample(['a', 'b', 'filename', 'filename2', 'x-y', 'c.d', 'Q', '__z'], n)


def value(r):
    x = r.random()
    if x < .2:
        return r.choice(['token', 'utf-8', 'a b', '', '"', '\\', '"x"', 'C:\\dir\\f.txt', 'a"b\\c', ', ', '; x=y'])
    return text(r, 6)


def gen_opts(r):
    n = r.randint(0, 3)
    return [[k, '<None>' if r.random() < .2 else value(r)] for k in keys(r, n)]


def gen(r):
    op = r.choice(['quote', 'unquote', 'list', 'list', 'dict', 'dict', 'options', 'options', 'plist', 'pdict', 'poptions', 'poptions',
                   'range', 'prange', 'prange', 'ifrange', 'crange', 'pcrange', 'newcrange'])
    e = {'op': op}
    if op == 'quote':
        e['v'] = value(r)
    elif op == 'unquote':
        v = value(r)
        e['v'] = '"%s"' % v if r.random() < .6 else v
    elif op == 'ifrange':
        e['v'] = text(r, 6).replace('"', '')
    elif op == 'list':
        e['q'] = [value(r) for _ in range(r.randint(0, 4))]
    elif op == 'dict':
        e['d'] = gen_opts(r)
    elif op == 'options':
        e['name'] = r.choice(['text/html', 'form-data', 'a', 'x/y+z'])
        # file names that start with a backslash are read as network paths
        e['d'] = [[k, v] for k, v in gen_opts(r) if not (k == 'filename' and v.startswith('\\'))]
    elif op in ('plist', 'pdict'):
        e['text'] = text(r, 14)
    elif op == 'poptions':
        if r.random() < .5:
            e['text'] = text(r, 14)
        else:
            e['text'] = r.choice(['text/html', 'a', '', ' ']) + ''.join(
                r.choice([';', '; ', ' ; ', ';;']) + r.choice(['a', 'b', '"q k"', 'filename', '']) + r.choice(['=', ' = ', '= ', ''])
                + r.choice(['x', '"y z"', '"a;b"', '"u\\"v"', '"\\\\\\\\host"', 'w ', '', '"open', '"k"junk'])
                for _ in range(r.randint(0, 4)))
    elif op == 'range':
        rs = []
        end = 0
        for _ in range(r.randint(1, 3)):
            a = end + r.randint(0, 5)
            b = a + r.randint(1, 100)
            rs.append([a, b])
            end = b
        x = r.random()
        if x < .2:
            rs.append([-r.randint(1, 50), -1])
        elif x < .4:
            rs[-1][1] = -1
        elif x < .5:
            rs = [[-r.randint(1, 50), -1]]
        e['r'] = {'k': 'range', 'units': r.choice(['bytes', 'x']), 'ranges': rs}
    elif op == 'prange':
        e['text'] = r.choice(['bytes=', 'bytes =', ' Bytes = ', 'x=', 'bytes', '']) + ','.join(
            r.choice([' ', '', '']) + r.choice(['%d-%d' % (r.randint(0, 20), r.randint(0, 20)), '%d-' % r.randint(0, 20),
                                                '-%d' % r.randint(0, 20), '%d - %d' % (r.randint(0, 5), r.randint(3, 9)), '-', '--1', 'a-b', '5', '',
                                                '1-2-3', '+1-5', '1-x', '0x1-2', '\x181-2', '1_0-20', '-1_0', '- 5', '1.0-2'])
            for _ in range(r.choice([1, 1, 1, 2, 3])))
        e['lengths'] = [0, 1, 5, 10, 1000, -1]
    elif op in ('crange', 'newcrange'):
        a = r.randint(0, 10)
        b = a + r.randint(1, 10)
        n = r.choice([-1, b, b + 5, 1000])
        if r.random() < .3:
            a, b = -1, -1
        if op == 'crange':
            e['r'] = {'k': 'crange', 'units': r.choice(['bytes', 'X']), 'start': a, 'stop': b, 'length': n}
        else:
            e.update(start=r.choice([a, a, b]), stop=r.choice([b, b, a, -1]), length=r.choice([n, a, 0]))
    elif op == 'pcrange':
        e['text'] = r.choice(['bytes ', 'bytes  ', ' x ', 'bytes', '']) + r.choice(['*', '0-5', '5-1', '-', '1-', '-1', '0--1', 'a-b', '3 - 7', '', '10-10']) + \
            r.choice(['/', '/', '']) + r.choice(['*', '6', '0', 'x', '', '1.5', '-3', ' 7', '5*', '1/2', '\x18'])
    return e


def gen_cases(r, n):
    return [{'init': 0, 'ops': [gen(r) for _ in range(8)]} for _ in range(n)]
