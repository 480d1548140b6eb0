"""Driver: spec/Conditional.tla - entity tags and conditional requests."""
import datetime
import hashlib
import re
from core import CaseTimeout, capture, exc, exc_name, val, enc
from d_resp import environ, serve

DAY = datetime.datetime(2011, 3, 5, 7, 8, 9)
BODIES = ['', 'a', 'abc', 'body', 'other']
_MD5 = {hashlib.md5(b.encode()).hexdigest(): '#%s#' % b for b in BODIES}


def real(t):
    """'#abc#' stands for the hash of abc."""
    if t == '<None>':
        return None
    return re.sub('#([a-z]*)#', lambda m: hashlib.md5(m.group(1).encode()).hexdigest(), t)


def spec(t):
    if isinstance(t, str):
        for h, n in _MD5.items():
            t = t.replace(h, n)
        return t
    if isinstance(t, (list, tuple)):
        return [spec(x) for x in t]
    return enc(t)


def moment(s):
    return DAY + datetime.timedelta(seconds=s)


FORMS = ['%a, %d %b %Y %H:%M:%S GMT', '%A, %d-%b-%y %H:%M:%S GMT', '%a %b %d %H:%M:%S %Y']
BADDATES = ['yesterday', '', '0', 'Foo, 99 Bar 2011 00:00:00 GMT']


def request_env(e):
    env = environ(e['method'])
    if e['inm'] != '<None>':
        env['HTTP_IF_NONE_MATCH'] = real(e['inm'])
    ims = e['ims']
    if ims['k'] == 'ok':
        env['HTTP_IF_MODIFIED_SINCE'] = moment(ims['s']).strftime(FORMS[(ims['s'] + len(e['inm'])) % 3])
    elif ims['k'] == 'bad':
        env['HTTP_IF_MODIFIED_SINCE'] = BADDATES[ims['s'] % len(BADDATES)]
    return env


def do(resp, e):
    from verktyg import http
    from verktyg.requests import Request
    op = e['op']
    if op == 'set_etag':
        return resp.set_etag(real(e['v']), e['weak'])
    if op == 'add_etag':
        return resp.add_etag(overwrite=e['overwrite'], weak=e['weak'])
    if op == 'freeze':
        resp.freeze(no_etag=not e['tag'])
        if not resp.is_sequence or resp.headers.get('content-length') != str(len(resp.get_data())):
            return 'not frozen'
        return None
    if op == 'get_etag':
        return spec(resp.get_etag())
    if op == 'set_data':
        return resp.set_data(e['v'])
    if op == 'last_modified':
        resp.last_modified = None if e['s'] < 0 else moment(e['s'])
        return None
    if op == 'conditional':
        env = request_env(e)
        target = env if len(e['inm']) % 2 else Request(env)
        if resp.make_conditional(target) is not resp:
            return 'not itself'
        known = resp.headers.get('Content-Length', '<None>') if e['method'] in ('GET', 'HEAD') else '<None>'
        seen, out, raised = serve(resp, env, -1)
        hs = {k.lower(): v for k, v in seen['headers']}
        if e['method'] in ('GET', 'HEAD') and 'date' not in hs:
            return 'no date'
        return {'status': int(seen['status'].split()[0]), 'known': known, 'body': b''.join(out).decode('latin-1'),
                'etag': spec(hs.get('etag', '<None>')), 'length': hs.get('content-length', '<None>')}
    if op == 'check':
        kw = {}
        if e['hashed']:
            kw['data'] = e['own'].encode()
        elif e['own'] != '<None>':
            kw['etag'] = real(e['own'])
        if e['lm'] >= 0:
            d = moment(e['lm'])
            kw['last_modified'] = http.http_date(d) if e['lm'] % 2 else d.replace(microsecond=e['lm'] * 37 % 1000000)
        if len(e['inm']) % 3 == 0 and e['own'] != '<None>':
            # a tag and what to make one of contradict each other
            try:
                http.is_resource_modified(request_env(e), **dict({'etag': 'x', 'data': b'abc'}, **kw))
                return 'both taken'
            except TypeError:
                pass
        return bool(http.is_resource_modified(request_env(e), **kw))
    if op == 'parse':
        t = http.parse_etags(real(e['text']))
        probe = real(e['probe'])

        def tags(t):
            strong = t.as_set()
            return {'strong': {'SET': [spec(x) for x in strong]},
                    'weak': {'SET': [spec(x) for x in t.as_set(True) - strong]
                             + [spec(x) for x in strong if t.is_weak(x)]},
                    'star': bool(t.star_tag)}
        again = http.parse_etags(t.to_header())
        if tags(again) != tags(t) and not (
                sorted(map(str, tags(again)['strong']['SET'])) == sorted(map(str, tags(t)['strong']['SET']))
                and sorted(map(str, tags(again)['weak']['SET'])) == sorted(map(str, tags(t)['weak']['SET']))):
            if '"' not in str(sorted(map(str, t.as_set(True)))):
                return 'does not survive dumping: %r' % t.to_header()
        v = http.unquote_etag(probe)[0]
        if v is None:
            v = ''
        if (v in t) != t.contains(v):
            return 'in differs'
        if set(t) != t.as_set() or str(t) != t.to_header():
            return 'iteration or text differ'
        if not t.star_tag and (t(v), t(v, include_weak=True)) != (t.contains(v), t.contains_weak(v)):
            return 'call differs'
        if not t.star_tag:
            d = v.encode('utf-8')
            h = http.generate_etag(d)
            both = http.ETags(t.as_set() | {h}, [])
            if not both(data=d) or t(data=d) != t.contains(h) or not http.ETags([], [h])(data=d, include_weak=True) \
                    or http.ETags([], [h])(data=d):
                return 'call with data differs'
        return {'tags': tags(t), 'raw': bool(t.contains_raw(probe)) if probe else t.contains(''),
                'strong': bool(t.contains(v)), 'any': bool(t.contains_weak(v)), 'bool': bool(t)}
    if op == 'quote':
        q = http.quote_etag(real(e['v']), e['weak'])
        v, weak = http.unquote_etag(q)
        return [spec(q), spec(v), weak]
    raise AssertionError(op)


def run(case):
    from verktyg.responses import (
        BaseResponse, CommonResponseDescriptorsMixin, ETagResponseMixin)

    class Response(ETagResponseMixin, BaseResponse, CommonResponseDescriptorsMixin):
        pass
    c = case['init']
    body = c['body']
    if c.get('stream'):
        body = (x for x in c['body'])
    resp = Response(body, status=c['status'])

    def observe():
        return {'status': resp.status_code, 'etag': spec(resp.headers.get('etag', '<None>'))}
    log = [{'ret': val('<None>'), 'obs': observe()}]
    for e in case['ops']:
        log.append({'ret': capture(do, resp, e, conv=lambda x: enc(x) if x is None else x), 'obs': observe()})
    return log


TAGS = ['a', 'b', 'x,y', 'a b', '*', '#abc#', '#a#', 'w/a', 'A', '', '\\', 'x', '1-2', ',', "'"]


def gen_tag_text(r):
    v = r.choice(TAGS)
    x = r.random()
    if x < .5:
        return '"%s"' % v
    if x < .75:
        return r.choice(['w/', 'W/']) + '"%s"' % v
    return r.choice(['a', 'b', '*', '#abc#', 'w/a', 'xyz', 'W/b', '', 'a b', '"', '"a', 'b"'])


def gen_inm(r):
    if r.random() < .2:
        return '<None>'
    return r.choice([', ', ',', ' , ']).join(gen_tag_text(r) for _ in range(r.randint(1, 4))) + r.choice(['', '', '', ' ', ','])


def gen_ims(r):
    x = r.random()
    return {'k': 'none' if x < .4 else 'bad' if x < .5 else 'ok', 's': r.choice([0, 1, 2, 100, 101, 86400])}


def gen_cases(r, n):
    out = []
    for _ in range(n):
        ops = []
        for _ in range(r.randint(2, 8)):
            x = r.random()
            if x < .2:
                ops.append({'op': 'set_etag', 'v': r.choice(TAGS + ['q"r']), 'weak': r.random() < .4})
            elif x < .28:
                ops.append({'op': 'add_etag', 'overwrite': r.random() < .5, 'weak': r.random() < .5})
            elif x < .31:
                ops.append({'op': 'freeze', 'tag': r.random() < .5})
            elif x < .35:
                ops.append({'op': 'get_etag'})
            elif x < .42:
                ops.append({'op': 'set_data', 'v': r.choice(BODIES)})
            elif x < .52:
                ops.append({'op': 'last_modified', 's': r.choice([0, 1, 2, 100, 101, -1])})
            elif x < .75:
                ops.append({'op': 'conditional', 'method': r.choice(['GET', 'GET', 'HEAD', 'POST']),
                            'inm': gen_inm(r), 'ims': gen_ims(r)})
            elif x < .88:
                hashed = r.random() < .2
                ops.append({'op': 'check', 'method': r.choice(['GET', 'GET', 'HEAD', 'PUT']),
                            'inm': gen_inm(r), 'ims': gen_ims(r), 'hashed': hashed,
                            'own': r.choice(BODIES) if hashed else '<None>' if r.random() < .15 else gen_tag_text(r),
                            'lm': r.choice([-1, 0, 1, 2, 100, 101])})
            elif x < .95:
                ops.append({'op': 'parse', 'text': gen_inm(r), 'probe': gen_tag_text(r)})
            else:
                ops.append({'op': 'quote', 'v': r.choice(TAGS + ['"', 'a"']), 'weak': r.random() < .5})
        # serving a stream uses it up, and only GET and HEAD buffer it before
        stream = r.random() < .3 and not any(o['op'] == 'conditional' and o['method'] == 'POST' for o in ops)
        out.append({'init': {'status': r.choice([200, 200, 200, 404]), 'body': r.choice(BODIES),
                             'stream': stream}, 'ops': ops})
    return out
