"""Driver: spec/HeaderWrite.tla - every way of putting text in a header."""
import datetime
from core import CaseTimeout, dec_text, val
from d_resp import environ


def fresh():
    from verktyg.responses import Response
    r = Response('body')
    r.headers.add('X-Old', '1')
    return r


def write(op, v, resp):
    """Perform the write; returns the response that now carries it."""
    from verktyg.responses import Response
    from verktyg.http import Headers
    from verktyg.utils import redirect
    h = resp.headers
    if op == 'headers.add':
        h.add('X-N', v)
    elif op == 'headers.add_kw':
        h.add('X-N', 'attachment', filename=v)
    elif op == 'headers.set':
        h.set('X-Old', v)
    elif op == 'headers.set_kw':
        h.set('X-Old', 'form', name=v)
    elif op == 'headers.setitem':
        h['X-Old'] = v
    elif op == 'headers.setidx':
        h[0] = ('X-N', v)
    elif op == 'headers.setslice':
        h[0:1] = [('X-M', 'ok'), ('X-N', v)]
    elif op == 'headers.extend_list':
        h.extend([('X-N', v)])
    elif op == 'headers.extend_dict':
        h.extend({'X-N': v})
    elif op == 'headers.extend_dict_list':
        h.extend({'X-N': ['a', v]})
    elif op == 'headers.setdefault':
        h.setdefault('X-New', v)
    elif op == 'headers.add_header':
        h.add_header('X-N', v)
    elif op == 'ctor.list':
        resp = Response('b', headers=[('X-N', v)])
    elif op == 'ctor.dict':
        resp = Response('b', headers={'X-N': v})
    elif op == 'ctor.headers':
        resp = Response('b', headers=Headers([('X-N', v)]))
    elif op == 'ctor.content_type':
        resp = Response('b', content_type=v)
    elif op == 'ctor.mimetype':
        resp = Response('b', mimetype=v)
    elif op in ('location', 'content_location', 'content_type', 'mimetype', 'content_encoding',
                'content_md5', 'accept_ranges', 'retry_after'):
        setattr(resp, op, v)
    elif op == 'mimetype_params':
        resp.mimetype_params['charset'] = v
    elif op == 'vary.add':
        resp.vary.add(v)
    elif op == 'vary.set':
        resp.vary = ['a', v]
    elif op == 'vary.setstr':
        resp.vary = v
    elif op == 'allow.add':
        resp.allow.add(v)
    elif op == 'content_language.update':
        resp.content_language.update(['en', v])
    elif op == 'set_etag':
        resp.set_etag(v)
    elif op == 'cache_control':
        resp.cache_control['private'] = v
    elif op == 'cache_control_ext':
        resp.cache_control['x-ext'] = v
    elif op == 'www_auth_realm':
        resp.www_authenticate.set_basic('r')
        resp.www_authenticate.realm = v
    elif op == 'www_auth_basic':
        resp.www_authenticate.set_basic(v)
    elif op == 'www_auth_item':
        resp.www_authenticate['x'] = v
    elif op == 'cookie_value':
        resp.set_cookie('k', v)
    elif op == 'cookie_path':
        resp.set_cookie('k', 'v', path=v)
    elif op == 'cookie_domain':
        resp.set_cookie('k', 'v', domain=v + '.example.com')
    elif op == 'cookie_key':
        resp.set_cookie(v, 'v')
    elif op == 'delete_cookie_path':
        resp.delete_cookie('k', path=v)
    elif op == 'content_range_str':
        resp.content_range = v
    elif op == 'redirect':
        resp = redirect(v)
    elif op == 'bytes_value':
        h['X-Old'] = v.encode('latin-1')
    else:
        raise AssertionError(op)
    return resp


def emitted(resp):
    seen = []

    def start_response(status, headers, exc_info=None):
        seen.extend(headers)
        return lambda d: None
    it = resp(environ('GET'), start_response)
    list(it)
    it.close()
    return seen


def dirty(pairs):
    return any('\r' in str(x) or '\n' in str(x) for p in pairs for x in p)


def run(case):
    resp = fresh()
    log = [{'ret': val('<None>'), 'obs': {'unsafe': False}}]
    for e in case['ops']:
        v = dec_text(e['v'])
        hasbreak = '\r' in v or '\n' in v
        before = list(resp.headers)
        unsafe = False
        try:
            resp = write(e['op'], v, resp)
            outcome = 'accepted'
        except CaseTimeout:
            raise
        except Exception as x:
            outcome = 'rejected:' + type(x).__name__
            if list(resp.headers) != before and not e['op'].startswith(
                    ('headers.extend', 'www_auth_realm')):
                outcome = 'rejected but changed'
        try:
            unsafe = dirty(emitted(resp)) or dirty(list(resp.headers)) or \
                str(resp.headers).count('\n') != len(list(resp.headers)) + 1
        except Exception:
            # refusing to send at all is safe, but not for a clean text
            if not hasbreak:
                outcome = 'cannot send'
            resp = fresh()
        if unsafe:
            resp = fresh()
        if hasbreak and outcome != 'rejected but changed':
            outcome = 'safe'
        log.append({'ret': val(outcome), 'obs': {'unsafe': unsafe}})
    return log


OPS = None
CLEAN = ['plain', 'a-b', 'x.y', 'en', 'abc123']


def gen_cases(r, n):
    from d_headers import BREAKS
    ops = entry_points()
    out = []
    for _ in range(n):
        seq = []
        for _ in range(r.randint(1, 6)):
            if r.random() < .4:
                v = r.choice(CLEAN)
            else:
                parts = [r.choice(['a', 'b c', ';', '"', 'http://x/', '', '\\', ',', '=', '%0d%0a', '\t'])
                         for _ in range(r.randint(0, 2))]
                parts.insert(r.randint(0, len(parts)), r.choice(BREAKS))
                v = ''.join(parts)
            seq.append({'op': r.choice(ops), 'v': v})
        out.append({'init': {'dummy': 0}, 'ops': seq})
    return out


def entry_points():
    import os
    import re
    from core import SPEC
    text = open(os.path.join(SPEC, 'HeaderWrite.tla')).read()
    body = text.split('EntryPoints ==')[1].split('}')[0]
    return re.findall(r'"([^"]+)"', body)
