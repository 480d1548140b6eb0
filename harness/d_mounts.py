"""Driver: spec/Mounts.tla - DispatcherMiddleware and SharedDataMiddleware.
All files are inside a scratch directory made for the case."""
import importlib
import os
import shutil
import sys
import tempfile
import warnings

from core import capture, dec_text, enc, val

T0 = 1400000000
FILES = [('pub/a.txt', 'first'), ('pub/b.html', '<p>'), ('pub/sub/c.css', 'c'), ('pub/sub/a.txt', 'other a'), ('pub/.hid', 'h'), ('pub/e.txt', ''),
         ('secret.txt', 's3cret'), ('pub2/s.txt', 's2'), ('pub/a b.bin', 'bb')]


def call(app, env):
    got = {}

    def start_response(status, headers, exc_info=None):
        got['status'], got['headers'] = status, headers
        return lambda b: None
    it = app(env, start_response)
    body = b''.join(it)
    if hasattr(it, 'close'):
        it.close()
    return got['status'], got['headers'], body


class World:
    def __init__(self, c, root):
        from verktyg.wsgi import DispatcherMiddleware, SharedDataMiddleware
        self.c, self.root, self.clock, self.seen = c, root, 0, {}
        self.hit = []

        def app(name):
            def run(env, start_response):
                self.hit.append((name, env.get('SCRIPT_NAME'), env.get('PATH_INFO')))
                start_response('200 OK', [])
                return [b'app']
            return run
        mounts = {}
        for m in c['mounts']:
            p = m['prefix']
            if m['inner']:
                mounts[p] = DispatcherMiddleware(app('inner:' + p), {q: app('app:%s|%s' % (p, q)) for q in m['inner']})
            else:
                mounts[p] = app('app:' + p)
        self.disp = DispatcherMiddleware(app('default'), mounts or None)
        self.shared = None
        if c['exports']:
            for d in ('pub/sub', 'pub2'):
                os.makedirs(os.path.join(root, d))
            for p, t in FILES:
                self.write(p, t)
            dis = c['disallow'] or None
            if dis and len(dis) == 1 and c['single']:
                dis = dis[0]
            def target(x):
                if x['kind'] == 'pkg':
                    name = os.path.basename(root)
                    open(os.path.join(root, '__init__.py'), 'w').close()
                    if os.path.dirname(root) not in sys.path:
                        sys.path.append(os.path.dirname(root))
                    importlib.invalidate_caches()
                    return (name, x['target'])
                return os.path.join(root, x['target'])
            self.shared = SharedDataMiddleware(
                app('wrapped'), {x['prefix']: target(x) for x in c['exports']}, disallow=dis,
                cache=c['cache'], cache_timeout=c['timeout'], fallback_mimetype=c['fallback'])

    def write(self, p, t):
        p = os.path.join(self.root, p)
        with open(p, 'w') as f:
            f.write(t)
        os.utime(p, (T0 + self.clock, T0 + self.clock))

    def do(self, e):
        from verktyg.http import http_date, parse_date
        import calendar
        import datetime as dt
        op = e['op']
        del self.hit[:]
        env = {'REQUEST_METHOD': e.get('method', 'GET'), 'SCRIPT_NAME': e.get('script', ''), 'PATH_INFO': e.get('path', '')}
        if op == 'dispatch':
            if not env['SCRIPT_NAME'] and len(e['path']) % 2:
                del env['SCRIPT_NAME']
            call(self.disp, env)
            if len(self.hit) != 1:
                return 'hits %r' % (self.hit,)
            return dict(zip(('app', 'script', 'path'), self.hit[0]))
        if op == 'write':
            self.clock += 10
            return self.write(e['path'], e['text'])
        if op == 'remove':
            p = os.path.join(self.root, e['path'])
            if os.path.exists(p):
                os.unlink(p)
            return None
        seen = self.seen.setdefault(e['path'], [])
        inm = {'none': None, 'star': '*', 'other': '"other"', 'last': seen and seen[-1][0] or None, 'first': seen and seen[0][0] or None,
               'both': seen and '%s, %s' % (seen[0][0], seen[-1][0]) or None}[e['inm']]
        ims = {'none': None, 'past': T0 - 100, 'future': T0 + 1000000, 'last': seen and seen[-1][1] or None, 'first': seen and seen[0][1] or None}[e['ims']]
        if inm:
            env['HTTP_IF_NONE_MATCH'] = inm
        if ims is not None:
            env['HTTP_IF_MODIFIED_SINCE'] = http_date(ims)
        status, headers, body = call(self.shared, env)
        h = {k.lower(): v for k, v in headers}
        if len(h) != len(headers):
            return 'repeated header %r' % (headers,)
        if self.hit:
            if self.hit != [('wrapped', '', e['path'])] or body != b'app':
                return 'app called with %r' % (self.hit,)
            return {'k': 'app', 'path': e['path']}
        now = dt.datetime.utcnow()
        if abs((parse_date(h['date']) - now).total_seconds()) > 30:
            return 'date'
        if status.startswith('304'):
            if body or 'content-length' in h:
                return 'content in 304'
            return {'k': 'unchanged', 'cache': h['cache-control']}
        if not status.startswith('200'):
            return status
        lm = calendar.timegm(parse_date(h['last-modified']).timetuple())
        if self.c['cache']:
            seen.append((h['etag'], lm))
        exp = 'expires' in h
        if exp and abs((parse_date(h['expires']) - now).total_seconds() - self.c['timeout']) > 30:
            return 'expires'
        return {'k': 'file', 'text': body.decode(), 'type': h['content-type'], 'length': h['content-length'], 'm': lm - T0,
                'tag': 'etag' in h, 'cache': h['cache-control'], 'expires': exp}


def run(case):
    root = tempfile.mkdtemp(prefix='vtlamount_')
    warnings.simplefilter('ignore')
    try:
        w = World(case['init'], root)
        log = [{'ret': val('<None>'), 'obs': 0}]
        for e in case['ops']:
            log.append({'ret': capture(lambda: w.do(e), conv=enc), 'obs': 0})
        return log
    finally:
        shutil.rmtree(root, ignore_errors=True)
        sys.modules.pop(os.path.basename(root), None)


EXPORTS = [
    [('/s', 'dir', 'pub')], [('/s', 'dir', 'pub'), ('/', 'dir', 'pub2')], [('/', 'dir', 'pub/sub'), ('/s', 'dir', 'pub')],
    [('/s/', 'dir', 'pub')], [('/f.txt', 'file', 'pub2/s.txt')], [('/f.txt', 'file', 'secret.txt'), ('/f.txt/x', 'dir', 'pub')],
    [('/s/sub', 'dir', 'pub2'), ('/s', 'dir', 'pub')], [('', 'dir', 'pub')], [('/p', 'dir', 'pub/sub'), ('/pub', 'dir', 'pub')],
    [('/s', 'pkg', 'pub')], [('/s', 'pkg', 'pub'), ('/s/', 'dir', 'pub2')], [('/s', 'pkg', 'pub/sub'), ('/', 'pkg', 'pub')],
]
SEGS = ['a.txt', 'b.html', 'c.css', 'sub', 's', 's', 'p', 'pub', 'f.txt', 'e.txt', 'secret.txt', 's.txt', '.hid', 'a b.bin', '', '.', '..', '...', 'x', 'A.txt', '..\\secret.txt',
        'pub2', 'etc', 'passwd', '%2e%2e', '~', 'a.txt~']
MSEG = ['a', 'b', 'ab', 'a', 'b', '', 'A', 'c', '.']


def path(r, segs, n):
    return ''.join('/' + r.choice(segs) for _ in range(r.randint(0, n)))


def mount(r):
    p = r.choice(['', '/']) if r.random() < .15 else path(r, MSEG[:5] + ['c'], 3)
    return p or '/a'


def gen_cases(r, n):
    out = []
    for _ in range(n):
        if r.random() < .4:
            ms = []
            for p in sorted({mount(r) for _ in range(r.randint(0, 5))}):
                inner = sorted({mount(r) for _ in range(r.randint(1, 3))}) if r.random() < .25 else []
                ms.append({'prefix': p, 'inner': inner})
            r.shuffle(ms)
            out.append({'init': {'mounts': ms, 'exports': [], 'disallow': [], 'cache': True, 'timeout': 1, 'fallback': 'x', 'single': False},
                        'ops': [{'op': 'dispatch', 'script': r.choice(['', '', '/r', '/a/b']),
                                 'path': path(r, MSEG, 6) + ('/' if r.random() < .1 else '')} for _ in range(8)]})
            continue
        xs = r.choice(EXPORTS)
        if r.random() < .35:     # several that cover the same path; the first that has the file answers
            xs = [(p, *(('file', r.choice(['pub2/s.txt', 'secret.txt'])) if p.endswith('.txt') else
                        (r.choice(['dir', 'dir', 'pkg']), r.choice(['pub', 'pub/sub', 'pub2']))))
                  for p in r.sample(['/', '/s', '/s/', '/s/sub', '/a.txt', '/s/a.txt', '/f.txt', '/s/sub/c.txt'], r.randint(2, 4))]
        c = {'mounts': [], 'exports': [dict(zip(('prefix', 'kind', 'target'), x)) for x in xs],
             'disallow': r.choice([[], [], ['*.css'], ['*.txt', '*.bin'], ['.*'], ['?.*'], ['a*'], ['*'], ['*~', 's*.t?t'], ['secret.txt', 'e.txt']]),
             'cache': r.random() < .8, 'timeout': r.choice([0, 1, 60, 43200]), 'fallback': r.choice(['text/plain', 'application/x-z']), 'single': r.random() < .5}
        goal = r.choice(['/s/a.txt', '/s/a.txt', '/a.txt', '/s/sub/a.txt', '/f.txt', '/s/sub/c.css', '/pub/a.txt', '/p/a.txt'])
        ops = []
        for _ in range(r.randint(5, 14)):
            x = r.random()
            if x < .22:
                ops.append({'op': 'write', 'path': r.choice(['pub/a.txt', 'pub/a.txt', 'pub/sub/a.txt', 'pub2/s.txt', 'secret.txt', 'pub/new.css', 'pub/sub/x']),
                            'text': r.choice(['', 'first', 'other', 'second', 'twelve bytes', 'line 1\nline 2\n'])})
            elif x < .27:
                ops.append({'op': 'remove', 'path': r.choice(['pub/a.txt', 'pub/sub/a.txt', 'pub/b.html', 'pub/e.txt'])})
            else:
                p = goal if r.random() < .5 else path(r, SEGS, 5)
                if r.random() < .2:
                    p = r.choice([p + '/', '/' + p, p + '/.', p + '/..', '/..' + p, p.upper(), p.replace('/', '/./', 1)])
                ops.append({'op': 'get', 'path': p, 'method': r.choice(['GET'] * 5 + ['HEAD', 'POST', 'DELETE']),
                            'inm': r.choice(['none', 'none', 'last', 'last', 'first', 'both', 'other', 'star']),
                            'ims': r.choice(['none', 'none', 'none', 'last', 'first', 'past', 'future'])})
        out.append({'init': c, 'ops': ops})
    return out
