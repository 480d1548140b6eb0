"""Driver: spec/Streams.tla - LimitedStream, make_line_iter, make_chunk_iter,
FileWrapper and get_input_stream."""
import io

from core import capture, dec_text, enc, enc_text, val


class Server:
    """The server's stream: counts what is taken from it and can break."""

    def __init__(self, data, how):
        self.s = io.BytesIO(data) if isinstance(data, bytes) else io.StringIO(data, newline='\n')
        self.broken = False
        self.how = how

    def check(self, n):
        if self.broken and n != 0:
            raise (OSError if self.how else ValueError)('broken')

    def read(self, n=-1):
        self.check(n)
        return self.s.read(n)

    def readline(self, n=-1):
        self.check(n)
        return self.s.readline(n)

    def left(self):
        return len(self.s.read())


class Slow:
    """A stream that returns at most one piece per read."""
    closed = False

    def __init__(self, pieces, empty):
        self.pieces = list(pieces)
        self.empty = empty

    def read(self, n=-1):
        if not self.pieces or n == 0:
            return self.empty
        p = self.pieces.pop(0)
        if n is not None and 0 <= n < len(p):
            self.pieces.insert(0, p[n:])
            p = p[:n]
        return p

    def close(self):
        self.closed = True


def cut(data, cuts):
    out, i = [], 0
    for n in cuts:
        out.append(data[i:i + n])
        i += n
    if i < len(data):
        out.append(data[i:])
    return out


def real(text, as_bytes):
    s = dec_text(text)
    return s.encode('latin-1') if as_bytes else s


def plain(v, as_bytes):
    if isinstance(v, bytes if as_bytes else str):
        return enc_text(v.decode('latin-1') if as_bytes else v)
    return enc(v)


class World:
    def __init__(self, c):
        from verktyg.wsgi import LimitedStream
        self.c = c
        self.b = c['bytes']
        data = real(c['data'], self.b)
        self.n = len(data)
        self.server = Server(data, c['limit'] % 2)
        cls = LimitedStream
        if c['quiet']:
            class cls(LimitedStream):
                def on_disconnect(me):
                    return data[:0]
        self.ls = cls(self.server, c['limit'])

    def obs(self):
        at = self.server.s.tell()
        if not self.b:
            left = self.server.s.read()
            self.server.s.seek(at)
            at = self.n - len(left)
        return {'tell': self.ls.tell(), 'exhausted': self.ls.is_exhausted, 'taken': at}

    def do(self, e):
        from verktyg import wsgi
        op = e['op']
        s, b = self.ls, self.b
        if op == 'read':
            return plain(s.read() if e['n'] == -2 and self.n % 2 else s.read(e['n']), b)
        if op == 'readline':
            return plain(s.readline() if e['n'] == -2 and self.n % 2 else s.readline(e['n']), b)
        if op == 'readlines':
            return [plain(x, b) for x in (s.readlines() if e['n'] < 0 else s.readlines(e['n']))]
        if op == 'next':
            return plain(next(s), b)
        if op == 'exhaust':
            return s.exhaust(e['n'])
        if op == 'break':
            self.server.broken = True
            return None
        eb = e.get('bytes', True)
        data = real(e['text'], eb)
        if op in ('lines', 'chunks'):
            limit = None
            if e['src'] == 'iter':
                src = iter(cut(data, e['cuts']) + [data[:0]]) if len(data) % 2 else [data[:0]] + cut(data, e['cuts'])
            elif e['src'] == 'stream':
                src = Slow(cut(data, e['cuts']), data[:0])
            else:
                src = Server(data, 0)
                if e['size'] % 2:
                    limit = e['limit']
                else:
                    src = wsgi.LimitedStream(src, e['limit'])
            if op == 'lines':
                it = wsgi.make_line_iter(src, limit=limit, buffer_size=e['size'])
            else:
                it = wsgi.make_chunk_iter(src, real(e['sep'], eb), limit=limit, buffer_size=e['size'])
            return [plain(x, eb) for x in it]
        if op == 'blocks':
            src = Slow(cut(data, e['cuts']), data[:0])
            it = wsgi.wrap_file({}, src, e['size'])
            got = list(it)
            if any(len(x) > e['size'] or not x for x in got):
                return 'bad blocks'
            it.close()
            class Bare:
                read = src.read
            wsgi.wrap_file({}, Bare()).close()
            if not src.closed:
                return 'not closed'
            return plain(data[:0].join(got), eb)
        if op == 'input':
            src = Server(data, 0)
            env = {'wsgi.input': src}
            if e['length'] != '<None>':
                env['CONTENT_LENGTH'] = e['length']
            if e['terminated']:
                env['wsgi.input_terminated'] = True
            if e['safe'] and e['size'] % 2:
                from verktyg.requests import Request
                r = Request(env)
                got = r.get_data() if e['size'] % 3 else r.stream.read()
            else:
                got = wsgi.get_input_stream(env, safe_fallback=e['safe']).read()
            return [plain(got, True), plain(src.s.read(), True)]
        raise AssertionError(op)


def run(case):
    w = World(case['init'])
    log = [{'ret': val('<None>'), 'obs': w.obs()}]
    for e in case['ops']:
        ret = capture(w.do, e, conv=lambda v: v if not isinstance(v, type(None)) else '<None>')
        log.append({'ret': ret, 'obs': w.obs()})
    return log


def text(r, n=12, ch='ab\n\r\x0b\x0c\x0e\x1c'):
    return ''.join(r.choice(ch) for _ in range(r.randint(0, n)))


def cuts(r, n):
    out = []
    while n > 0:
        k = min(n, r.choice([1, 1, 2, 3, 5]))
        out.append(k)
        n -= k
    return out


def gen(r):
    x = r.random()
    if x < .55:
        op = r.choice(['read', 'read', 'readline', 'readline', 'readlines', 'next', 'exhaust', 'break' if r.random() < .3 else 'read'])
        e = {'op': op}
        if op in ('read', 'readline'):
            e['n'] = r.choice([-2, -1, 0, 1, 2, 3, 5, 50])
        elif op == 'readlines':
            e['n'] = r.choice([-1, 1, 2, 4, 9, 60])
        elif op == 'exhaust':
            e['n'] = r.choice([1, 2, 3, 70])
        return e
    if x < .92:
        op = r.choice(['lines', 'chunks', 'chunks', 'blocks'])
        b = r.random() < .6
        if op == 'lines':
            t = text(r, 14, 'ab\n\r\r\n\x0c\x1c' + ('\x0e' if b else '\x13\x10\x0e'))
        else:
            t = text(r, 14, 'a|-||--\n' + ('' if b else '\x10'))
        e = {'op': op, 'text': t, 'cuts': cuts(r, len(t)), 'size': r.choice([1, 2, 3, 4, 7, 100]), 'bytes': b}
        if op != 'blocks':
            e['src'] = r.choice(['iter', 'stream', 'limit'])
            e['limit'] = r.choice([len(t), len(t), max(0, len(t) - 2), len(t) + 1, 0])
        if op == 'chunks':
            e['sep'] = r.choice(['|', '--', '|-', '\n', '|--|', 'a', '-|-'])
        return e
    return {'op': 'input', 'text': text(r, 8, 'ab\n'), 'length': r.choice(['<None>', '', 'x', '-3', '0', '3', '5', ' 4 ', '1.5', '100', '+2', '0x3', '00002']),
            'terminated': r.random() < .2, 'safe': r.random() < .7, 'size': r.randint(0, 5)}


def gen_cases(r, n):
    out = []
    for _ in range(n):
        b = r.random() < .7
        t = text(r, 16, 'ab\n\n' + ('\x0e\r' if b else '\x10\r'))
        out.append({'init': {'data': t, 'limit': max(0, r.choice([len(t), len(t), len(t) - 3, len(t) + 2, 0, 5])), 'quiet': r.random() < .2, 'bytes': b},
                    'ops': [gen(r) for _ in range(r.randint(2, 9))]})
    return out
