"""Driver: spec/Files.tla on verktyg.http.FileStorage and the files of test
requests.  Everything that is written goes to a directory of the case."""
import io
import os
import shutil
import tempfile

from core import CaseTimeout, capture, dec_text, enc_text, exc, exc_name, val

NO = '<None>'


def none(t):
    return None if t == NO else dec_text(t)


def octets(t):
    return dec_text(t).encode('latin-1')


def grown(b, k):
    """an octet of the specification may stand for a block of k equal ones"""
    return b if k == 1 else b''.join(b[i:i + 1] * k for i in range(len(b)))


def shown(b, k=1):
    if not isinstance(b, bytes):
        return 'not octets: %r' % (b,)
    if k != 1:
        if grown(b[::k], k) != b:
            return 'broken blocks'
        b = b[::k]
    return enc_text(b.decode('latin-1'))


class Named(io.BytesIO):
    def __init__(self, data, name):
        super().__init__(data)
        self.name = name


class World:
    def __init__(self, c, home):
        from verktyg.http import FileStorage, Headers
        from verktyg.test import FileMultiDict
        self.home = home
        self.f = io.BytesIO()
        k = self.k = c['block']
        data = self.data = grown(octets(c['data']), k)
        name = none(c['sname'])
        kind = c['kind']
        if kind == 'none':
            stream = None
        elif kind == 'memory':
            stream = io.BytesIO(data) if name is None else Named(data, name.encode() if c.get('bytes') else name)
        elif kind == 'temporary':
            stream = tempfile.TemporaryFile(dir=home)
            stream.write(data)
            stream.seek(0)
        else:
            path = os.path.join(home, name)
            with open(path, 'wb') as f:
                f.write(data)
            stream = path if c['how'] == 'path' else open(path.encode() if c.get('bytes') else path, 'rb')
        how = c['how']
        kw = {}
        if how in ('direct', 'given'):
            h = [(k, dec_text(c[v])) for k, v in (('content-TYPE', 'hct'), ('Content-length', 'hcl')) if c[v] != NO]
            if h:
                kw['headers'] = Headers(h)
            if c['cl'] != NO:
                kw['content_length'] = int(c['cl'])
            self.s = FileStorage(stream, none(c['filename']), 'field', none(c['ct']), **kw)
            if how == 'given':
                d = FileMultiDict()
                d.add_file('field', self.s)
                if d.getlist('field') != [self.s] or d['field'] is not self.s:
                    raise AssertionError('another storage')
        else:
            d = FileMultiDict()
            d.add_file('field', stream, none(c['filename']), none(c['ct']))
            self.s = d['field']
        if self.s.name != 'field':
            raise AssertionError('field name %r' % (self.s.name,))

    def local(self, name):
        return NO if name is None else enc_text(name.replace(self.home + os.sep, ''))

    def step(self, e):
        from verktyg.test import encode_multipart
        s, op, k = self.s, e['op'], self.k
        if op == 'read':
            return shown(s.read(e['n'] * k if e['n'] > 0 else e['n']), k)
        if op == 'readline':
            return shown(s.readline(), k)
        if op == 'next':
            return shown(next(iter(s)), k)
        if op == 'list':
            out = []
            for line in s:
                out.append(shown(line, k))
                if len(out) > 1000:
                    return 'no end'
            return out
        if op == 'seek':
            s.seek(e['n'] * k)
        elif op == 'tell':
            return s.tell() // k if s.tell() % k == 0 else 'within a block'
        elif op == 'save':
            dst = self.f if e['to'] == 'f' else os.path.join(self.home, 'dst.' + e['to'])
            if e['buf'] == 16384:
                s.save(dst)
            else:
                s.save(dst, e['buf'] * max(1, k // 3))
        elif op == 'multipart':
            rest = self.data[s.tell():] if k != 1 and not s.closed else b''
            b, data = encode_multipart({e['field']: s}, boundary='b')
            if rest:
                data = data.replace(b'\n' + rest + b'\r', b'\n' + rest[::k] + b'\r')
            return shown(data.replace((self.home + os.sep).encode(), b''))
        elif op == 'close':
            s.close()
        elif op == 'bool':
            return bool(s)
        elif op == 'attr':
            s.no_such_attribute
        elif op == 'about':
            return {'filename': self.local(s.filename), 'ct': NO if s.content_type is None else enc_text(s.content_type),
                    'length': s.content_length, 'mimetype': enc_text(s.mimetype),
                    'params': {'SET': [[enc_text(k), NO if v is None else enc_text(v)] for k, v in sorted(s.mimetype_params.items(), key=str)]}}
        return NO

    def observe(self):
        dst = {'f': 'closed' if self.f.closed else shown(self.f.getvalue(), self.k)}
        for p in ('p1', 'p2'):
            path = os.path.join(self.home, 'dst.' + p)
            try:
                with open(path, 'rb') as f:
                    dst[p] = shown(f.read(), self.k)
            except FileNotFoundError:
                dst[p] = NO
        return {'dst': dst, 'closed': bool(self.s.closed)}


def run(case):
    home = tempfile.mkdtemp(prefix='files.')
    try:
        w = World(case['init'], home)
        log = [{'ret': val(NO), 'obs': w.observe()}]
        for e in case['ops']:
            try:
                r = val(w.step(e))
            except CaseTimeout:
                raise
            except (Exception, StopIteration) as x:
                r = exc(exc_name(x))
            log.append({'ret': r, 'obs': w.observe()})
        w.s.close()
        return log
    finally:
        shutil.rmtree(home, ignore_errors=True)


# ---- cases -----------------------------------------------------------------
FNAMES = [NO, NO, NO, '', 'a.txt', 'b.HTML', 'c.png', '.txt', 'noext', 'x.unknown9', 'dir.txt/f', 'a b.json', '<stdin>', '<x', 'x>', '..txt', 'a..txt']
CTS = [NO, NO, '', 'text/plain', 'Text/HTML; Charset=UTF-8', 'a/b; c="d; e"; f', ';x=1', 'image/png;']


def gen_cases(r, n):
    out = []
    for _ in range(n):
        kind = r.choice(['none', 'memory', 'memory', 'disk', 'temporary'])
        how = r.choice(['direct', 'direct', 'add', 'given'] + ['path'] * 2 * (kind == 'disk'))
        size = r.choice([0, 1, 3, 10, 60, 240])
        data = ''.join(r.choice(['a', 'b', '\n', '\r', '\x00', '\x16', '\x0e', ' ']) for _ in range(min(size, 60)))
        if size > 60:
            data = data * (size // 60 + 1)
        c = {'how': how, 'kind': kind, 'data': data, 'sname': r.choice(['a.txt', 'b.HTML', '.txt', 'noext', 'x y.png'])
             if kind == 'disk' else r.choice(FNAMES), 'filename': r.choice(FNAMES), 'ct': r.choice(CTS),
             'cl': r.choice([NO, NO, '0', '17', '123456']), 'hct': r.choice(CTS),
             'hcl': r.choice([NO, NO, '', '5', ' 7', 'x', '12.0', '-1', '0x10']), 'bytes': r.random() < .2}
        c['block'] = 1
        if r.random() < .08:
            c['block'] = r.choice([4096, 8192, 16384, 20000, 70000])
            c['data'] = data[:r.choice([1, 3, 8])].replace('\n', 'n').replace('\r', 'c')
        ops = []
        for _ in range(r.randint(2, 9)):
            x = r.random()
            if x < .3:
                ops.append({'op': 'read', 'n': r.choice([-1, 0, 1, 2, 7, 100, 17000])})
            elif x < .5:
                ops.append({'op': r.choice(['readline', 'next', 'list', 'tell'])})
            elif x < .62:
                ops.append({'op': 'seek', 'n': r.choice([0, 0, 1, 5, 70, 25000])})
            elif x < .78:
                ops.append({'op': 'save', 'to': r.choice(['p1', 'p2', 'f']), 'buf': r.choice([1, 3, 100, 16384])})
            elif x < .84:
                ops.append({'op': 'multipart', 'field': r.choice(['x', 'upload'])})
            elif x < .96:
                ops.append({'op': r.choice(['bool', 'about', 'about', 'attr'])})
            else:
                ops.append({'op': 'close'})
        if any(o['op'] == 'close' for o in ops):
            # a copy of a closed file fails before or after the place was emptied
            i = [o['op'] for o in ops].index('close')
            ops = ops[:i + 1] + [o if o['op'] != 'save' else dict(o, to='f') for o in ops[i + 1:]]
        out.append({'init': c, 'ops': ops})
    return out
