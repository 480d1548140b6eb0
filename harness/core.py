"""Shared machinery: run TLC on the specification, replay the behaviours it
prescribes on the real code, compare, and report.

The specification modules in /verif/spec define, per component,
    InitState(c), InitRet(c), Step(st, e) = [st, ret], Obs(st),
    StateInv(st), StepInv(st, e, r)
and the drivers in /verif/harness/<component>.py define how a case
{"init": c, "ops": [e, ...]} is executed on the real code.
"""
import collections
import json
import multiprocessing
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
OUTDIR = os.environ.get('VERIF_OUT', VERIF)
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')
NCPU = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    """The check itself failed (exit 2); says nothing about the code."""


# --------------------------------------------------------------------------
# Text encoding shared with spec/Str.tla

STANDINS = {           # name: (stand-in, real text)
    'e_acute': ('\x0e', '\u00e9'),
    'E_acute': ('\x0f', '\u00c9'),
    'euro': ('\x10', '\u20ac'),
    'emoji': ('\x11', '\U0001f600'),
    'nbsp': ('\x12', '\u00a0'),
    'linesep': ('\x13', '\u2028'),
    'sharp_s': ('\x14', '\u00df'),
    'cjk': ('\x15', '\u4e2d'),
    'ydiaer': ('\x16', '\u00ff'),
    'fullslash': ('\x17', '\uff0f'),
    'arabic1': ('\x18', '\u0661'),
    'ffi': ('\x19', '\ufb03'),
    'repl': ('\x1a', '\ufffd'),
    'fulldot': ('\x02', '\uff0e'),
    'twodots': ('\x03', '\u2025'),
    'sup2': ('\x04', '\u00b2'),
}
CONTROLS = {'vt': '\x0b', 'nul': '\x00', 'fs': '\x1c', 'bel': '\x07',
            'del': '\x7f', 'esc': '\x1b', 'us': '\x1f'}
_ENC = {real: s for s, real in STANDINS.values()}
_DEC = {s: real for s, real in STANDINS.values()}


def enc_text(s):
    if s.isascii() and not any(c in _DEC for c in s):
        return s
    out = []
    for c in s:
        if c in _ENC:
            out.append(_ENC[c])
        elif ord(c) < 128 and c not in _DEC:
            out.append(c)
        else:
            out.append('<U+%04X>' % ord(c))
    return ''.join(out)


def dec_text(s):
    for c in s:
        if c in _DEC:
            return ''.join(_DEC.get(c, c) for c in s)
    return s


def enc(v):
    """Python value -> JSON value comparable with what the spec writes."""
    if v is None:
        return '<None>'
    if isinstance(v, bool):
        return v
    if isinstance(v, str):
        return enc_text(str(v))
    if isinstance(v, (bytes, bytearray)):
        return 'b:' + enc_text(bytes(v).decode('latin-1'))
    if isinstance(v, int):
        return int(v) if abs(v) < 2 ** 31 else '<int %d>' % v
    if isinstance(v, float):
        return '<float %r>' % v
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((enc(x) for x in v), key=lambda x: json.dumps(x))
    if isinstance(v, dict):
        return {str(enc(k)): enc(x) for k, x in v.items()}
    return '<%s>' % type(v).__name__


def dec(v):
    if isinstance(v, str):
        if v == '<None>':
            return None
        return dec_text(v)
    if isinstance(v, list):
        return [dec(x) for x in v]
    if isinstance(v, dict):
        return {k: dec(x) for k, x in v.items()}
    return v


def val(v):
    return {'k': 'val', 'v': v}


def exc(name):
    return {'k': 'exc', 'v': name}


class CaseTimeout(BaseException):
    pass


_BUILTIN = ('KeyError', 'IndexError', 'TypeError', 'AttributeError',
            'UnicodeDecodeError', 'UnicodeEncodeError', 'ValueError',
            'LookupError', 'RuntimeError', 'StopIteration')


def exc_name(e):
    """Stable public name of an exception: a builtin one if it is one."""
    names = [c.__name__ for c in type(e).__mro__]
    for n in names:
        if n in _BUILTIN:
            return n
    return names[0]


def capture(fn, *a, **kw):
    """Run fn; encode its result or its exception."""
    conv = kw.pop('conv', enc)
    try:
        return val(conv(fn(*a, **kw)))
    except CaseTimeout:
        raise
    except RecursionError:
        return exc('RecursionError')
    except MemoryError:
        return exc('MemoryError')
    except Exception as e:
        return exc(exc_name(e))


def canon(v):
    return json.dumps(_norm(v), sort_keys=True)


def _norm(v):
    """{"SET": [...]} stands for a set: TLC writes sets in its own order."""
    if isinstance(v, dict):
        if len(v) == 1 and 'SET' in v:
            return {'SET': sorted((_norm(x) for x in v['SET']),
                                  key=lambda x: json.dumps(x, sort_keys=True))}
        return {k: _norm(x) for k, x in v.items()}
    if isinstance(v, list):
        return [_norm(x) for x in v]
    return v


# --------------------------------------------------------------------------
# Running TLC

class TLCResult:
    def __init__(self, states, distinct, rows, seconds, name):
        self.states, self.distinct = states, distinct
        self.rows, self.seconds, self.name = rows, seconds, name


IDNA_LABELS = ['\u00e9', 'a\u00e9', '\u4e2d', '\u00df', 'm\u00fcller'.replace('\u00fc', '\u00ff')]
PUNY_LABELS = ['xn--9ca', 'xn--fiq', 'xn--zz', 'xn--', 'ex', 'com']


def idna_tables():
    """International host labels the specification knows, both ways."""
    to_a = {enc_text(x): x.encode('idna').decode('ascii') for x in IDNA_LABELS}
    to_u = {}
    for x in PUNY_LABELS + list(to_a.values()):
        try:
            to_u[x] = enc_text(x.encode('ascii').decode('idna'))
        except UnicodeError:
            to_u[x] = x
    return to_a, to_u


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vtla.')
        tab = {n: s for n, (s, _) in STANDINS.items()}
        tab.update(CONTROLS)
        chars = [(chr(i), chr(i)) for i in range(128) if chr(i) not in _DEC]
        chars += [(s, real) for s, real in STANDINS.values()]
        tab['pct'] = {s: ''.join('%%%02X' % b for b in real.encode('utf-8'))
                      for s, real in chars}
        tab['pct1'] = {s: ''.join('%%%02X' % b for b in real.encode('latin-1'))
                       for s, real in chars if ord(real) < 256}
        tab['code'] = {s: ord(real) for s, real in chars}
        tab['idna_a'], tab['idna_u'] = idna_tables()
        self.chartab = os.path.join(self.dir, 'chartab.json')
        with open(self.chartab, 'w') as f:
            json.dump(tab, f)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def tlc_start(scratch, name, text, cfg, env=None, workers=NCPU, heap='6g',
              extra=()):
    d = tempfile.mkdtemp(prefix=name + '.', dir=scratch.dir)
    with open(os.path.join(d, name + '.tla'), 'w') as f:
        f.write(text)
    with open(os.path.join(d, name + '.cfg'), 'w') as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    e['CHARTAB'] = scratch.chartab
    cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap,
           '-Dfile.encoding=UTF-8',
           '-DTLA-Library=' + SPEC,
           '-cp', JARS, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE',
           '-config', name + '.cfg'] + list(extra) + [name + '.tla']
    log = open(os.path.join(d, 'tlc.log'), 'w')
    p = subprocess.Popen(cmd, cwd=d, env=e, stdout=log,
                         stderr=subprocess.STDOUT)
    return {'p': p, 'dir': d, 'name': name,
            't0': time.time(), 'log': log}


def _tail(log):
    keep = [l for l in log.splitlines() if l.strip() and not
            l.startswith(('"{', 'Parsing file', 'Semantic processing', 'Linting'))]
    i = next((n for n, l in enumerate(keep) if 'rror' in l), 0)
    text = '\n'.join(l[:1500] for l in keep[max(0, i - 2):i + 25])
    return text[:5000]


def tlc_finish(h, timeout):
    try:
        h['p'].wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        h['p'].kill()
        h['p'].wait()
        raise MachineryError('TLC timed out on ' + h['name'])
    h['log'].close()
    with open(os.path.join(h['dir'], 'tlc.log'), errors='replace') as f:
        log = f.read()
    if h['p'].returncode != 0:
        raise MachineryError('TLC failed on %s (exit %d):\n%s' % (
            h['name'], h['p'].returncode, _tail(log)))
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', log)
    if not m:
        raise MachineryError('no TLC statistics for ' + h['name'] + log[-2000:])
    rows = []
    for line in log.split('\n'):
        if line.startswith('"{'):
            rows.append(json.loads(json.loads(line)))
    r = TLCResult(int(m.group(1)), int(m.group(2)), rows,
                  time.time() - h['t0'], h['name'])
    shutil.rmtree(h['dir'], ignore_errors=True)
    return r


def start_eval(scratch, module, cases, constants='', workers=NCPU):
    name = module + 'Eval'
    text = open(os.path.join(SPEC, 'Eval.tla.tmpl')).read()
    text = text.replace('@NAME@', name).replace('@MODULE@', module)
    cfg = ('INIT EvInit\nNEXT EvNext\nINVARIANT EvInv\n'
           'CHECK_DEADLOCK FALSE\n' + constants)
    path = os.path.join(scratch.dir, '%s.%d.json' % (name, len(os.listdir(scratch.dir))))
    with open(path, 'w') as f:
        json.dump(cases, f)
    return tlc_start(scratch, name, text, cfg, {'CASES': path}, workers)


def start_mc(scratch, module, constants='', workers=NCPU, extra=()):
    name = module + 'Run'
    text = open(os.path.join(SPEC, 'MC.tla.tmpl')).read()
    text = text.replace('@NAME@', name).replace('@MODULE@', module)
    cfg = ('INIT McInit\nNEXT McNext\nINVARIANT McInv\nVIEW McView\n'
           'CONSTRAINT McBound\nCHECK_DEADLOCK FALSE\n' + constants)
    return tlc_start(scratch, name, text, cfg, {}, workers, extra=extra)


# --------------------------------------------------------------------------
# Executing behaviours on the real code

def _alarm(signum, frame):
    raise CaseTimeout()


def setup_code():
    """Import the code under test from REPO and nowhere else."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'vtla-nopyc')
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import verktyg
    got = os.path.realpath(os.path.dirname(verktyg.__file__))
    if got != os.path.realpath(os.path.join(REPO, 'verktyg')):
        raise MachineryError('verktyg imported from ' + got)


CASE_SECONDS = 10
MAX_SLOW = 12         # hanging cases before the rest is skipped
_DRIVER = None
_SLOW = None


def _run_chunk(chunk):
    out = []
    for idx, case in chunk:
        if _SLOW.value >= MAX_SLOW:
            out.append((idx, {'error': 'skipped after time-outs'}))
            continue
        signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
        try:
            res = {'log': json.loads(json.dumps(_DRIVER(case)))}
        except CaseTimeout:
            with _SLOW.get_lock():
                _SLOW.value += 1
            res = {'error': 'Timeout'}
        except Exception as e:      # driver could not even run the case
            res = {'error': '%s: %s' % (type(e).__name__, e),
                   'trace': traceback.format_exc()[-1500:]}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        out.append((idx, res))
    return out


def _worker_init():
    signal.signal(signal.SIGALRM, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except (ValueError, OSError):
        pass


def run_driver(driver, cases, procs=NCPU):
    global _DRIVER, _SLOW
    _DRIVER = driver
    items = list(enumerate(cases))
    if not items:
        return []
    size = max(1, min(400, len(items) // (procs * 4) or 1))
    chunks = [items[i:i + size] for i in range(0, len(items), size)]
    ctx = multiprocessing.get_context('fork')
    if _SLOW is None:
        _SLOW = ctx.Value('i', 0)
    res = [None] * len(items)
    with ctx.Pool(min(procs, len(chunks)), initializer=_worker_init) as pool:
        for part in pool.imap_unordered(_run_chunk, chunks):
            for idx, r in part:
                res[idx] = r
    return res


def compare(case, expected, got, project=None):
    """None if they agree, else a description of the first difference.

    project(op, entry) keeps the part of a log entry a property speaks about
    (None: nothing)."""
    if 'error' in got:
        return {'at': 'case', 'got': got}
    log = got['log']
    n = len(case['ops']) + 1
    if len(log) != n:
        return {'at': 'length', 'expected': n, 'got': len(log)}
    # the specification may prescribe only the last entries
    skip = n - len(expected)
    for i, x in enumerate(expected, skip):
        g = log[i]
        if project is not None:
            op = case['init'] if i == 0 else case['ops'][i - 1]
            x, g = project(op, x), project(op, g)
            if x is None and g is None:
                continue
        for part in ('ret', 'obs'):
            if canon(x[part]) != canon(g[part]):
                return {'at': i, 'part': part,
                        'op': case['init'] if i == 0 else case['ops'][i - 1],
                        'expected': x[part], 'got': g[part]}
    return None


# --------------------------------------------------------------------------
# A property check

class Check:
    """One property.  Sub-classes / instances add parts with add()."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = Scratch()
        self.states = self.distinct = 0
        self.traces = self.steps = 0
        self.opstats = collections.Counter()
        self.retstats = collections.Counter()
        self.distinct_cases = set()
        self.samples = []
        self.notes = {}
        self.violations = []
        self.assumptions = []
        self.known = load_known(prop)
        self.known_hit = collections.OrderedDict()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def rng(self, salt=''):
        return random.Random('%s/%s/%s' % (self.prop, self.seed, salt))

    def n(self, quick, thorough=None):
        return (thorough or quick * 10) if self.thorough else quick

    # -- conformance of a component ---------------------------------------
    def conform(self, module, driver, cases=(), mc=None, label=None,
                constants='', nontrivial=None, timeout=None, batch=6000,
                project=None):
        """Check spec `module`, then replay its behaviours on the code.

        cases: generated cases, evaluated by the spec (Eval template)
        mc:    list of MC module names explored exhaustively
        """
        label = label or module
        timeout = timeout or (600 if not self.thorough else 7200)
        cases = list(cases)
        pairs = []
        handles = []
        mcs = list(mc or ())
        tasks = len(mcs) + (1 if cases else 0)
        w = max(2, NCPU // max(1, tasks))
        for m in mcs:
            mod, consts = m if isinstance(m, tuple) else (m, '')
            handles.append(('mc', start_mc(self.scratch, mod, consts, w), None))
        batches = [cases[i:i + batch] for i in range(0, len(cases), batch)]
        pending = batches[:]
        if pending:
            b = pending.pop(0)
            handles.append(('ev', start_eval(self.scratch, module, b, constants, w), b))
        while handles:
            kind, h, b = handles.pop(0)
            r = tlc_finish(h, timeout)
            self.states += r.states
            self.distinct += r.distinct
            self.notes.setdefault('tlc', []).append(
                {'run': r.name, 'states': r.states, 'distinct': r.distinct,
                 'behaviours': len(r.rows), 'seconds': round(r.seconds, 1)})
            if kind == 'mc':
                pairs = [({'init': o['init'], 'ops': o['ops']}, [o['last']])
                         for o in r.rows]
            else:
                pairs = [(b[o['id'] - 1], o['log']) for o in r.rows]
                if len(pairs) != len(b):
                    raise MachineryError('%s: %d of %d cases evaluated' % (
                        label, len(pairs), len(b)))
            if pending:
                nb = pending.pop(0)
                handles.append(('ev', start_eval(self.scratch, module, nb, constants, w), nb))
            self.replay(label, driver, pairs, nontrivial, project)

    def model(self, module, cfg, fails=None, timeout=900):
        """Check a design with TLC; fails: the property it has to violate."""
        with open(os.path.join(SPEC, module + '.tla')) as f:
            h = tlc_start(self.scratch, module, f.read(), cfg)
        try:
            r = tlc_finish(h, timeout)
        except MachineryError as e:
            if fails is None or '%s is violated' % fails not in str(e):
                raise
            self.notes.setdefault('designs_refuted', []).append(
                '%s: %s' % (fails, ' '.join(cfg.split())[:80]))
            return
        if fails is not None:
            raise MachineryError('%s does not violate %s:\n%s' % (module, fails, cfg))
        self.states += r.states
        self.distinct += r.distinct
        self.notes.setdefault('tlc', []).append(
            {'run': r.name, 'states': r.states, 'distinct': r.distinct,
             'seconds': round(r.seconds, 1), 'design': ' '.join(cfg.split())[:80]})

    def replay(self, label, driver, pairs, nontrivial=None, project=None):
        results = run_driver(driver, [c for c, _ in pairs])
        # Canary: a corrupted expectation must be noticed.
        if pairs:
            c, log = pairs[len(pairs) // 2]
            bad = json.loads(json.dumps(log))
            bad[-1]['ret'] = {'k': 'canary', 'v': 'corrupted'}
            if compare(c, bad, {'log': [None] * (len(c['ops']) + 1 - len(log)) + log}) is None:
                raise MachineryError('canary not detected in ' + label)
        for (case, log), got in zip(pairs, results):
            self.traces += 1
            self.steps += len(log)
            for i, e in enumerate(case['ops']):
                op = e.get('op', '?') if isinstance(e, dict) else str(e)
                self.opstats[label + '.' + str(op)] += 1
                if i + 1 < len(case['ops']) + 1 - len(log):
                    continue
                rr = log[i + 1 - len(case['ops']) - 1 + len(log)]['ret']
                if isinstance(rr, dict) and rr.get('k') == 'exc':
                    self.retstats[label + '.' + str(op) + '!' + str(rr.get('v'))] += 1
            if nontrivial is None or nontrivial(case, log):
                self.distinct_cases.add(hash(canon(case)))
            d = compare(case, log, got, project)
            if d is not None:
                self.violation(label, case, log, got, d)
        for case, log in pairs[:1] + pairs[-1:]:
            if len(self.samples) < 8:
                self.samples.append({'component': label, 'case': case,
                                     'prescribed': log[-1]})

    def violation(self, label, case, log, got, diff):
        for k in self.known:
            if k['component'] == label and canon(k['case']) == canon(case):
                self.known_hit[k['what']] = True
                return
        self.violations.append({'component': label, 'case': case,
                                'expected': log, 'got': got, 'diff': diff})

    # -- reporting ---------------------------------------------------------
    def finish(self, rule, exhaustive=False):
        self.scratch.close()
        cov = {
            'states': self.distinct,
            'transitions': self.states,
            'traces_validated_against_impl': self.traces,
            'steps_compared': self.steps,
            'distinct_nontrivial': len(self.distinct_cases),
            'rule': rule,
            'samples': self.samples[:8],
            'operations': dict(self.opstats),
            'prescribed_errors': dict(self.retstats),
            'exhaustive': exhaustive,
        }
        cov.update(self.notes)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': 'model_checking', 'coverage': cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(OUTDIR, 'evidence'), exist_ok=True)
        path = os.path.join(OUTDIR, 'evidence', self.prop + '.json')
        tmp = path + '.tmp%d' % os.getpid()
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, path)
        for what in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        if self.violations:
            od = os.path.join(OUTDIR, 'out')
            os.makedirs(od, exist_ok=True)
            rp = os.path.join(od, '%s-%s-%d.json' % (self.prop, self.tier, self.seed))
            # shortest failing cases first
            self.violations.sort(key=lambda v: len(canon(v['case'])))
            with open(rp, 'w') as f:
                json.dump({'property': self.prop, 'count': len(self.violations),
                           'violations': self.violations[:60]}, f, indent=1)
            for v in self.violations[:3]:
                print('DIFF [%s] case=%s diff=%s' % (
                    v['component'], canon(v['case'])[:700], canon(v['diff'])[:700]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('OK property=%s tier=%s states=%d behaviours=%d steps=%d wall=%.1fs' % (
            self.prop, self.tier, self.distinct, self.traces, self.steps,
            time.time() - self.t0))
        return 0


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get('known', [])
                if k.get('property') == prop]
