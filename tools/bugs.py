"""Planted bugs: see seed.py."""
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo,
                     needs=needs, breaks=breaks))


R = 'verktyg/routing.py'
UT = 'verktyg/utils.py'
bug('route-weight-sign', 'C01', [(R, "self._weights.append((0, -len(part)))", "self._weights.append((0, -min(len(part), 8)))")],
    '''
from verktyg.routing import URLMap, Route
m = URLMap([Route('/articles-<x>/<y>', endpoint='short'),
            Route('/articles-archive-<x>/<y>', endpoint='long')])
assert m.bind('h').match('/articles-archive-a/b')[0] == 'long'
''', 'two overlapping patterns whose fixed parts are both longer than eight characters, the shorter registered first',
    'longer fixed text no longer wins when both fixed parts are long')
bug('build-plus-safe', 'C02', [(R, "return urlquote(value, encoding=self.router.charset, safe='/:')",
    "return urlquote(value, encoding=self.router.charset, safe='/:%')")],
    '''
from urllib.parse import unquote
from verktyg.routing import URLMap, Route
a = URLMap([Route('/<x>', endpoint='e')]).bind('h')
assert a.match(unquote(a.build('e', {'x': 'a%41b'}))) == ('e', {'x': 'a%41b'})
''', 'a value that contains a percent sign followed by two hex digits', 'built URL matches back to another value')
bug('slash-redirect-quoting', 'C03', [(R, "path_info, encoding=self.router.charset, safe='/:|+'", "path_info, encoding=self.router.charset, safe='/:|+?'")],
    '''
from urllib.parse import urlsplit, unquote
from verktyg.routing import URLMap, Route, RequestRedirect
a = URLMap([Route('/<x>/', endpoint='e')]).bind('h')
try:
    a.match('/what?')
except RequestRedirect as e:
    assert a.match(unquote(urlsplit(e.new_url).path)) == ('e', {'x': 'what?'}), e.new_url
else:
    assert False
''', 'missing slash on a path with a literal question mark', 'redirect leads to another resource')
bug('default-redirect-query', 'C03', [(R, "                return self.make_redirect_url(\n                    path, query_args, domain_part=domain_part)",
    "                return self.make_redirect_url(\n                    path, query_args if domain_part == self.subdomain else None,\n                    domain_part=domain_part)")],
    '''
from verktyg.routing import URLMap, Route, RequestRedirect
m = URLMap([Route('/', subdomain='www', endpoint='e', defaults={'x': 1}),
            Route('/<int:x>', subdomain='all', endpoint='e')])
try:
    m.bind('h.com', subdomain='all').match('/1', query_args='q=1')
except RequestRedirect as e:
    assert e.new_url in ('http://www.h.com/?q=1', 'http://www.h.com?q=1'), e.new_url
else:
    assert False
''', 'a default redirect to another subdomain of a request with a query string', 'query string lost')
bug('close-stops-early', 'C07', [('verktyg/responses.py', "        for func in self._on_close:\n            func()\n", "        while self._on_close and not self._on_close[0]():\n            self._on_close.pop(0)\n")],
    '''
from verktyg.responses import Response
ran = []
r = Response('x')
r.call_on_close(lambda: ran.append(1) or True)
r.call_on_close(lambda: ran.append(2))
r.close()
assert ran == [1, 2], ran
''', 'two cleanup callbacks, the first of which returns a true value', 'later cleanup callbacks are skipped')
bug('closing-iterator-close', 'C07', [('verktyg/wsgi.py', "    def close(self):\n        for callback in self._callbacks:\n            callback()\n", "    def close(self):\n        while self._callbacks:\n            self._callbacks.pop()()\n")],
    '''
from verktyg.wsgi import ClosingIterator
order = []
c = ClosingIterator(iter([]), [lambda: order.append(1), lambda: order.append(2)])
c.close()
assert order == [1, 2], order
''', 'several callbacks on one closing iterator', 'cleanup callbacks run in reverse order')
bug('headers-set-keeps-later', 'C10', [('verktyg/http/basic.py', "        self._list[idx + 1:] = [t for t in listiter if t[0].lower() != ikey]", "        self._list[idx + 1:] = [t for t in listiter if t[0] != old_key]")],
    '''
from verktyg.http import Headers
h = Headers([('X-A', '1'), ('x-a', '2'), ('B', '3')])
h.set('X-A', '9')
assert list(h) == [('X-A', '9'), ('B', '3')], list(h)
''', 'duplicate fields spelled in different case', 'set leaves an old duplicate behind')
bug('headers-slice-newline', 'C11', [('verktyg/http/basic.py', "            [self._validate_value(v) for (k, v) in value]", "            any(self._validate_value(v) for (k, v) in value[:1])")],
    '''
from verktyg.http import Headers
h = Headers([('A', '1'), ('B', '2')])
try:
    h[0:2] = [('A', '1'), ('B', 'x\\r\\nSet-Cookie: a=b')]
except ValueError:
    pass
assert not any('\\n' in v for k, v in h)
''', 'slice assignment where the second value has a line break', 'header injection through slices')

bug('int-min-zero', 'C01', [(R, "            (self.min is not None and value < self.min) or", "            (self.min and value < self.min) or"), (R, "            (self.max is not None and value > self.max)", "            (self.max and value > self.max)")],
    '''
from verktyg.exceptions import NotFound
from verktyg.routing import URLMap, Route
a = URLMap([Route('/<int(max=0):x>', endpoint='e')]).bind('h')
assert a.match('/0') == ('e', {'x': 0})
try:
    a.match('/5')
except NotFound:
    pass
else:
    assert False
''', 'a number converter whose maximum is zero', 'values above the maximum are accepted')
bug('build-alias-order', 'C02', [(R, "            self.alias and 1 or 0, -len(self.arguments),\n", "            -len(self.arguments), self.alias and 1 or 0,\n")],
    '''
from verktyg.routing import URLMap, Route
a = URLMap([Route('/new/<x>', endpoint='e'),
            Route('/old/<x>', endpoint='e', defaults={'v': 1}, alias=True)]).bind('h')
assert a.build('e', {'x': 'a', 'v': 1}) == '/new/a?v=1'
''', 'an alias with more arguments than the canonical route', 'alias URL is built')
bug('freeze-text-length', 'C08', [('verktyg/responses.py', "            environ['REQUEST_METHOD'] == 'HEAD' or\n            100 <= status < 200 or status in (204, 304)", "            environ['REQUEST_METHOD'] == 'HEAD' or\n            100 < status < 200 or status in (204, 304)")],
    '''
from verktyg.responses import Response
from verktyg.test import create_environ
body, status, headers = Response('abc', status=100).get_wsgi_response(create_environ())
assert b''.join(body) == b''
''', 'status exactly 100', 'body sent with an informational status')

bug('dispatch-head-any', 'C04', [('verktyg/dispatch.py', "            if method == 'HEAD' and 'GET' in with_name:\n                with_method = with_name['GET']",
    "            if method == 'HEAD' and len(with_name) >= 1:\n                with_method = with_name.get('GET') or with_name[min(with_name)]")],
    '''
from verktyg.dispatch import Dispatcher, Binding
from verktyg.exceptions import MethodNotAllowed
d = Dispatcher([Binding('a', lambda *a: 1, method='POST')])
try:
    d.lookup('a', method='HEAD')
except MethodNotAllowed:
    pass
else:
    assert False
''', 'HEAD on an endpoint that has no GET handler', 'HEAD runs the POST handler')
bug('dispatch-nest-alias', 'C04', [('verktyg/dispatch.py', "        for factory in factories:\n            for view in factory.get_bindings():",
    "        for factory in factories:\n            if isinstance(factory, Dispatcher) and not self._index:\n                # nothing to merge with\n                self._index = factory._index\n                self._views = list(factory._views)\n                continue\n            for view in factory.get_bindings():")],
    '''
from verktyg.dispatch import Dispatcher, Binding
from verktyg.exceptions import NotImplemented
child = Dispatcher([Binding('a', lambda *a: 1)])
parent = Dispatcher([child])
parent.add_bindings(Binding('b', lambda *a: 2))
try:
    child.lookup('b')
except NotImplemented:
    pass
else:
    assert False
''', 'adding to a parent after nesting a child as its first member', 'bindings of the parent leak into the child')
bug('accept-lang-prefix', 'C05', [('verktyg/accept/language.py', "        elif self.value.startswith('%s-' % option.value):", "        elif self.value.startswith(option.value):")],
    '''
from verktyg.accept import Representation, select_representation
from verktyg.exceptions import NotAcceptable
try:
    select_representation([Representation(language='fil')], accept_language='fi')
except NotAcceptable:
    pass
else:
    assert False
''', 'a language that starts with the letters of a shorter one', 'wrong language is accepted')
bug('accept-subtype-star', 'C05', [('verktyg/accept/content_type.py', "                type_matches, subtype_matches\n", "                type_matches and subtype_matches, subtype_matches\n"),
    ('verktyg/accept/content_type.py', "        return self._match_quality[0]\n", "        return any(self._match_quality) or self._type\n"),
    ('verktyg/accept/content_type.py', "        super(ContentTypeAcceptability, self).__init__(\n            content_type,", "        self._type = type_matches\n        super(ContentTypeAcceptability, self).__init__(\n            content_type,")],
    '''
from verktyg.accept import Representation, select_representation
from verktyg.exceptions import NotAcceptable
try:
    select_representation([Representation(content_type='text/html')], accept='text/*;q=0, */*')
except NotAcceptable:
    pass
else:
    assert False
''', 'a type wildcard with quality zero next to a full wildcard', 'excluded types are served')
bug('error-first-class-only', 'C06', [('verktyg/exception_dispatch.py', "            except NotAcceptable:\n                continue\n\n        return None", "            except NotAcceptable:\n                # the client is told about the failed negotiation instead\n                if issubclass(cls, NotAcceptable):\n                    return None\n\n        return None")],
    '''
from verktyg.exceptions import NotAcceptable, HTTPException
from verktyg.exception_dispatch import ExceptionDispatcher, ExceptionHandler
h = lambda *a: 1
d = ExceptionDispatcher([ExceptionHandler(NotAcceptable, lambda *a: 2, content_type='text/html'),
                         ExceptionHandler(HTTPException, h)])
assert d.lookup(NotAcceptable, accept='image/png') is h
''', 'a failed negotiation whose own handler is not acceptable either', 'error has no handler although a general one exists')
bug('error-mro-bases', 'C06', [('verktyg/exception_dispatch.py', "        for cls in exception_class.mro():", "        for cls in sorted(\n                exception_class.mro(), key=lambda cls: -len(cls.mro())):")],
    '''
from verktyg.exception_dispatch import ExceptionDispatcher, ExceptionHandler
class Deep1(Exception): pass
class Deep2(Deep1): pass
class Deep3(Deep2): pass
class Near(Exception): pass
class Boom(Near, Deep3): pass
near, deep = (lambda *a: 1), (lambda *a: 2)
d = ExceptionDispatcher([ExceptionHandler(Near, near), ExceptionHandler(Deep3, deep)])
assert d.lookup(Boom) is near
''', 'multiple inheritance from a shallow and a deep hierarchy', 'handler of a farther ancestor answers')

# ---- C09
ENV = '''
def env(**kw):
    d = {'REQUEST_METHOD': 'GET', 'SERVER_NAME': 'x', 'SERVER_PORT': '80', 'PATH_INFO': '/', 'SCRIPT_NAME': '',
         'wsgi.url_scheme': 'http'}
    d.update(kw)
    return d
'''
bug('etag-weak-vs-strong', 'C09', [('verktyg/http/cache_control.py', "            return self.contains_weak(etag)\n        return self.contains(etag)", "            return self.is_weak(etag) or self.star_tag\n        return self.contains(etag)")],
    ENV + '''
from verktyg.http import is_resource_modified
assert not is_resource_modified(env(HTTP_IF_NONE_MATCH='"a", w/"b"'), 'w/"a"')
''', 'weak tag of the resource compared to a list that names it as strong', 'complete answer for an unchanged resource')
bug('etag-or-date', 'C09', [('verktyg/http/cache_control.py', "            unmodified = if_none_match.contains_raw(etag)", "            unmodified = unmodified or if_none_match.contains_raw(etag)")],
    ENV + '''
from verktyg.http import is_resource_modified
assert is_resource_modified(env(HTTP_IF_NONE_MATCH='"a"', HTTP_IF_MODIFIED_SINCE='Sat, 05 Mar 2011 07:08:10 GMT'),
                            '"b"', None, 'Sat, 05 Mar 2011 07:08:09 GMT')
''', 'a tag that differs together with a date that does not', 'stale content is kept by the client')
bug('modified-microseconds', 'C09', [('verktyg/http/cache_control.py', "        last_modified = last_modified.replace(microsecond=0)", "        last_modified = last_modified.replace(\n            microsecond=last_modified.microsecond // 1000)")],
    ENV + '''
import datetime
from verktyg.http import is_resource_modified
assert not is_resource_modified(env(HTTP_IF_MODIFIED_SINCE='Sat, 05 Mar 2011 07:08:09 GMT'),
                                last_modified=datetime.datetime(2011, 3, 5, 7, 8, 9, 2500))
''', 'a modification time with a fraction of a second', 'unchanged resources are always sent again')

# ---- C12, C13
bug('omd-setitem-inplace', 'C12', [('verktyg/datastructures.py', "    def __setitem__(self, key, value):\n        self.poplist(key)\n        self.add(key, value)", "    def __setitem__(self, key, value):\n        buckets = dict.get(self, key, ())\n        if len(buckets) == 1:\n            buckets[0].value = value\n        else:\n            self.poplist(key)\n            self.add(key, value)")],
    '''
from verktyg.datastructures import OrderedMultiDict
d = OrderedMultiDict([('a', 1), ('b', 2)])
d['a'] = 3
assert list(d.items(multi=True)) == [('b', 2), ('a', 3)], list(d.items(multi=True))
''', 'setting an existing key that is not the last', 'the item set last is not the last one')
bug('multidict-copy-shares', 'C12', [('verktyg/datastructures.py', "            dict.__init__(self, ((k, l[:]) for k, l in mapping.lists()))", "            if type(mapping) is type(self) is MultiDict:\n                dict.__init__(self, dict.items(mapping))\n            else:\n                dict.__init__(self, mapping.lists())")],
    '''
from verktyg.datastructures import MultiDict
a = MultiDict([('x', 1)])
b = a.copy()
b.add('x', 2)
assert a.getlist('x') == [1]
''', 'adding to an existing key of a copy', 'the original changes with its copy')
bug('combined-get-type', 'C12', [('verktyg/datastructures.py', "                    except ValueError:\n                        continue\n                return d[key]", "                    except ValueError:\n                        return default\n                return d[key]")],
    '''
from verktyg.datastructures import MultiDict, CombinedMultiDict
c = CombinedMultiDict([MultiDict([('x', 'q')]), MultiDict([('x', '1')])])
assert c.get('x', 0, type=int) == 1
''', 'a value that cannot be converted in front of one that can, in different dictionaries', 'default instead of the value')
bug('multidict-setdefault-falsy', 'C12', [('verktyg/datastructures.py', "        if key not in self:\n            self[key] = default\n        else:\n            default = self[key]\n        return default", "        value = self.get(key)\n        if not value:\n            self[key] = value = default\n        return value")],
    '''
from verktyg.datastructures import MultiDict
d = MultiDict([('x', ''), ('x', '1')])
assert d.setdefault('x', '2') == ''
assert d.getlist('x') == ['', '1']
''', 'setdefault on a key whose first value is empty', 'values of an existing key are replaced')
bug('immutable-hash-cache', 'C13', [('verktyg/datastructures.py', "    def _iter_hashitems(self):\n        return self.items(multi=True)", "    def _iter_hashitems(self):\n        return ((key, id(value)) for key, value in self.items(multi=True))")],
    '''
from verktyg.datastructures import ImmutableMultiDict
a = ImmutableMultiDict([('x', ''.join(['a', 'b']))])
b = ImmutableMultiDict([('x', ''.join(['a', 'b']))])
assert a == b and hash(a) == hash(b)
''', 'equal objects with values that are not the same objects', 'equal objects hash differently')
bug('immutable-poplist', 'C13', [('verktyg/datastructures.py', "    def poplist(self, key):\n        is_immutable(self)\n", "    def poplist(self, key):\n        if key in self:\n            return super(ImmutableDictMixin, self).poplist(key)\n        is_immutable(self)\n")],
    '''
from verktyg.datastructures import ImmutableMultiDict
a = ImmutableMultiDict([('x', '1')])
try:
    a.poplist('x')
except TypeError:
    pass
assert a.getlist('x') == ['1']
''', 'poplist of an existing key', 'an immutable dictionary loses a key')
bug('immutable-copy-alias', 'C13', [('verktyg/datastructures.py', "        return TypeConversionDict(self)\n", "        rv = TypeConversionDict(self)\n        return rv if len(rv) else self\n")],
    '''
from verktyg.datastructures import ImmutableTypeConversionDict
c = ImmutableTypeConversionDict().copy()
c['x'] = 1
assert c == {'x': 1}
''', 'the copy of an empty dictionary', 'copy cannot be changed')

# ---- C15
bug('quoted-string-greedy', 'C15', [('verktyg/http/basic.py', "    r';\\s*(%s|[^\\s;=]+)\\s*(?:=\\s*(%s|[^;]+))?\\s*' %", "    r';\\s*(%s|[^\\s;=]+)\\s*(?:=\\s*(%s|[^;\"]+))?\\s*' %")],
    '''
from verktyg.http import parse_options_header
assert parse_options_header('a; size=3"; b=c') == ('a', {'size': '3"', 'b': 'c'}), parse_options_header('a; size=3"; b=c')
''', 'an unquoted option value with a quote in it', 'the value is cut off at the quote')
bug('range-past-end', 'C15', [('verktyg/http/cache_control.py', "            return start, min(end, length)", "            return start, end if end <= length or start else length")],
    '''
from verktyg.http import parse_range_header
assert parse_range_header('bytes=3-50').range_for_length(10) == (3, 10)
''', 'a range that starts behind the first byte and ends behind the last one', 'the range ends outside of the resource')
bug('range-overlap', 'C15', [('verktyg/http/cache_control.py', "                if begin >= end:\n                    return None", "                if begin > end:\n                    return None")],
    '''
from verktyg.http import parse_range_header
assert parse_range_header('bytes=5-4') is None
''', 'a range whose last byte is the one in front of its first byte', 'an empty range is accepted')
bug('dump-dict-falsy', 'C15', [('verktyg/http/basic.py', "            if value is None:\n                items.append(key)", "            if not value and value != 0:\n                items.append(key)")],
    '''
from verktyg.http import dump_header, parse_dict_header
assert parse_dict_header(dump_header({'a': ''})) == {'a': ''}
''', 'a dictionary with an empty text as value', 'the value is lost')
bug('crange-zero-length', 'C15', [('verktyg/http/cache_control.py', "        if self.length is None:\n            length = '*'", "        if not self.length:\n            length = '*'")],
    '''
from verktyg.http import ContentRange
assert ContentRange('bytes', None, None, 0).to_header() == 'bytes */0'
''', 'a content range of an empty resource', 'the length is lost')

# ---- C14
RESP = '''
from verktyg.responses import Response
r = Response('x')
'''
bug('view-pop-default', 'C14', [('verktyg/datastructures.py', "        modified = key in self\n        if default is _missing:", "        modified = self.get(key) is not None\n        if default is _missing:")],
    RESP + '''
c = r.cache_control
c.no_store = True
c.max_age = 5
c.no_store = False
assert r.headers.get('cache-control') == 'max-age=5', r.headers
''', 'removing a directive that has no value', 'the header keeps a directive that was removed')
bug('headerset-del-case', 'C14', [('verktyg/http/basic.py', "        rv = self._headers.pop(idx)\n        self._set.remove(rv.lower())\n", "        rv = self._headers.pop(idx)\n        self._set.discard(rv)\n")],
    RESP + '''
r.headers['Vary'] = 'Accept, Cookie'
v = r.vary
del v[0]
assert 'accept' not in v and len(v) == 1
v.add('accept')
assert r.headers['Vary'] == 'Cookie, accept', r.headers
''', 'deleting an item with upper case letters by position', 'the item cannot be added again')
bug('challenge-basic-keeps', 'C14', [('verktyg/http/auth.py', "        dict.clear(self)\n        dict.update(self, {'__auth_type__': 'basic', 'realm': realm})", "        dict.update(self, {'__auth_type__': 'basic', 'realm': realm})")],
    RESP + '''
r.www_authenticate.set_digest('a', 'n')
r.www_authenticate.set_basic('b')
assert r.headers['WWW-Authenticate'] == 'Basic realm="b"', r.headers
''', 'set_basic after set_digest', 'parameters of the digest challenge stay in the header')
bug('vary-empty-view', 'C14', [('verktyg/responses.py', "                if not header_set and name in self.headers:\n                    del self.headers[name]\n                elif header_set:\n                    self.headers[name] = header_set.to_header()\n            return parse_set_header(self.headers.get(name), on_update)", "                if header_set or self.headers.get(name) is None:\n                    self.headers[name] = header_set.to_header()\n                elif name in self.headers.keys(lower=True):\n                    del self.headers[name]\n            return parse_set_header(self.headers.get(name), on_update)")],
    RESP + '''
r.vary.add('Cookie')
r.vary.remove('Cookie')
assert 'Vary' not in r.headers, r.headers
''', 'removing the last item of a header that has upper case letters in its name', 'the header stays')
bug('crange-units-callback', 'C14', [('verktyg/http/cache_control.py', "        self._units = units\n        self._start = start\n        self._stop = stop\n        self._length = length\n        if self.on_update is not None:", "        changed = (start, stop, length) != (\n            getattr(self, '_start', None), getattr(self, '_stop', None),\n            getattr(self, '_length', None)\n        ) or units is None\n        self._units = units\n        self._start = start\n        self._stop = stop\n        self._length = length\n        if changed and self.on_update is not None:")],
    RESP + '''
r.content_range.set(0, 5, 10, 'bytes')
r.content_range.set(0, 5, 10, 'items')
assert r.headers['Content-Range'] == 'items 0-4/10', r.headers
''', 'changing only the unit of a content range', 'the header keeps the old unit')

# ---- C20
bug('date-aware', 'C20', [('verktyg/http/basic.py', "        d = d.utctimetuple()", "        d = d.timetuple()")],
    '''
import datetime as dt
from verktyg.http import http_date
z = dt.timezone(dt.timedelta(hours=2))
assert http_date(dt.datetime(2015, 1, 1, 1, 30, tzinfo=z)) == 'Wed, 31 Dec 2014 23:30:00 GMT'
''', 'a moment with a time zone other than UTC', 'local time is sent as GMT')
bug('date-float-round', 'C20', [('verktyg/http/basic.py', "        d = gmtime(d)", "        d = gmtime(round(d))")],
    '''
from verktyg.http import http_date
assert http_date(59.75) == 'Thu, 01 Jan 1970 00:00:59 GMT'
''', 'a timestamp in the second half of a second', 'date is one second ahead')
bug('date-zone-sign', 'C20', [('verktyg/http/basic.py', "                    timedelta(seconds=t[-1] or 0)", "                    timedelta(seconds=max(t[-1] or 0, 0))")],
    '''
import datetime as dt
from verktyg.http import parse_date
assert parse_date('Sun, 06 Nov 1994 08:49:37 EST') == dt.datetime(1994, 11, 6, 13, 49, 37)
''', 'a date with a zone west of Greenwich', 'zone is ignored')
bug('date-local-tuple', 'C20', [('verktyg/http/basic.py', "        d = d.utctimetuple()\n    elif isinstance(d, (int, float)):", "        d = gmtime(d.timestamp())\n    elif isinstance(d, (int, float)):")],
    '''
import datetime as dt, os, time
os.environ['TZ'] = 'EST5'
time.tzset()
from verktyg.http import http_date
assert http_date(dt.datetime(2015, 1, 1)) == 'Thu, 01 Jan 2015 00:00:00 GMT'
''', 'a server whose local time is not UTC', 'naive moments are taken for local time')

# ---- C16
C='verktyg/http/cookies.py'
bug('cookie-double-unquote', 'C16', [(C, """    i = 0
    n = len(b)
    rv = bytearray()
    _push = rv.extend

    while 0 <= i < n:
        o_match = _octal_re.search(b, i)
        q_match = _quote_re.search(b, i)
        if not o_match and not q_match:
            rv.extend(b[i:])
            break
        j = k = -1
        if o_match:
            j = o_match.start(0)
        if q_match:
            k = q_match.start(0)
        if q_match and (not o_match or k < j):
            _push(b[i:k])
            _push(b[k + 1:k + 2])
            i = k + 2
        else:
            _push(b[i:j])
            rv.append(int(b[j + 1:j + 4], 8))
            i = j + 4

    return bytes(rv)
""", """    b = _octal_re.sub(lambda m: bytes([int(m.group(0)[1:], 8)]), b)
    return _quote_re.sub(lambda m: m.group(0)[1:], b)
""")],
    r"""
from verktyg.http import dump_cookie, parse_cookie
for v in ('plain', 'a b;c', 'C:\\101 x', 'x\\054'):
    assert parse_cookie(dump_cookie('k', v).split('; ')[0])['k'] == v, v
""", 'a value with a backslash in front of three octal digits', 'the value comes back changed')
bug('cookie-age-zero', 'C16', [(C, "    elif max_age is not None and sync_expires:", "    elif max_age and sync_expires:")],
    r"""
from verktyg.http import dump_cookie
assert 'Expires=' in dump_cookie('k', 'v', max_age=0), dump_cookie('k', 'v', max_age=0)
""", 'a maximum age of zero', 'no expiry date is sent')
bug('cookie-age-days', 'C16', [(C, "        max_age = (max_age.days * 60 * 60 * 24) + max_age.seconds", "        max_age = max_age.seconds")],
    r"""
from datetime import timedelta
from verktyg.http import dump_cookie
assert 'Max-Age=86405' in dump_cookie('k', 'v', max_age=timedelta(days=1, seconds=5))
""", 'an age of a day or more given as a timedelta', 'whole days are dropped')
bug('cookie-delete-domain', 'C16', [('verktyg/responses.py', "expires=0, max_age=0, path=path, domain=domain", "expires=0, max_age=0, path=path")],
    r"""
from verktyg.responses import Response
r = Response('')
r.delete_cookie('k', domain='example.com')
assert 'Domain=example.com' in r.headers['Set-Cookie'], r.headers
""", 'deleting a cookie of a domain', 'the browser keeps the cookie')

# ---- C17
W='verktyg/wsgi.py'
bug('stream-zero-length', 'C17', [(W, "    if content_length is None:\n        return safe_fallback", "    if not content_length:\n        return safe_fallback")],
    r"""
import io
from verktyg.wsgi import get_input_stream
raw = io.BytesIO(b'next request')
s = get_input_stream({'wsgi.input': raw, 'CONTENT_LENGTH': '0'}, safe_fallback=False)
assert s.read() == b'', 'read past the end'
""", 'an empty body and no safe fallback', 'the stream of the server is handed out unguarded')
bug('chunks-empty-piece', 'C17', [(W, "            if item:\n                yield item\n        return", "            yield item\n        return")],
    r"""
from verktyg.wsgi import make_line_iter
assert list(make_line_iter(iter(['a\n', '', 'b\n']))) == ['a\n', 'b\n']
""", 'an iterable that delivers an empty piece', 'everything after the piece is lost')
bug('filewrapper-short', 'C17', [(W, "        data = self.file.read(self.buffer_size)\n        if data:\n            return data\n", "        if getattr(self, '_last', False):\n            raise StopIteration()\n        data = self.file.read(self.buffer_size)\n        if data:\n            self._last = len(data) < self.buffer_size\n            return data\n")],
    r"""
from verktyg.wsgi import FileWrapper
class Pipe:
    parts = [b'abc', b'de', b'fghij']
    def read(self, n):
        return self.parts.pop(0) if self.parts else b''
assert b''.join(FileWrapper(Pipe(), 5)) == b'abcdefghij'
""", 'a file that returns less than asked for before its end, like a pipe', 'the rest of the file is not sent')
bug('stream-disconnect-ioerror', 'C17', [(W, "        try:\n            line = self._readline(size)\n        except (ValueError, IOError):", "        try:\n            line = self._readline(size)\n        except ValueError:")],
    r"""
from verktyg.wsgi import LimitedStream
from verktyg.exceptions import ClientDisconnected
class Broken:
    def read(self, n): raise OSError('reset')
    readline = read
try:
    LimitedStream(Broken(), 5).readline()
except ClientDisconnected:
    pass
""", 'a connection reset while a line is read', 'an OSError reaches the application instead of the disconnect')

# ---- C22
U='verktyg/urls.py'
bug('iri-v6-brackets', 'C22', [(U, "    host = decode_idna(uri.hostname) if uri.hostname else ''\n    if ':' in host:\n        host = '[%s]' % host\n", "    host = decode_idna(uri.hostname) if uri.hostname else ''\n")],
    r"""
from verktyg.urls import uri_to_iri
assert uri_to_iri('http://h/') == 'http://h/'
assert uri_to_iri('http://[::1]:8080/') == 'http://[::1]:8080/', uri_to_iri('http://[::1]:8080/')
""", 'a numeric IPv6 host', 'host and port run together')
bug('uri-password-only', 'C22', [(U, "    if components.username or components.password:\n        if components.username:", "    if components.username:\n        if components.username:")],
    r"""
from verktyg.urls import iri_to_uri
assert iri_to_uri('http://u:p@h/') == 'http://u:p@h/'
assert iri_to_uri('http://:p@h/') == 'http://:p@h/', iri_to_uri('http://:p@h/')
""", 'a password without a user name', 'the password is dropped')
bug('uri-port-default', 'C22', [(U, "        netloc = '%s:%s' % (netloc, components.port)", "        if components.port not in (80, 443):\n            netloc = '%s:%s' % (netloc, components.port)")],
    r"""
from verktyg.urls import iri_to_uri
assert iri_to_uri('http://h:8080/') == 'http://h:8080/'
assert iri_to_uri('http://h:443/') == 'http://h:443/', iri_to_uri('http://h:443/')
""", 'the default port of another scheme', 'the address is that of another server')

# ---- C18
W='verktyg/wsgi.py'
bug('mount-trailing-slash', 'C18', [(W, "            path_info = '/%s%s' % (last_item, path_info)", "            path_info = '/%s%s' % (last_item, path_info) if last_item else path_info")],
    r"""
from verktyg.wsgi import DispatcherMiddleware
def app(name):
    return lambda env, sr: (name, env['SCRIPT_NAME'], env['PATH_INFO'])
d = DispatcherMiddleware(app('x'), {'/a': app('a')})
assert d({'PATH_INFO': '/a/b'}, None) == ('a', '/a', '/b')
assert d({'PATH_INFO': '/a/b/'}, None) == ('a', '/a', '/b/'), d({'PATH_INFO': '/a/b/'}, None)
""", 'an empty segment below a mount', 'script name plus path info is no longer the path of the request')
bug('mount-default-script', 'C18', [(W, "        environ['SCRIPT_NAME'] = original_script_name + script\n", "        environ['SCRIPT_NAME'] = (\n            original_script_name + script if script else script\n        )\n")],
    r"""
from verktyg.wsgi import DispatcherMiddleware
def app(name):
    return lambda env, sr: (name, env['SCRIPT_NAME'], env['PATH_INFO'])
d = DispatcherMiddleware(app('x'), {'/a': app('a')})
assert d({'PATH_INFO': '/a/b', 'SCRIPT_NAME': '/r'}, None) == ('a', '/r/a', '/b')
assert d({'PATH_INFO': '/c', 'SCRIPT_NAME': '/r'}, None) == ('x', '/r', '/c'), d({'PATH_INFO': '/c', 'SCRIPT_NAME': '/r'}, None)
""", 'a dispatcher below a script name passing on to its default application', 'the default application loses its script name')
SHARED = r"""
import os, sys, tempfile, shutil
from verktyg.wsgi import SharedDataMiddleware
def get(app, path, **kw):
    got = []
    env = {'REQUEST_METHOD': 'GET', 'PATH_INFO': path}; env.update(kw)
    it = app(env, lambda s, h, e=None: got.extend([s, dict(h)]))
    body = b''.join(it)
    if hasattr(it, 'close'): it.close()
    return got[0], body, got[1]
def wrapped(env, sr):
    sr('404 NOT FOUND', []); return [b'app']
d = tempfile.mkdtemp()
try:
    for n, t in [('a.txt', 'one'), ('b.css', 'two'), ('q.txt', 'three')]:
        with open(os.path.join(d, n), 'w') as f: f.write(t)
%s
finally:
    shutil.rmtree(d)
"""
bug('shared-etag-minutes', 'C18', [(W, "            mktime(mtime.timetuple()),\n            file_size,", "            mktime(mtime.replace(second=0).timetuple()),\n            file_size,")],
    SHARED % """
    p = os.path.join(d, 'a.txt')
    app = SharedDataMiddleware(wrapped, {'/s': d})
    os.utime(p, (1400000000, 1400000000))
    tag = get(app, '/s/a.txt')[2]['Etag']
    assert get(app, '/s/a.txt', HTTP_IF_NONE_MATCH=tag)[0][:3] == '304'
    with open(p, 'w') as f: f.write('new')
    os.utime(p, (1400000010, 1400000010))
    assert get(app, '/s/a.txt', HTTP_IF_NONE_MATCH=tag)[1] == b'new', get(app, '/s/a.txt', HTTP_IF_NONE_MATCH=tag)
""", 'a file changed twice within a minute that keeps its size', 'a client keeps content it has not got')
bug('shared-dots', 'C18', [(W, "            if x and x != '..'\n", "            if x.strip('.')\n")],
    SHARED % """
    os.mkdir(os.path.join(d, '...'))
    with open(os.path.join(d, '...', 'z'), 'w') as f: f.write('zed')
    app = SharedDataMiddleware(wrapped, {'/s': d})
    assert get(app, '/s/a.txt')[1] == b'one'
    assert get(app, '/s/.../a.txt')[1] == b'app', get(app, '/s/.../a.txt')
    assert get(app, '/s/.../z')[1] == b'zed'
""", 'a segment of three dots', 'the content of another file is served')

# ---- C19
ENV19 = r"""
from verktyg.wsgi import get_current_url, get_host, host_is_trusted
from verktyg.exceptions import SecurityError
def env(**kw):
    e = {'wsgi.url_scheme': 'http', 'SERVER_NAME': 'h', 'SERVER_PORT': '80', 'HTTP_HOST': 'h', 'SCRIPT_NAME': '', 'PATH_INFO': '/', 'QUERY_STRING': ''}
    e.update(kw)
    return e
"""
bug('url-script-slash', 'C19', [(W, "    cat(urlquote(wsgi_get_bytes(environ.get('SCRIPT_NAME', ''))).rstrip('/'))\n", "    cat(urlquote(wsgi_get_bytes(environ.get('SCRIPT_NAME', ''))))\n")],
    ENV19 + r"""
assert get_current_url(env(SCRIPT_NAME='/s', PATH_INFO='/x')) == 'http://h/s/x'
assert get_current_url(env(SCRIPT_NAME='/s/', PATH_INFO='/x')) == 'http://h/s/x', get_current_url(env(SCRIPT_NAME='/s/', PATH_INFO='/x'))
""", 'a script name that ends with a slash', 'the reconstructed URL has an empty segment the request had not')
bug('url-hidden-path', 'C19', [(W, "            wsgi_get_bytes(environ.get('PATH_INFO', '')).lstrip(b'/')\n", "            wsgi_get_bytes(environ.get('PATH_INFO', '')).lstrip(b'/.')\n")],
    ENV19 + r"""
assert get_current_url(env(PATH_INFO='/a.b')) == 'http://h/a.b'
assert get_current_url(env(PATH_INFO='/.well-known/x')) == 'http://h/.well-known/x'
""", 'a path whose first segment starts with a dot', 'the reconstructed URL leads to another path')
bug('url-query-hash', 'C19', [(W, "    return urlquote(qs, safe=':&%=+$!*\\'(),')", "    return urlquote(qs, safe=':#&%=+$!*\\'(),')")],
    ENV19 + r"""
from urllib.parse import urlsplit
assert get_current_url(env(QUERY_STRING='a=b')) == 'http://h/?a=b'
assert not urlsplit(get_current_url(env(QUERY_STRING='a=#b'))).fragment
""", 'a raw number sign in the query string', 'part of the query becomes a fragment')
bug('host-default-ports', 'C19', [(W, "            (environ['wsgi.url_scheme'], environ['SERVER_PORT']) not\n            in (('https', '443'), ('http', '80'))\n", "            environ['wsgi.url_scheme'] not in ('https', 'http') or\n            environ['SERVER_PORT'] not in ('443', '80')\n")],
    ENV19 + r"""
e = env(); del e['HTTP_HOST']
assert get_host(e) == 'h'
e['SERVER_PORT'] = '443'
assert get_host(e) == 'h:443', get_host(e)
""", 'plain http on port 443 without a Host header', 'the URL leads to another server')
bug('trust-suffix-dot', 'C19', [(W, "        if ref == hostname:\n", "        if ref == hostname or suffix_match and hostname.endswith(ref):\n")],
    ENV19 + r"""
assert host_is_trusted('good.com', ['.good.com'])
assert not host_is_trusted('evilgood.com', ['.good.com'])
""", 'a host that ends with a trusted suffix without the dot', 'a foreign host is trusted')
bug('trust-empty-list', 'C19', [(W, "    if trusted_hosts is not None:\n", "    if trusted_hosts:\n")],
    ENV19 + r"""
assert get_host(env(HTTP_HOST='evil.com')) == 'evil.com'
try:
    get_host(env(HTTP_HOST='evil.com'), [])
except SecurityError:
    pass
else:
    assert False, 'accepted'
""", 'an empty list of trusted hosts', 'every host is accepted')

# ---- C24
AU='verktyg/http/auth.py'
BA='verktyg/http/basic.py'
bug('basic-last-colon', 'C24', [(AU, "base64.b64decode(auth_info).split(b':', 1)", "base64.b64decode(auth_info).rsplit(b':', 1)")],
    r"""
import base64
from verktyg.http import parse_authorization_header
def p(t): return dict(parse_authorization_header('Basic ' + base64.b64encode(t).decode()))
assert p(b'u:p') == {'username': 'u', 'password': 'p'}
assert p(b'u:p:q') == {'username': 'u', 'password': 'p:q'}, p(b'u:p:q')
""", 'a password with a colon', 'name and password are cut in the wrong place')
bug('digest-nc-or', 'C24', [(AU, "            if not auth_map.get('nc') or not auth_map.get('cnonce'):", "            if not (auth_map.get('nc') or auth_map.get('cnonce')):")],
    r"""
from verktyg.http import parse_authorization_header
h = 'Digest username="u", realm="r", nonce="n", uri="/", response="x"'
assert parse_authorization_header(h).username == 'u'
assert parse_authorization_header(h + ', qop=auth, nc=1') is None
""", 'digest credentials with a quality of protection but without a client nonce', 'incomplete credentials are accepted')
bug('filename-range', 'C23', [(UT, "_filename_ascii_strip_re = re.compile(r'[^A-Za-z0-9_.-]')", "_filename_ascii_strip_re = re.compile(r'[^A-z0-9_.-]')")],
    r"""
from verktyg.utils import secure_filename
assert secure_filename('a b~') == 'a_b'
assert '\\' not in secure_filename('a\\b'), secure_filename('a\\b')
""", 'a backslash or bracket in the name', 'a character outside the allowed set survives')
bug('filename-strip-first', 'C23', [(UT, "    filename = str(_filename_ascii_strip_re.sub('', '_'.join(\n        filename.split()\n    ))).strip('._')\n", "    filename = str(_filename_ascii_strip_re.sub('', '_'.join(\n        filename.split()\n    ).strip('._')))\n")],
    r"""
from verktyg.utils import secure_filename
assert secure_filename('../.a') == 'a'
assert secure_filename('~..~') == '', secure_filename('~..~')
""", 'a forbidden character before leading dots', 'the name starts with dots, it may even be the parent directory')
bug('filename-right-end', 'C23', [(UT, "    ))).strip('._')\n", "    ))).lstrip('._').rstrip('.')\n")],
    r"""
from verktyg.utils import secure_filename
assert secure_filename('a.') == 'a'
assert secure_filename('a/ ._') == 'a', secure_filename('a/ ._')
""", 'a name that ends with an underscore', 'the name ends with an underscore')

REQ = 'verktyg/requests.py'
bug('data-cached-as-text', 'C25', [(REQ, "            if cache:\n                self._cached_data = rv\n        if as_text:\n            # TODO charset\n            rv = rv.decode('utf-8', self.encoding_errors)\n",
    "        if as_text and isinstance(rv, bytes):\n            # TODO charset\n            rv = rv.decode('utf-8', self.encoding_errors)\n        if cache:\n            self._cached_data = rv\n")],
    '''
from io import BytesIO
from verktyg.requests import Request
r = Request({'REQUEST_METHOD': 'POST', 'wsgi.input': BytesIO(b'abc'), 'CONTENT_LENGTH': '3'})
assert r.get_data(as_text=True) == 'abc'
assert r.get_data() == b'abc', r.get_data()
''', 'the body read as text first and as bytes afterwards', 'the second view is text instead of bytes')
bug('forwarded-comma-space', 'C25', [(REQ, "self.environ['HTTP_X_FORWARDED_FOR'].split(',')", "self.environ['HTTP_X_FORWARDED_FOR'].split(', ')")],
    '''
from verktyg.requests import Request
r = Request({'HTTP_X_FORWARDED_FOR': '1.2.3.4,5.6.7.8'})
assert list(r.access_route) == ['1.2.3.4', '5.6.7.8'], r.access_route
''', 'forwarding proxies that write no space after the comma', 'two addresses are reported as one')
bug('script-root-falsy', 'C25', [(REQ, "        return raw_path.rstrip('/')", "        return raw_path[:-1] if raw_path.endswith('/') else raw_path")],
    '''
from verktyg.requests import Request
assert Request({'SCRIPT_NAME': '/a//'}).script_root == '/a'
''', 'a script name that ends in several slashes', 'script root keeps a trailing slash')
bug('match-scratch-on-route', 'C26', [
    (R, "                groups = m.groupdict()", "                groups = self._groups = m.groupdict()"),
    (R, "                for name, value in groups.items():\n                    try:", "                for name in groups:\n                    value = self._groups[name]\n                    try:")],
    '''
import threading
from verktyg.routing import URLMap, Route, BaseConverter
other = []
class Slow(BaseConverter):
    def to_python(self, value):
        if value == 'a':
            th = threading.Thread(target=lambda: other.append(m.bind('h').match('/c/d')))
            th.start(); th.join()
        return value
m = URLMap([Route('/<slow:x>/<y>', endpoint='e')], converters={'slow': Slow})
assert m.bind('h').match('/a/b') == ('e', {'x': 'a', 'y': 'b'})
assert other == [('e', {'x': 'c', 'y': 'd'})]
''', 'two threads match the same route, one overtakes the other between two converters', 'a request gets a value from the other request')
bug('build-scratch-on-route', 'C26', [
    (R, "        tmp = []\n        add = tmp.append\n        processed", "        tmp = self._parts = []\n        add = tmp.append\n        processed"),
    (R, "        domain_part, url = (u''.join(tmp)).split(u'|', 1)", "        domain_part, url = (u''.join(self._parts)).split(u'|', 1)")],
    '''
import threading
from verktyg.routing import URLMap, Route, BaseConverter
class Slow(BaseConverter):
    def to_url(self, value):
        if value == 'a':
            th = threading.Thread(target=lambda: m.bind('h').build('e', {'x': 'c'}))
            th.start(); th.join()
        return value
m = URLMap([Route('/<slow:x>', endpoint='e')], converters={'slow': Slow})
assert m.bind('h').build('e', {'x': 'a'}) == '/a'
''', 'two threads build from the same route, one overtakes the other while it assembles the parts', 'the url of the other thread is returned')
bug('number-on-converter', 'C26', [
    (R, "        value = self.num_convert(value)\n        if (\n            (self.min is not None and value < self.min) or\n            (self.max is not None and value > self.max)\n        ):\n            raise ValidationError()\n        return value\n",
        "        self.value = self.num_convert(value)\n        if (\n            (self.min is not None and self.value < self.min) or\n            (self.max is not None and self.value > self.max)\n        ):\n            raise ValidationError()\n        return self.value\n")],
    '''
import sys, threading
from verktyg.routing import URLMap, Route
m = URLMap([Route('/<int(min=1):x>', endpoint='e')])
m.bind('h').match('/5')
done = []
def trace_inner(f, e, a):
    if e == 'line' and getattr(f.f_locals['self'], 'value', None) == 7 and not done:
        done.append(1)
        th = threading.Thread(target=lambda: m.bind('h').match('/9'))
        th.start(); th.join()
    return trace_inner
sys.settrace(lambda f, e, a: trace_inner if f.f_code.co_name == 'to_python' else None)
got = m.bind('h').match('/7')
sys.settrace(None)
assert got == ('e', {'x': 7}), got
''', 'two threads convert a number with the same converter, one overtakes the other before it returns', 'a request gets the number of the other request')
bug('update-only-when-empty', 'C26', [
    (R, "        self.router.update()\n        if path_info is None:", "        if not self.router._routes:\n            self.router.update()\n        if path_info is None:")],
    '''
from verktyg.routing import URLMap, Route
m = URLMap([Route('/a', endpoint='a')])
m.bind('h').match('/a')
m.add_routes(Route('/b', endpoint='b'))
assert m.bind('h').match('/b') == ('b', {})
''', 'routes added after the table was used, and nothing but matching afterwards', 'added routes are not found')


T = 'verktyg/test.py'
bug('client-short-read', 'C21', [(T, "                    chunk = reader(16384)\n                    if not chunk:\n                        break\n                    write_binary(chunk)",
    "                    chunk = reader(16384)\n                    write_binary(chunk)\n                    if len(chunk) < 16384:\n                        break")],
    '''
from io import BytesIO
from verktyg.test import encode_multipart
class Pipe(BytesIO):
    def read(self, n=-1):
        return BytesIO.read(self, min(n, 4) if n > 0 else n)
assert b'longer text' in encode_multipart({'f': Pipe(b'longer text')}, boundary='B')[1]
''', 'a file whose read returns less than asked for before its end', 'uploads of the test client are cut short')
bug('client-disk-switch', 'C21', [(T, "                if length + total_length <= threshold:", "                if length <= threshold - total_length or not total_length:"),
    (T, "                    new_stream.write(stream.getvalue())\n                    new_stream.write(string)", "                    new_stream.write(stream.getvalue()[:threshold])\n                    new_stream.write(string)")],
    '''
from verktyg.test import stream_encode_multipart, encode_multipart
v = {'a': 'x' * 50, 'b': 'y' * 50}
s, n, b = stream_encode_multipart(v, threshold=30, boundary='B')
assert s.read() == encode_multipart(v, boundary='B')[1]
''', 'a body that outgrows the memory threshold after a first piece above it', 'bytes of large uploads are lost')
bug('client-cookie-home', 'C21', [(T, "            Request(get_current_url(environ)),\n        )", "            Request(get_current_url(environ, root_only=True)),\n        )")],
    '''
from verktyg.test import Client
seen = []
def app(environ, start_response):
    seen.append(environ.get('HTTP_COOKIE'))
    start_response('200 OK', [('Set-Cookie', 'a=1')] if environ['PATH_INFO'] == '/deep/page' else [])
    return []
c = Client(app)
c.get('/deep/page')
c.get('/')
c.get('/deep/other')
assert seen == [None, None, 'a=1'], seen
''', 'a cookie set without a path on a page below the root, and a later request elsewhere', 'cookies are sent to pages they are not for')
bug('client-write-close', 'C21', [(T, "        if buffer:\n            app_iter = chain(buffer, app_iter)\n        if close_func is not None and app_iter is not app_rv:",
    "        if buffer:\n            app_iter = chain(buffer, app_iter)\n        elif close_func is not None and app_iter is not app_rv:")],
    '''
from verktyg.test import run_wsgi_app, create_environ
ran = []
class It(object):
    def __iter__(self):
        return self
    def __next__(self):
        raise StopIteration
    def close(self):
        ran.append(1)
def app(environ, start_response):
    start_response('200 OK', [])(b'x')
    return It()
it, status, headers = run_wsgi_app(app, create_environ())
assert b''.join(it) == b'x'
it.close()
assert ran == [1]
''', 'an application that uses write() and returns an iterator with close, unbuffered', 'the response is never closed (AttributeError)')
bug('client-loop-key', 'C21', [(T, "            new_redirect_entry = (new_location, status_code)", "            new_redirect_entry = (new_location.split('?')[0], status_code)")],
    '''
from verktyg.test import Client
def app(environ, start_response):
    n = int(environ['QUERY_STRING'] or 0)
    start_response('200 OK' if n == 3 else '302 Found', [('Location', '/?%d' % (n + 1))])
    return [b'done']
assert b''.join(Client(app).get('/', follow_redirects=True)[0]) == b'done'
''', 'a chain of redirects that differ in the query only', 'a chain that ends is taken for a loop')
bug('client-stale-environ', 'C21', [(T, "            environ, response = self.resolve_redirect(\n                response, new_location, environ, buffered=buffered,\n            )",
    "            hop, response = self.resolve_redirect(\n                response, new_location, environ, buffered=buffered,\n            )\n            environ = hop if as_tuple else environ")],
    '''
from verktyg.test import Client
def app(environ, start_response):
    p = environ['PATH_INFO']
    to = {'/': '/a/b', '/a/b': 'c'}.get(p)
    start_response('302 Found' if to else '200 OK', [('Location', to)] if to else [])
    return [p.encode()]
assert b''.join(Client(app).get('/', follow_redirects=True)[0]) == b'/a/c'
''', 'a second redirect whose Location is relative', 'later redirects are resolved against the first page')
RP = 'verktyg/responses.py'
bug('redirect-page-amp', 'C27', [(UT, "    display_location = escape(location)\n", "    display_location = escape(location).replace('&amp;', '&')\n")],
    '''
from verktyg.utils import redirect
body = redirect('/x?a&lt;b').get_data(as_text=True)
assert '>/x?a&amp;lt;b<' in body, body
''', 'a location with an ampersand that begins a character reference', 'the page shows other text than the target')
bug('location-from-page', 'C27', [(RP, "                current_url = get_current_url(environ, root_only=True)\n",
    "                current_url = get_current_url(\n                    environ, root_only=not location.startswith('?')\n                )\n")],
    '''
from verktyg.responses import Response
from verktyg.test import create_environ
r = Response('', 302)
r.location = '?p=2'
h = r.get_wsgi_headers(create_environ('/deep/page', 'http://h/app'))
assert h['Location'] == 'http://h/app/?p=2', h['Location']
''', 'a location that is only a query', 'it is read from the current page instead of the root')
bug('location-ascii-shortcut', 'C27', [(RP, "                location = iri_to_uri(location)\n\n            if", "                if any(ord(c) > 126 for c in location):\n                    location = iri_to_uri(location)\n\n            if")],
    '''
from verktyg.responses import Response
from verktyg.test import create_environ
r = Response('', 302)
r.location = 'http://h/a b"c'
h = r.get_wsgi_headers(create_environ('/'))
assert h['Location'] == 'http://h/a%20b%22c', h['Location']
''', 'an ASCII location with characters that must be quoted', 'they are sent unquoted')
bug('content-location-skip', 'C27', [(RP, "            content_location is not None and\n            isinstance(content_location, str)\n", "            content_location is not None and status < 300 and\n            isinstance(content_location, str)\n")],
    '''
from verktyg.responses import Response
from verktyg.test import create_environ
r = Response('', 303)
r.content_location = '/\\u20ac'
h = r.get_wsgi_headers(create_environ('/'))
assert h['Content-Location'] == '/%E2%82%AC', h['Content-Location']
''', 'a response with status 300 or above', 'an international Content-Location is sent as it is')
bug('slash-query-plus', 'C27', [(UT, "        new_path += '?' + query_string\n", "        new_path += '?' + query_string.replace('%2B', '+')\n")],
    '''
from verktyg.utils import append_slash_redirect
from verktyg.test import create_environ
env = create_environ('/x', 'http://h/')
env['QUERY_STRING'] = 'a=1%2B1'
l = append_slash_redirect(env).headers['Location']
assert l == '/x/?a=1%2B1', l
''', 'a query string with an escaped plus sign', 'the query of the target is another one')
bug('location-stored', 'C27', [(RP, "            if location != old_location:\n                headers['Location'] = location\n", "            if location != old_location:\n                headers['Location'] = self.headers['Location'] = location\n")],
    '''
from verktyg.utils import redirect
from verktyg.test import create_environ
r = redirect('/x')
r.get_wsgi_headers(create_environ('/', 'http://a/'))
h = r.get_wsgi_headers(create_environ('/', 'http://b/'))
assert h['Location'] == 'http://b/x', h['Location']
''', 'one response object that is sent to two hosts', 'the second client is sent to the first host')
bug('status-code-300s', 'C28', [(RP, "            self._status_code = int(self._status.split(None, 1)[0])\n", "            self._status_code = int(self._status[:3])\n")],
    '''
from verktyg.responses import Response
r = Response()
r.status = '1000 Custom'
assert r.status_code == 1000, r.status_code
r.status = '7 Odd'
assert r.status_code == 7, (r.status, r.status_code)
''', 'a status text whose number has not exactly three digits', 'the number of the status is another one than its text says')
bug('content-type-subtype', 'C28', [(UT, "        (mimetype.startswith('application/') and mimetype.endswith('+xml'))\n", "        mimetype.endswith('+xml')\n")],
    '''
from verktyg.responses import Response
r = Response(mimetype='image/svg+xml')
assert r.headers['Content-Type'] == 'image/svg+xml', r.headers
''', 'an XML based type outside of application/', 'a charset parameter is added to a type that is sent as it is')
bug('length-property-positive', 'C28', [(UT, "            except (ValueError, TypeError):\n                rv = self.default\n", "            except TypeError:\n                rv = self.default\n            except ValueError:\n                rv = self.default if rv else rv\n")],
    '''
from verktyg.responses import Response
r = Response()
r.headers['Content-Length'] = ''
assert r.content_length is None, r.content_length
''', 'an empty Content-Length header', 'the number reads as an empty text')
bug('header-property-first', 'C28', [(UT, "        obj.headers.pop(self.name, None)\n", "        if self.name in obj.headers:\n            obj.headers.pop([k for k, v in obj.headers].index(self.name) if self.name in [k for k, v in obj.headers] else self.name)\n")],
    '''
from verktyg.responses import Response
r = Response()
r.headers.add('Expires', 'a')
r.headers.add('Expires', 'b')
del r.expires
assert 'expires' not in r.headers, r.headers
''', 'a header that occurs twice, deleted through the property', 'one of the two fields is still sent')
bug('stream-write-length', 'C28', [(RP, "        self.response.response.append(value)\n        self.response.headers.pop('Content-Length', None)\n", "        self.response.response.append(value)\n        if self.response.automatically_set_content_length:\n            self.response.headers.pop('Content-Length', None)\n")],
    '''
from verktyg.responses import Response
class R(Response):
    automatically_set_content_length = False
r = R()
r.content_length = 1
r.stream.write(b'abc')
assert r.content_length is None, r.content_length
''', 'a class that does not set the length by itself, with a length set before writing to the stream', 'the length sent is that of the body before the write')
bug('constructor-type-order', 'C28', [(RP, "            if mimetype is None and 'content-type' not in self.headers:\n                mimetype = self.default_mimetype\n", "            if mimetype is None and 'Content-Type' not in self.headers.keys():\n                mimetype = self.default_mimetype\n")],
    '''
from verktyg.responses import Response
r = Response(headers=[('content-type', 'a/b')])
assert r.headers['Content-Type'] == 'a/b', r.headers
''', 'a content type passed in the headers with another spelling of the name', 'the default type replaces it')
bug('retry-after-strip', 'C28', [(RP, "        elif value.isdigit():\n", "        elif len(value) < 8 and value.isdigit():\n")],
    '''
from verktyg.responses import Response
r = Response()
r.retry_after = 31536000
assert r.retry_after is not None
''', 'a delay of more than 115 days', 'it reads as no delay at all')
bug('hop-trailers', 'C28', [('verktyg/http/basic.py', "    return header.lower() in _hop_by_hop_headers\n", "    return header.lower().startswith(tuple(_hop_by_hop_headers))\n")],
    '''
from verktyg.http import Headers, remove_hop_by_hop_headers
h = Headers([('Text-Mode', '1'), ('Upgrade-Insecure-Requests', '1'), ('Connection', 'x')])
remove_hop_by_hop_headers(h)
assert list(h) == [('Text-Mode', '1'), ('Upgrade-Insecure-Requests', '1')], list(h)
''', 'an end-to-end header whose name begins like a hop-by-hop header', 'it is removed as well')
AP = 'verktyg/application.py'
APPDEMO = '''
import io
from verktyg.application import ApplicationBuilder
from verktyg.responses import Response
from verktyg.routing import Route
from verktyg.test import EnvironBuilder


def ask(app, path='/', **kw):
    env = EnvironBuilder(path=path, **kw).get_environ()
    got = []
    body = app(env, lambda s, h, e=None: got.append((s, h)))
    text = b''.join(body)
    if hasattr(body, 'close'):
        body.close()
    return got[0][0], dict(got[0][1]), text


'''
bug('app-request-class-memo', 'C29', [(AP, "        class Request(*self._request_bases):\n            pass\n", "        Request = self.__dict__.get('_request_class')\n        if Request is None:\n            class Request(*self._request_bases):\n                pass\n            self._request_class = Request\n")],
    APPDEMO + '''
class A:
    x = 'a'
b = ApplicationBuilder()
b()
b.add_request_mixins(A)
b.expose('e', route='/')(lambda app, req: Response(req.x))
assert ask(b())[2] == b'a'
''', 'a mixin added after an application was built from the same builder', 'requests of the next application do not have it')
bug('app-same-layer-once', 'C29', [(AP, "        self._middleware.append((middleware, args, kwargs))\n", "        layer = (middleware, args, kwargs)\n        if layer not in self._middleware[:-1]:\n            self._middleware.append(layer)\n")],
    APPDEMO + '''
def add(app, mark):
    def layer(env, start):
        env.setdefault('marks', []).append(mark)
        return app(env, start)
    return layer
b = ApplicationBuilder()
b.expose('e', route='/')(lambda app, req: Response(','.join(req.environ['marks'])))
for m in 'aba':
    b.add_middleware(add, m)
assert ask(b())[2] == b'a,b,a', ask(b())
''', 'the same middleware with the same arguments added again, with another one in between', 'the second one is missing')
bug('app-early-leave', 'C29', [(AP, "            with self._get_response(request) as response:\n                # not `yield from`, which would close the response a second\n                # time if the client disconnects\n                for chunk in response(wsgi_env, start_response):\n                    yield chunk\n", "            response = self._get_response(request)\n            for chunk in response(wsgi_env, start_response):\n                yield chunk\n            response.close()\n")],
    APPDEMO + '''
from verktyg.responses import Response
closed = []
b = ApplicationBuilder()
def view(app, req):
    r = Response(iter([b'a', b'b']))
    r.call_on_close(lambda: closed.append(1))
    return r
b.expose('e', route='/')(view)
body = b()(EnvironBuilder(path='/').get_environ(), lambda *a: None)
next(iter(body))
body.close()
assert closed == [1], closed
''', 'a client that leaves in the middle of a streamed body', 'the response is never let go of')
bug('app-converter-override', 'C29', [(AP, "        self._converters.update(**converters)\n", "        self._converters = dict(converters, **self._converters)\n")],
    APPDEMO + '''
from verktyg.routing import BaseConverter
class Low(BaseConverter):
    regex = '[a-z]+'
class Up(BaseConverter):
    regex = '[A-Z]+'
b = ApplicationBuilder()
b.add_converters(letters=Low)
b.add_converters(letters=Up)
b.expose('e', route='/<letters:x>')(lambda app, req, x: Response(x))
assert ask(b(), '/ABC')[2] == b'ABC'
''', 'a converter name that is registered twice', 'the first converter stays instead of being replaced')
bug('app-handler-language', 'C29', [(AP, "            handler = self._exception_dispatcher.lookup(\n                exc_type,\n                accept=request.environ.get('HTTP_ACCEPT'),\n                accept_charset=request.environ.get('HTTP_ACCEPT_CHARSET'),\n                accept_language=request.environ.get('HTTP_ACCEPT_LANGUAGE')\n", "            handler = self._exception_dispatcher.lookup(\n                exc_type,\n                accept=request.environ.get('HTTP_ACCEPT'),\n                accept_charset=request.environ.get('HTTP_ACCEPT_CHARSET'),\n                accept_language=request.environ.get('HTTP_CONTENT_LANGUAGE')\n")],
    APPDEMO + '''
b = ApplicationBuilder()
def view(app, req):
    raise ValueError()
b.expose('e', route='/')(view)
for l in ('de', 'en'):
    b.exception_handler(ValueError, language=l)(lambda app, req, t, v, tb, l=l: Response(l))
app = b()
assert ask(app, headers=[('Accept-Language', 'en')])[2] == b'en'
assert ask(app, headers=[('Accept-Language', 'de')])[2] == b'de'
''', 'handlers of one exception that differ in their language', "the client's language is ignored when an error is answered")
bug('app-outer-application', 'C29', [(AP, "        wsgi_env['verktyg.application'] = self\n", "        wsgi_env.setdefault('verktyg.application', self)\n")],
    APPDEMO + '''
a = ApplicationBuilder()
b = ApplicationBuilder()
inner = None
seen = []
a.expose('e', route='/')(lambda app, req: Response(''.join(c.decode() for c in inner(dict(req.environ, PATH_INFO='/in'), lambda *a: None))))
b.expose('e', route='/in')(lambda app, req: seen.append(req.environ['verktyg.application']) or Response('in'))
inner = b()
ask(a())
assert seen == [inner]
''', 'an application called with the environment of a request that another one is serving', 'the request carries the other application')
bug('app-query-lost', 'C29', [(AP, "query_args=request.query_string,\n", "query_args=request.args,\n")],
    APPDEMO + '''
b = ApplicationBuilder()
b.expose('e', route='/a/')(lambda app, req: Response('x'))
assert ask(b(), '/a?x=1&flag&y=2&x=3')[1]['Location'].endswith('/a/?x=1&flag&y=2&x=3')
''', 'a missing slash on a request whose query has interleaved names or a name without value', 'the query is another one after the redirect')
bug('app-expose-default-name', 'C29', [(AP, "            if endpoint is None:\n                endpoint = f.__name__\n", "            if not endpoint:\n                endpoint = f.__name__\n")],
    APPDEMO + '''
b = ApplicationBuilder()
def view(app, req):
    return Response('x')
b.expose('', route='/')(view)
assert b().url_for('') == '/'
''', 'an endpoint whose name is the empty text', 'it gets the name of the function')
bug('app-request-outlived', 'C29', [(AP, "        with self.request_class(wsgi_env) as request:\n            with self._get_response(request) as response:\n", "        with self.request_class(wsgi_env) as request:\n            response = self._get_response(request)\n        with response:\n            if True:\n")],
    APPDEMO + '''
order = []
b = ApplicationBuilder()
def view(app, req):
    req.call_on_close(lambda: order.append('request'))
    def parts():
        order.append('body')
        yield b'a'
    r = Response(parts())
    r.call_on_close(lambda: order.append('response'))
    return r
b.expose('e', route='/')(view)
ask(b())
assert order == ['body', 'response', 'request'], order
''', 'a streamed body and something that is released with the request', 'the request is let go of while its answer is still being sent')
bug('app-json-debug', 'C29', [('verktyg/views.py', "        if isinstance(res, Response):\n            # rendering already done\n            return res\n\n        if res is None:", "        if isinstance(res, Response):\n            # rendering already done\n            return res\n\n        if not res and not isinstance(res, (list, dict)):")],
    APPDEMO + '''
from verktyg.views import expose_json
b = ApplicationBuilder()
b.add_routes(Route('/', endpoint='e'))
expose_json(b, 'e')(lambda app, req: 0)
assert ask(b())[::2] == ('200 OK', b'0'), ask(b())
''', 'a JSON view whose value is zero, false or an empty text', 'it is answered as no content')
HB = 'verktyg/http/basic.py'
EX = 'verktyg/exceptions.py'
bug('file-save-rewinds', 'C30', [(HB, "            copyfileobj(self.stream, dst, buffer_size)\n", "            if self.stream.seekable() and close_dst:\n                self.stream.seek(0)\n            copyfileobj(self.stream, dst, buffer_size)\n")],
    '''
import io, os, tempfile
from verktyg.http import FileStorage
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x')
    f = FileStorage(io.BytesIO(b'head' + b'body'))
    f.read(4)
    f.save(p)
    assert open(p, 'rb').read() == b'body', open(p, 'rb').read()
''', 'a file saved to a path after its beginning was read', 'what was read already is saved again')
bug('file-save-append', 'C30', [(HB, "            dst = open(dst, 'wb')\n            close_dst = True\n", "            dst = open(dst, 'r+b' if __import__('os').path.exists(dst) else 'wb')\n            close_dst = True\n")],
    '''
import io, os, tempfile
from verktyg.http import FileStorage
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x')
    FileStorage(io.BytesIO(b'long text')).save(p)
    FileStorage(io.BytesIO(b'short')).save(p)
    assert open(p, 'rb').read() == b'short'
''', 'a shorter file saved over a longer one', 'the end of the old file stays')
bug('file-name-brackets', 'C30', [(HB, "            if filename and filename[0] == '<' and filename[-1] == '>':\n                filename = None\n\n        self.filename = filename\n", "        if filename and filename[0] == '<' and filename[-1] == '>':\n            filename = None\n\n        self.filename = filename\n")],
    '''
import io
from verktyg.http import FileStorage
assert FileStorage(io.BytesIO(b''), '<b>.txt>').filename == '<b>.txt>'
''', 'a client that sends a file name in angle brackets', 'the file counts as not there')
bug('file-type-cache', 'C30', [(HB, "        self._parse_content_type()\n        return self._parsed_content_type[0].lower()\n\n    @property\n    def mimetype_params(self):\n        \"\"\"The mimetype parameters as dict.  For example if the content\n        type is ``text/html; charset=utf-8`` the params would be\n        ``{'charset': 'utf-8'}``.\n        \"\"\"\n        self._parse_content_type()\n        return self._parsed_content_type[1]\n\n    def save", "        self._parse_content_type()\n        return self._parsed_content_type[0].lower()\n\n    @property\n    def mimetype_params(self):\n        \"\"\"The mimetype parameters as dict.  For example if the content\n        type is ``text/html; charset=utf-8`` the params would be\n        ``{'charset': 'utf-8'}``.\n        \"\"\"\n        self._parse_content_type()\n        return {k: v for k, v in self._parsed_content_type[1].items() if v}\n\n    def save")],
    '''
import io
from verktyg.http import FileStorage
f = FileStorage(io.BytesIO(b''), 'a', content_type='text/plain; flag; q=""')
assert f.mimetype_params == {'flag': None, 'q': ''}, f.mimetype_params
''', 'a parameter without value', 'it is missing')
bug('file-guess-own-name', 'C30', [('verktyg/test.py', "            if filename and content_type is None:\n                content_type = mimetypes.guess_type(filename)[0]\n            if content_type is None:\n                content_type = 'application/octet-stream'\n            value =", "            if filename and content_type is None:\n                content_type = mimetypes.guess_type(filename)[0]\n            if not content_type:\n                content_type = 'application/octet-stream'\n            value =")],
    '''
import io
from verktyg.test import FileMultiDict
d = FileMultiDict()
d.add_file('x', io.BytesIO(b''), 'a.txt', content_type='')
assert d['x'].content_type == '', d['x'].content_type
''', 'a file added with an empty content type on purpose', 'another type is sent')
bug('error-standard-subclass', 'C31', [(EX, "        if old_obj is not None and issubclass(obj, old_obj):\n            continue\n", "        if old_obj is not None and len(obj.__mro__) > len(old_obj.__mro__) + 1:\n            continue\n")],
    '''
from verktyg import exceptions as x
assert x.default_exceptions[400] is x.BadRequest, x.default_exceptions[400]
''', 'two errors with the number 400', 'abort(400) raises another one')
bug('aborter-shares-mapping', 'C31', [(EX, "        self.mapping = dict(mapping)\n        if extra is not None:\n            self.mapping.update(extra)\n", "        self.mapping = mapping\n        if extra is not None:\n            self.mapping = dict(mapping, **{})\n            self.mapping.update(extra)\n")],
    '''
from verktyg.exceptions import Aborter, NotFound, Gone
m = {1: NotFound}
a = Aborter(m)
m[1] = Gone
try:
    a(1)
except NotFound:
    pass
''', 'a mapping changed after an aborter without extra entries was made of it', 'the aborter changes with it')
bug('aborter-extra-order', 'C31', [(EX, "            self.mapping.update(extra)\n", "            for code in extra:\n                self.mapping.setdefault(code, extra[code])\n")],
    '''
from verktyg.exceptions import Aborter, NotFound
class Mine(NotFound):
    pass
try:
    Aborter(extra={404: Mine})(404)
except Mine:
    pass
''', 'an extra entry for a number that has a standard error', 'the standard error is raised')
bug('error-empty-description', 'C31', [(EX, "        if description is not None:\n            self.description = description\n        self.response = response\n", "        self.description = description or self.description\n        self.response = response\n")],
    '''
from verktyg.exceptions import NotFound
assert NotFound('').description == ''
''', 'an error made with an empty description', "it has the class's description")
bug('wrap-key-lost', 'C31', [(EX, "                cls.__init__(self, *args, **kwargs)\n                exception.__init__(self, arg)\n", "                exception.__init__(self, arg)\n                cls.__init__(self, *args, **kwargs)\n")],
    '''
from verktyg.exceptions import BadRequestKeyError
assert BadRequestKeyError('name').args == ('name',)
''', 'the key of an error that is a KeyError as well', 'it is lost')
bug('methods-truthy', 'C31', [(EX, "        HTTPException.__init__(self, description)\n        self.valid_methods = valid_methods\n", "        HTTPException.__init__(self, description or type(self).description)\n        self.valid_methods = valid_methods\n")],
    '''
from verktyg.exceptions import MethodNotAllowed
assert MethodNotAllowed(['GET'], '').description == ''
''', 'a 405 made with an empty description', "it has the class's description")

TS = 'verktyg/test.py'
bug('builder-length-given', 'C32', [(TS, "            content_length = end_pos - start_pos\n", "            content_length = max(end_pos - start_pos, content_length or 0)\n")],
    '''
from io import BytesIO
from verktyg.test import EnvironBuilder
b = EnvironBuilder('/', data='some text')
b.input_stream = BytesIO(b'short')
assert b.get_environ()['CONTENT_LENGTH'] == '5', b.get_environ()['CONTENT_LENGTH']
''', 'a body replaced by a shorter one', 'the length of the old body is announced')
bug('builder-keeps-args', 'C32', [(TS, "        self._query_string = value\n        self._args = None\n", "        self._query_string = value\n        self._args = getattr(self, '_args', None)\n")],
    '''
from verktyg.test import EnvironBuilder
b = EnvironBuilder('/', query_string={'old': '1'})
b.query_string = 'x=1'
b.query_string = None
assert b.query_string == '', b.query_string
''', 'a query string that replaced arguments and is taken back', 'the old arguments come back')
bug('builder-keeps-form', 'C32', [(TS, "        self._input_stream = value\n        self._form = self._files = None\n", "        self._input_stream = value\n        if value is not None or not hasattr(self, '_form'):\n            self._form = self._files = None\n")],
    '''
from verktyg.test import EnvironBuilder
b = EnvironBuilder('/', data={'a': '1'})
b.input_stream = None
assert not list(b.form.items()), b.form
''', 'a form cleared by taking the input stream away', 'the form stays')
bug('builder-stream-rewound', 'C32', [(TS, "            start_pos = input_stream.tell()\n            input_stream.seek(0, 2)\n            end_pos = input_stream.tell()\n            input_stream.seek(start_pos)\n", "            start_pos = input_stream.tell()\n            end_pos = len(input_stream.getvalue()) if hasattr(input_stream, 'getvalue') else input_stream.seek(0, 2)\n            input_stream.seek(0)\n")],
    '''
from io import BytesIO
from verktyg.test import EnvironBuilder
s = BytesIO(b'0123456789')
s.seek(4)
e = EnvironBuilder('/', input_stream=s).get_environ()
assert e['wsgi.input'].read() == b'456789'
''', 'an input stream that does not stand at its beginning', 'the body begins with what was read before')
bug('builder-header-last', 'C32', [(TS, "            headers.setdefault(key, []).append(value)\n", "            if value not in headers.setdefault(key, []):\n                headers[key].append(value)\n")],
    '''
from verktyg.test import EnvironBuilder
e = EnvironBuilder('/', headers=[('X-A', '1'), ('x-a', '1')]).get_environ()
assert e['HTTP_X_A'] == '1, 1', e['HTTP_X_A']
''', 'two headers of one name and one value', 'only one arrives')
bug('builder-root-slash', 'C32', [(TS, "        self.script_root = script_root.rstrip('/')\n", "        self.script_root = script_root[:-1] if script_root.endswith('/') else script_root\n")],
    '''
from verktyg.test import EnvironBuilder
b = EnvironBuilder('/x', base_url='http://h.com/app//')
assert b.get_environ()['SCRIPT_NAME'] == '/app', b.get_environ()['SCRIPT_NAME']
''', 'a base URL that ends with several slashes', 'the script root ends with a slash')
BH = 'verktyg/http/basic.py'
RS = 'verktyg/responses.py'
CC = 'verktyg/http/cache_control.py'
AU = 'verktyg/http/auth.py'
AB = 'verktyg/accept/_base.py'
AI = 'verktyg/accept/__init__.py'
bug('route-defaults-only', 'C01', [(R, "        return bool(self.arguments), -len(self._weights), self._weights\n", "        return bool(self._converters), -len(self._weights), self._weights\n")],
    '''
from verktyg.routing import URLMap, Route
m = URLMap([Route('/a', endpoint='default', defaults={'x': 1}), Route('/a', endpoint='plain')])
assert m.bind('h').match('/a')[0] == 'plain'
''', 'a route that takes its only argument from a default beside one without arguments, the same path', 'the route with arguments wins')
bug('route-fixed-digits', 'C01', [(R, "        if (self.fixed_digits and len(value) != self.fixed_digits):\n", "        if (self.fixed_digits and len(value) < self.fixed_digits):\n")],
    '''
from verktyg.routing import URLMap, Route
a = URLMap([Route('/<int(fixed_digits=2):x>', endpoint='e')]).bind('h')
assert a.test('/12') and not a.test('/123')
''', 'a number with more digits than the route asks for', 'two URLs for one resource, the longer one matches')
bug('route-any-pattern', 'C01', [(R, "'|'.join([re.escape(x) for x in items])", "'|'.join(items)")],
    '''
from verktyg.routing import URLMap, Route
a = URLMap([Route('/<any("a.b", c):x>', endpoint='e')]).bind('h')
assert a.test('/a.b') and not a.test('/aXb')
''', 'an enumerated value with a character that is special in regular expressions', 'a value that is not listed matches')
bug('route-path-leading-slash', 'C01', [(R, "    regex = '[^/].*?'\n", "    regex = '.+?'\n")],
    '''
from verktyg.routing import URLMap, Route
a = URLMap([Route('/a/<path:x>', endpoint='e')]).bind('h')
assert a.test('/a/b') and not a.test('/a//b')
''', 'a doubled slash right before a path variable', 'a path variable starts with a slash')
bug('factory-forgets-host', 'C01', [(R, "            self.redirect_to, self.alias, self.host,\n", "            self.redirect_to, self.alias,\n")],
    '''
from verktyg.routing import URLMap, Route, Submount
m = URLMap([Submount('/s', [Route('/a', endpoint='e', host='x.com')])], host_matching=True)
assert m.bind('x.com').test('/s/a')
''', 'host matching together with a route factory', 'the route no longer listens on its host')
bug('build-default-as-text', 'C02', [(R, "                if key in values and value != values[key]:\n", "                if key in values and str(value) != str(values[key]):\n")],
    '''
from verktyg.routing import URLMap, Route
a = URLMap([Route('/', endpoint='e', defaults={'x': 1}), Route('/<x>', endpoint='e')]).bind('h')
assert a.build('e', {'x': '1'}) == '/1', a.build('e', {'x': '1'})
''', 'a value whose text is that of a default of another type', 'the built URL stands for another value')
bug('build-zero-padding', 'C02', [(R, "        if self.fixed_digits:\n            value = (", "        if self.fixed_digits and value:\n            value = (")],
    '''
from verktyg.routing import URLMap, Route
a = URLMap([Route('/<int(fixed_digits=3):x>', endpoint='e')]).bind('h')
assert a.match(a.build('e', {'x': 0})) == ('e', {'x': 0})
''', 'the number zero with a fixed number of digits', 'the built URL does not match')
bug('build-multi-first', 'C02', [(R, "                    (k, v[0] if len(v) == 1 else v)\n", "                    (k, v[0] if len(v) <= 2 else v)\n")],
    '''
from verktyg.datastructures import MultiDict
from verktyg.routing import URLMap, Route
a = URLMap([Route('/', endpoint='e')]).bind('h')
u = a.build('e', MultiDict([('q', '1'), ('q', '2')]))
assert u == '/?q=1&q=2', u
''', 'a parameter with exactly two values', 'the second value is lost')
bug('default-redirect-more', 'C03', [(R, "            self.arguments == route.arguments\n", "            self.arguments >= route.arguments\n")],
    '''
from verktyg.routing import URLMap, Route, RequestRedirect
a = URLMap([Route('/', endpoint='e', defaults={'x': 1, 'y': 2}),
            Route('/<int:x>', endpoint='e')]).bind('h')
assert a.match('/1') == ('e', {'x': 1})
''', 'two routes of one endpoint, the one with defaults has an argument more', 'redirected to a resource with another argument')
bug('dispatch-nested-head', 'C04', [(('verktyg/dispatch.py'), "        return iter(self._views)\n", "        return (view for view in self._views if view.method != 'HEAD')\n")],
    '''
from verktyg.dispatch import Dispatcher, Binding
a, b = (lambda *x: 'get'), (lambda *x: 'head')
inner = Dispatcher([Binding('n', a), Binding('n', b, method='HEAD')])
outer = Dispatcher([inner])
assert outer.lookup('n', method='HEAD').action is b
''', 'a handler for HEAD of its own, in a nested dispatcher', 'HEAD is answered by the GET handler')
bug('accept-param-space', 'C05', [(AB, "            key, value = key.strip(), value.strip()\n", "            key, value = key.lstrip(), value.strip()\n")],
    '''
from verktyg.accept import Representation, select_representation
a, b = Representation(content_type='text/a'), Representation(content_type='text/b')
assert select_representation([a, b], accept='text/a, text/b;q =0') is a
''', 'a space before the equals sign of the quality', 'an excluded representation is sent')
bug('error-nested-last', 'C06', [('verktyg/exception_dispatch.py', "            yield from handlers\n", "            yield handlers[-1]\n")],
    '''
from verktyg.exception_dispatch import ExceptionDispatcher, ExceptionHandler
f, g = (lambda *a: 1), (lambda *a: 2)
d = ExceptionDispatcher([ExceptionDispatcher([
    ExceptionHandler(ValueError, f, content_type='text/html'),
    ExceptionHandler(ValueError, g, content_type='text/json')])])
assert d.lookup(ValueError, accept='text/html') is f
''', 'a nested dispatcher with several representations of one error', 'a representation is lost')
bug('iterator-closes-itself', 'C07', [('verktyg/wsgi.py', "        return self._next()\n\n    def close(self):\n        for callback in self._callbacks:\n", "        try:\n            return self._next()\n        except StopIteration:\n            raise\n        except Exception:\n            self.close()\n            raise\n\n    def close(self):\n        for callback in self._callbacks:\n")],
    '''
from verktyg.responses import Response
from verktyg.test import create_environ
ran = []
def gen():
    yield b'x'
    raise ValueError()
r = Response(gen())
r.call_on_close(lambda: ran.append(1))
it = r(create_environ('/'), lambda *a: None)
try:
    list(it)
except ValueError:
    pass
it.close()
assert ran == [1], ran
''', 'a body that fails while it is streamed', 'cleanup runs twice')
bug('sequence-closes-now', 'C07', [(RS, "            if close is not None:\n                self.call_on_close(close)\n", "            if close is not None:\n                close()\n                self._on_close.insert(0, close)\n")],
    '''
from verktyg.responses import Response
log = []
class Body(object):
    def __iter__(self):
        return iter([b'a'])
    def close(self):
        log.append('closed')
r = Response(Body())
r.make_sequence()
assert log == [], log
r.close()
assert log == ['closed'], log
''', 'a streamed body that is buffered before it is sent', 'the body is closed before it was delivered, and twice')
bug('body-204', 'C08', [(RS, "            100 <= status < 200 or status in (204, 304)\n", "            100 <= status < 200 or status == 304 or (\n                status == 204 and self.is_sequence)\n")],
    '''
from verktyg.responses import Response
from verktyg.test import create_environ
r = Response(iter([b'x']), status=204)
assert list(r(create_environ('/'), lambda *a: None)) == []
''', 'a streamed body with status 204', 'a body is sent that must not be')
bug('length-of-text', 'C08', [(RS, "            return None\n        return sum(len(x) for x in self.iter_encoded())\n", "            return None\n        return sum(len(x) for x in self.response)\n")],
    '''
from verktyg.responses import Response
from verktyg.test import create_environ
r = Response(['\\xe4'])
e = create_environ('/')
r.make_conditional(e)
got = []
body = b''.join(r(e, lambda s, h: got.extend(h)))
assert dict(got)['Content-Length'] == '2', got
''', 'a conditional response whose body is a list of text outside of ASCII', 'the announced length is too small')
bug('headers-pop-first', 'C10', [(BH, "            rv = self[key]\n            self.remove(key)\n", "            rv = self[key]\n            self._list.remove(next(f for f in self._list if f[0].lower() == key.lower()))\n")],
    '''
from verktyg.http import Headers
h = Headers([('A', '1'), ('a', '2')])
assert h.pop('a') == '1' and 'a' not in h, h
''', 'popping a name with several fields', 'later fields stay')
bug('headers-typed-list-stops', 'C10', [(BH, "                    except ValueError:\n                        continue\n                result.append(v)\n        return result\n\n    def get_all", "                    except ValueError:\n                        break\n                result.append(v)\n        return result\n\n    def get_all")],
    '''
from verktyg.http import Headers
h = Headers([('A', '1'), ('a', 'x'), ('A', '3')])
assert h.getlist('a', type=int) == [1, 3]
''', 'a typed list with a malformed value before good ones', 'the good ones are lost')
bug('headers-tuple-value', 'C10', [(BH, "                if isinstance(value, (tuple, list)):\n                    for v in value:\n                        self.add(key, v)\n", "                if isinstance(value, list):\n                    for v in value:\n                        self.add(key, v)\n")],
    '''
from verktyg.http import Headers
assert Headers({'A': ('1', '2')}).getlist('a') == ['1', '2']
''', 'several values of one name given as a tuple', 'one field with the text of the tuple')
bug('headers-bare-return', 'C11', [(BH, "        if u'\\n' in value or u'\\r' in value:\n", "        if u'\\n' in value or u'\\r' in value.rstrip():\n")],
    '''
from verktyg.http import Headers
h = Headers()
try:
    h.add('A', 'x\\r')
except ValueError:
    pass
assert not list(h), h
''', 'a carriage return at the very end of a value', 'the carriage return is sent')
bug('uri-fragment-question', 'C22', [('verktyg/urls.py', "        iri.fragment, safe='=%&[]:;$()+,!?*/\\'@'\n", "        iri.fragment, safe='=%&[]:;$()+,!*/\\'@'\n")],
    '''
from verktyg.urls import iri_to_uri
assert iri_to_uri('http://h/a#b?c') == 'http://h/a#b?c'
''', 'a question mark in the fragment', 'a plain URL changes')
bug('auth-tab-separator', 'C24', [(AU, "        auth_type, auth_info = value.split(None, 1)\n        auth_type = auth_type.lower()\n    except ValueError:\n        return\n", "        auth_type, auth_info = value.split(b' ', 1)\n        auth_type = auth_type.lower()\n    except ValueError:\n        return\n")],
    '''
from verktyg.http import parse_authorization_header
a = parse_authorization_header('Basic\\tYTpi')
assert a is not None and a.username == 'a' and a.password == 'b'
''', 'a tab between the type and the credentials', 'the credentials are not read')
bug('auth-empty-opaque', 'C24', [(AU, "        if opaque is not None:\n            d['opaque'] = opaque\n", "        if opaque:\n            d['opaque'] = opaque\n")],
    '''
from verktyg.http import WWWAuthenticate, parse_www_authenticate_header
w = WWWAuthenticate()
w.set_digest('r', 'n', opaque='')
assert parse_www_authenticate_header(w.to_header()).opaque == ''
''', 'an empty opaque string', 'the parameter is lost')
bug('auth-backslash-quoted', 'C24', [(BH, "    return '\"%s\"' % value.replace('\\\\', '\\\\\\\\').replace('\"', '\\\\\"')\n", "    return '\"%s\"' % value.replace('\"', '\\\\\"')\n")],
    '''
from verktyg.http import WWWAuthenticate, parse_www_authenticate_header
w = WWWAuthenticate()
w.set_basic('a\\\\\\\\b')
assert parse_www_authenticate_header(w.to_header()).realm == 'a\\\\\\\\b'
''', 'a realm with two backslashes in a row', 'one backslash is lost')
bug('request-path-slashes', 'C25', [('verktyg/requests.py', "        return '/' + raw_path.lstrip('/')\n", "        return raw_path if raw_path.startswith('/') else '/' + raw_path\n")],
    '''
from verktyg.requests import Request
from verktyg.test import create_environ
e = create_environ('/')
e['PATH_INFO'] = '//a'
assert Request(e).path == '/a', Request(e).path
''', 'a path that begins with several slashes', 'the path looks like that of another host')
bug('request-route-first', 'C25', [('verktyg/requests.py', "        elif 'REMOTE_ADDR' in self.environ:\n            return self.list_storage_class([self.environ['REMOTE_ADDR']])\n", "        elif self.environ.get('REMOTE_ADDR', '').strip('.0'):\n            return self.list_storage_class([self.environ['REMOTE_ADDR']])\n")],
    '''
from verktyg.requests import Request
assert list(Request({'REMOTE_ADDR': ''}).access_route) == ['']
''', 'an empty remote address (a server on a local socket)', 'the entry is missing')
bug('request-forwards-zero', 'C25', [('verktyg/requests.py', "            return int(self.environ.get('HTTP_MAX_FORWARDS', ''))\n", "            return int(self.environ.get('HTTP_MAX_FORWARDS', '')) or None\n")],
    '''
from verktyg.requests import Request
assert Request({'HTTP_MAX_FORWARDS': '0'}).max_forwards == 0
''', 'a request that must not be forwarded any more', 'the limit is not seen')
bug('request-strict-args', 'C25', [('verktyg/requests.py', "            qs, keep_blank_values=True, errors=self.encoding_errors,\n        ))\n", "            qs, keep_blank_values=True,\n        ))\n")],
    '''
from verktyg.requests import Request
class Loose(Request):
    encoding_errors = 'ignore'
assert Loose({'QUERY_STRING': 'a=%C3b'}).args['a'] == 'b'
''', 'a request class that ignores broken octets, and an escape of one in a query argument', 'the choice of the class is not honoured for escapes')
bug('request-close-first-file', 'C25', [('verktyg/requests.py', "        for key, value in iter_multi_items(files or ()):\n", "        for key, value in dict(files or {}).items():\n")],
    '''
import io
from verktyg.requests import Request
from verktyg.datastructures import MultiDict
from verktyg.http import FileStorage
r = Request({})
fs = [FileStorage(io.BytesIO(b'x')), FileStorage(io.BytesIO(b'y'))]
r.files = MultiDict([('a', f) for f in fs])
try:
    r.close()
except Exception:
    pass
assert all(f.stream.closed for f in fs)
''', 'two files uploaded under one name', 'files stay open')
bug('request-parse-empty-cache', 'C25', [('verktyg/requests.py', "        cached_data = getattr(self, '_cached_data', None)\n        if cached_data is not None:\n            return BytesIO(cached_data)\n        return self.stream\n", "        cached_data = getattr(self, '_cached_data', None)\n        if cached_data:\n            del self._cached_data\n            return BytesIO(cached_data)\n        return self.stream\n")],
    '''
import io
from verktyg.requests import Request
r = Request({'wsgi.input': io.BytesIO(b'abc'), 'CONTENT_LENGTH': '3'})
assert r.get_data() == b'abc'
assert r._get_stream_for_parsing().read() == b'abc'
assert r.get_data() == b'abc'
''', 'parsing a body whose octets were read before, then reading them again', 'the cached octets are gone')
bug('request-route-mutable', 'C25', [('verktyg/requests.py', "            addr = self.environ['HTTP_X_FORWARDED_FOR'].split(',')\n            return self.list_storage_class([x.strip() for x in addr])\n", "            addr = self.environ['HTTP_X_FORWARDED_FOR'].split(',')\n            return ImmutableList([x.strip() for x in addr])\n")],
    '''
from verktyg.requests import Request
class Mine(Request):
    list_storage_class = list
assert type(Mine({'HTTP_X_FORWARDED_FOR': '1.2.3.4'}).access_route) is list
''', 'a request class with its own kind of list, behind a proxy', 'the class is not used')
bug('closing-shared-list', 'C07', [('verktyg/wsgi.py', "        else:\n            callbacks = list(callbacks)\n        iterable_close", "        elif not isinstance(callbacks, list):\n            callbacks = list(callbacks)\n        iterable_close")],
    '''
from verktyg.wsgi import ClosingIterator
log = []
class It(list):
    def close(self):
        log.append(self[0])
cbs = [lambda: log.append('cb')]
ClosingIterator(It('a'), cbs).close()
ClosingIterator(It('b'), cbs).close()
assert log == ['a', 'cb', 'b', 'cb'], log
''', 'one list of callbacks used for two requests', 'the first body is closed again at the end of the second request')
bug('iri-fragment-errors', 'C22', [('verktyg/urls.py', "        uri.fragment, errors=errors, unsafe=_unsafe + ';/?:@&=+,$#'\n", "        uri.fragment, unsafe=_unsafe + ';/?:@&=+,$#'\n")],
    '''
from verktyg.urls import uri_to_iri
assert uri_to_iri('http://h/#%C3x', errors='ignore') == 'http://h/#x'
''', 'broken octets in the fragment, to be ignored', 'they are replaced instead')
bug('omd-eq-order', 'C12', [('verktyg/datastructures.py', "                for k1, v1 in iter1:\n                    k2, v2 = next(iter2)\n                    if k1 != k2 or v1 != v2:\n                        return False\n            except StopIteration:\n                return False\n            try:\n                next(iter2)\n", "                for k1, v1 in sorted(iter1, key=lambda i: i[0]):\n                    k2, v2 = next(iter2)\n                    if k1 != k2 or v1 != v2:\n                        return False\n            except StopIteration:\n                return False\n            try:\n                next(iter2)\n"), ('verktyg/datastructures.py', "            iter2 = other.items(multi=True)\n", "            iter2 = iter(sorted(other.items(multi=True), key=lambda i: i[0]))\n")],
    '''
from verktyg.datastructures import OrderedMultiDict
a = OrderedMultiDict([('x', '1'), ('y', '2'), ('x', '3')])
b = OrderedMultiDict([('x', '1'), ('x', '3'), ('y', '2')])
assert not a == b and a != b
''', 'two ordered dictionaries with the same lists but another order between keys', 'they are equal')
bug('freeze-streamed', 'C09', [('verktyg/responses.py', "        if not no_etag:\n            self.add_etag()\n        super(ETagResponseMixin, self).freeze()\n", "        if not no_etag:\n            self.add_etag()\n        else:\n            super(ETagResponseMixin, self).freeze()\n")],
    '''
from verktyg.responses import BaseResponse, ETagResponseMixin
class R(ETagResponseMixin, BaseResponse):
    pass
r = R(x for x in 'ab')
r.freeze()
assert r.is_sequence and r.get_data() == b'ab' and r.headers.get('content-length') == '2', r.headers
''', 'freezing a streamed response of a class with entity tags', 'the length of the body is not announced')
bug('quiet-setdefault', 'C14', [('verktyg/datastructures.py', "        if modified and self.on_update is not None:\n            self.on_update(self)\n        return rv\n\n    def pop", "        if modified:\n            self.on_update(self)\n        return rv\n\n    def pop")],
    '''
from verktyg.http import ResponseCacheControl
c = ResponseCacheControl()
c.setdefault('max-age', '3')
assert c.max_age == 3
''', 'a default set on a view nobody listens to', 'an error')
