"""Driver: spec/Dates.tla - dates in HTTP headers."""
import datetime as dt
import os
import time

from core import capture, enc, val

EPOCH = dt.datetime(1970, 1, 1)


def moment(x):
    return EPOCH + dt.timedelta(days=x['d'], seconds=x['s'])


def show(v):
    if v is None:
        return None
    if not isinstance(v, dt.datetime) or v.microsecond:
        return 'not a moment: %r' % (v,)
    if v.tzinfo is not None:
        v = v.astimezone(dt.timezone.utc).replace(tzinfo=None)
    d = v - EPOCH
    return [d.days, d.seconds]


def form(x, kind, off):
    m = moment(x)
    if kind == 'naive':
        return m
    if kind == 'micro':
        return m.replace(microsecond=999999)
    if kind == 'aware':
        return m.replace(tzinfo=dt.timezone.utc).astimezone(dt.timezone(dt.timedelta(minutes=off)))
    if kind == 'tuple':
        return m.utctimetuple()
    ts = x['d'] * 86400 + x['s']
    if kind == 'int':
        return ts
    if kind == 'float':
        return ts + 0.75
    if kind == 'gmtime':
        return time.gmtime(ts)
    raise AssertionError(kind)


def do(e):
    from verktyg import http
    op = e['op']
    if op == 'format':
        v = form(e['x'], e['form'], e['off'])
        h, c = http.http_date(v), http.cookie_date(v)
        if e['form'] in ('naive', 'micro', 'aware', 'int', 'float'):
            from verktyg.responses import Response
            r = Response('')
            for name in ('date', 'expires', 'last_modified'):
                setattr(r, name, v)
            h3 = r.headers['Expires']
            third = show(r.last_modified)
            if {r.headers['Date'], r.headers['Last-Modified'], h3} != {h} or show(r.date) != third:
                return 'response properties differ'
            if isinstance(v, dt.datetime):
                r.retry_after = v
                if r.headers['Retry-After'] != h or show(r.retry_after) != third:
                    return 'retry after differs'
            ir = http.parse_if_range_header(str(http.IfRange(date=v)))
            if show(ir.date) != third or ir.etag is not None:
                return 'if-range differs'
        else:
            third = show(http.parse_date(h.upper() if e['off'] else ' ' + h + ' '))
        return [h, c, show(http.parse_date(h)), show(http.parse_date(c)), third]
    if op == 'days':
        out = []
        for i in range(e['n']):
            x = {'d': e['x']['d'] + i, 's': e['x']['s']}
            h = http.http_date(moment(x))
            if show(http.parse_date(h)) != [x['d'], x['s']]:
                return 'does not parse back: ' + h
            out.append(h)
        return out
    if op == 'parse':
        return show(http.parse_date(e['text']))
    if op == 'now':
        before = int(time.time()) - 2    # gmtime() reads a coarser clock
        x = show(http.parse_date(http.http_date()))
        y = show(http.parse_date(http.cookie_date()))
        return all(before <= a[0] * 86400 + a[1] <= before + 30 for a in (x, y))
    raise AssertionError(op)


def run(case):
    old = os.environ.get('TZ')
    os.environ['TZ'] = case['init']
    time.tzset()
    try:
        log = [{'ret': val('<None>'), 'obs': 0}]
        for e in case['ops']:
            log.append({'ret': capture(do, e), 'obs': 0})
        return log
    finally:
        if old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = old
        time.tzset()


LO = (dt.date(1000, 1, 3) - EPOCH.date()).days
HI = (dt.date(9999, 12, 28) - EPOCH.date()).days
ZONES = ['UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'XXX-14', 'YYY11:15']
MONTHS = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
LONG = 'Monday Tuesday Wednesday Thursday Friday Saturday Sunday'.split()


def gen_moment(r):
    x = r.random()
    if x < .3:
        d = r.randint(-10, 30000)
    elif x < .5:
        y = r.choice([1000, 1600, 1700, 1900, 1999, 2000, 2004, 2037, 2038, 2068, 2069, 2100, 2400, 9999, r.randint(1000, 9999)])
        d = (dt.date(y, r.choice([1, 2, 3, 12]), r.choice([5, 28])) - EPOCH.date()).days + r.randint(-2, 2)
    else:
        d = r.randint(LO, HI)
    return {'d': d, 's': r.choice([0, 86399, 3600 * r.randint(0, 23), r.randint(0, 86399)])}


def case_of(r, s):
    return r.choice([s, s, s, s.lower(), s.upper()])


def gen_parse(r):
    x = gen_moment(r)
    m = moment(x)
    day, mon, year = '%02d' % m.day, MONTHS[m.month - 1], '%04d' % m.year
    clock = m.strftime('%H:%M:%S')
    zone = r.choice(['GMT', 'GMT', 'UTC', 'UT', 'Z', 'EST', 'PDT', '+0000', '-0000', '+0130', '-1100'])
    wd = m.weekday()
    if r.random() < .2:
        day = str(m.day)
    if r.random() < .25:
        year = year[2:]
    mon = case_of(r, mon)
    bad = r.random()
    if bad < .04:
        day = r.choice(['32', '00', '31', '30', '29'])
    elif bad < .07:
        mon = r.choice(['Foo', 'Abc', 'XX'])
    elif bad < .11:
        clock = r.choice(['24:00:00', '12:60:00', '12:00:60', '1:2:3', '09:05'])
    sp = r.choice([' ', ' ', ' ', '  '])
    layout = r.randint(0, 4)
    if layout == 0:
        text = sp.join([case_of(r, LONG[wd][:3]) + ',', day, mon, year, clock, zone])
    elif layout == 1:
        text = sp.join([LONG[wd] + ',', '-'.join([day, mon, year]), clock, zone])
    elif layout == 2:
        text = sp.join([LONG[wd][:3], mon, '%2d' % m.day if r.random() < .5 else day, clock, year if len(year) == 4 else '%04d' % m.year])
    elif layout == 3:
        text = sp.join([day, mon, year, clock, zone])
    else:
        text = r.choice(['foo', '', ' ', 'Thu', 'Thu,', '0', '-1', 'Mon, 01', '12:00:00', 'a b c d e', 'a b c d e f', ', , , , ,', '::', 'Jan 1',
                         'Mon, 01 Foo 2000 00:00:00 GMT', 'Sun, aa Nov 1994 08:49:37 GMT', '-', '--', 'Sun,, 06 Nov', ',', 'GMT', '+0000', '"abc"', 'x-y-z'])
    if r.random() < .2:
        text = r.choice(['', ' ', '\t']) + text + r.choice(['', '  '])
    return {'op': 'parse', 'text': text}


def gen(r):
    x = r.random()
    if x < .03:
        return {'op': 'now'}
    if x < .5:
        return gen_parse(r)
    return {'op': 'format', 'x': gen_moment(r), 'form': r.choice(['naive', 'micro', 'aware', 'aware', 'tuple', 'int', 'float', 'gmtime']),
            'off': r.choice([0, 0, 60, -330, 845, -719, 1, -1])}


def gen_cases(r, n):
    return [{'init': r.choice(ZONES), 'ops': [gen(r) for _ in range(10)]} for _ in range(n)]
