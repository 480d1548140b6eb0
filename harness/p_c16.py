import d_cookies


def check(c):
    r = c.rng()
    c.conform('Cookies', d_cookies.run, d_cookies.gen_cases(r, c.n(2500, 30000)),
              mc=[('CookiesMC', 'CONSTANTS McLen = %d McValLen = %d\n' % (c.n(4, 6), c.n(2, 3)))])
    c.assumptions = ['names are tokens other than the reserved attribute names', 'Cookie headers contain no line breaks',
                     'explicit expiry texts are passed on as they are']
    return c.finish('every header text and every value up to a length over the characters that matter, seeded histories; distinct cases')
