import d_auth


def check(c):
    r = c.rng()
    c.conform('Auth', d_auth.run, d_auth.gen_cases(r, c.n(3000, 30000)),
              mc=[('AuthMC', 'CONSTANTS McUser = %d McVal = %d\n' % (c.n(2, 3), c.n(2, 3)))])
    c.assumptions = ['names and passwords sent with the Basic scheme are octets; they are read as Latin-1, the way WSGI carries octets in text',
                     'base 64 text is either well formed, not padded or one character too long', 'header text has no line breaks']
    return c.finish('every user name, password and parameter value of a few delicate characters in every way of writing it, and seeded longer and malformed headers; distinct cases')
