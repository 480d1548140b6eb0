import d_urlconv


def check(c):
    r = c.rng()
    c.conform('UrlConv', d_urlconv.run, d_urlconv.gen_cases(r, c.n(2500, 30000)),
              mc=[('UrlConvMC', 'CONSTANTS McPart = %d McUser = %d\n' % (c.n(2, 3), c.n(3, 4)))])
    c.assumptions = ['urllib.parse of the installed Python takes URLs apart as the specification says',
                     'host names use the labels of a table made with the idna codec']
    return c.finish('every combination of pieces in every part of a URL, and seeded whole URLs; distinct cases')
