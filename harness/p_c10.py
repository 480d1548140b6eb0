import d_headers


def check(c):
    r = c.rng()
    cases = d_headers.gen_cases(r, c.n(1500, 30000), 14, 0.05)
    depth = 'CONSTANTS\n McDepth = %d\n McLen = %d\n' % ((3, 2) if not c.thorough else (5, 3))
    c.conform('Headers', d_headers.run, cases, mc=[('HeadersMC', depth)])
    c.assumptions = ['header names are text; extended slices (steps) are not used']
    return c.finish('every transition of the bounded header model and seeded random '
                    'histories; a case counts once if distinct')
