import d_errors


def check(c):
    r = c.rng()
    c.conform('Errors', d_errors.run, d_errors.gen_cases(r, c.n(2000, 20000)),
              mc=[('ErrorsMC', 'CONSTANTS McDepth = 1\n'), ('ErrorsMC', 'CONSTANTS McDepth = %d\n' % c.n(3, 3))])
    c.assumptions = ['errors that are two exceptions at once get everything but the key by name', 'user classes keep the constructor of their base']
    return c.finish('every error made in every way, every short history of registering, wrapping and aborting, and seeded longer ones; distinct cases')
