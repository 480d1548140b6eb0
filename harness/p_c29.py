import d_app


def check(c):
    r = c.rng()
    c.conform('App', d_app.run, d_app.gen_cases(r, c.n(900, 9000)),
              mc=[('AppMC', 'CONSTANTS McDepth = 1\n'), ('AppMC', 'CONSTANTS McDepth = 2\n')])
    c.assumptions = ['applications are built for an absolute http(s) address or for none', 'routes have no subdomain or host',
                     'a route object is registered with one application only (several builds use routes wrapped by a factory)',
                     'without an address, paths with empty or dot segments or parameters are not redirected']
    return c.finish('every combination of a few layers and handlers, pairs of building and using operations, and seeded histories; distinct cases')
