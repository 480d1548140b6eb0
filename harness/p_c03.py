import d_route


def check(c):
    c.conform('Routing', d_route.run, d_route.gen_cases(c.rng(), c.n(1500, 40000), 'C03'),
              mc=[('RoutingMC', 'CONSTANT McOps = "follow"\nCONSTANT McSize = %d\n' % c.n(2, 3))],
              project=d_route.redirects_only)
    c.assumptions = ['an alias is declared for another route with the same endpoint and arguments',
                     'explicit targets (redirect_to) may name another site; that is the program\'s choice']
    return c.finish('random tables rich in branch routes, defaults, aliases and explicit targets crossed '
                    'with paths and query strings, each redirect chain followed to its end; every pair of '
                    'routes of a pool crossed with a pool of paths; distinct (table, operations) cases')
