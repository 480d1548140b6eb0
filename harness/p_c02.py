import d_route


def check(c):
    c.conform('Routing', d_route.run, d_route.gen_cases(c.rng(), c.n(1500, 40000), 'C02'),
              mc=[('RoutingMC', 'CONSTANT McOps = "build"\nCONSTANT McSize = %d\n' % c.n(2, 3))])
    c.assumptions = ['charset utf-8; values are text, integers, floats or UUIDs']
    return c.finish('random route tables crossed with endpoints and value assignments (fitting and not), '
                    'built, and built then matched back; every pair of routes of a pool crossed with a '
                    'pool of value assignments; distinct (table, operations) cases')
