import d_route


def check(c):
    c.conform('Routing', d_route.run, d_route.gen_cases(c.rng(), c.n(1500, 40000), 'C01'),
              mc=[('RoutingMC', 'CONSTANT McOps = "match"\nCONSTANT McSize = %d\n' % c.n(2, 3))],
              project=d_route.only_match)
    c.assumptions = ['charset utf-8; integers up to 12 digits, floats without exponent',
                     'no variable is also given as a default of the same route']
    return c.finish('random route tables (nested factories, hosts, converters, defaults) crossed with '
                    'paths derived from them, plus every pair of routes from a pool of overlapping '
                    'patterns crossed with a pool of paths; distinct (table, operations) cases')
