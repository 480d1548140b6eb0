import d_client


def check(c):
    r = c.rng()
    c.conform('Client', d_client.run, d_client.gen_cases(r, c.n(2400, 24000)),
              mc=[('ClientMC', 'CONSTANTS McDepth = 2 McLocs = %d McSets = %d\n' % c.n((7, 4), (9, 7)))])
    c.assumptions = ['host names are lower case names', 'a redirect carries a Location', 'Locations hold no %2F and no empty segments',
                     'which cookies are kept and sent follows the Netscape policy of http.cookiejar']
    return c.finish('every two-page site of a few statuses, Locations and cookies asked twice; seeded request descriptions, applications, redirect graphs and cookies; every delicate path, base, query, form name and value on its own; distinct cases')
