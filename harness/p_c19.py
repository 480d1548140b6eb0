import d_hosts


def check(c):
    r = c.rng()
    c.conform('Hosts', d_hosts.run, d_hosts.gen_cases(r, c.n(2500, 25000)),
              mc=[('HostsMC', 'CONSTANTS McLen = %d\n' % c.n(2, 3))])
    c.assumptions = ['host names are in lower case; trusted names are well formed', 'international labels are those of the table in the specification']
    return c.finish('every host text of a few pieces against small lists of trusted names, and seeded environments with forwarded, named and default hosts, paths and query strings; distinct cases')
