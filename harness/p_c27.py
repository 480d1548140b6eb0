import d_redirect


def check(c):
    r = c.rng()
    c.conform('Redirects', d_redirect.run, d_redirect.gen_cases(r, c.n(1500, 15000)),
              mc=[('RedirectsMC', 'CONSTANTS McLoc = %d McPath = %d\n' % (c.n(2, 3), c.n(2, 3)))])
    c.assumptions = ['urllib.parse of the installed Python resolves references as the specification says (references with empty segments where dot segments are resolved, with parameters, or with a scheme but no host are not generated)',
                     'the path given to append_slash_redirect does not end in a slash', 'international labels are those of the table in the specification']
    return c.finish('every location of a head and a few pieces, every path of a few pieces, and seeded responses sent to several environments; distinct cases')
