import d_multi


def check(c):
    r = c.rng()
    c.conform('MultiDict', d_multi.run, d_multi.gen_cases(r, c.n(3000, 40000)),
              mc=[('MultiDictMC', 'CONSTANTS McDepth = %d McMax = %d\n' % (c.n(3, 4), c.n(4, 5)))])
    c.assumptions = ['keys and values are texts (hashable, comparable)',
                     'setlistdefault is given at least one value']
    return c.finish('histories of two dictionaries (plain or ordered) and their combination; distinct cases')
