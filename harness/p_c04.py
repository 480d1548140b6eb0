import d_dispatch


def check(c):
    r = c.rng()
    c.conform('Dispatch', d_dispatch.run, d_dispatch.gen_cases(r, c.n(1500, 30000)),
              mc=[('DispatchMC', 'CONSTANT McDepth = %d\nCONSTANT McLen = %d\n' % (c.n(3, 4), c.n(3, 4)))])
    c.assumptions = ['a dispatcher is not added to itself', 'class views use the five methods they support']
    return c.finish('histories of adding bindings, views, class views and dispatchers to dispatchers and looking up '
                    'names, methods and accept headers; distinct cases')
