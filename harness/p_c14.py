import d_views


def check(c):
    r = c.rng()
    c.conform('Views', d_views.run, d_views.gen_cases(r, c.n(3000, 40000)),
              mc=[('ViewsMC', 'CONSTANT McDepth = %d\n' % c.n(3, 4))])
    c.assumptions = ['one view of a header is in use at a time', 'parameter names are tokens',
                     'parameters of the mimetype are only changed when there is a mimetype']
    return c.finish('every history of view operations up to a depth over a small vocabulary, and seeded histories; distinct behaviours')
