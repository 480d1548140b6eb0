import d_immut


def check(c):
    r = c.rng()
    c.conform('Immutable', d_immut.run, d_immut.gen_cases(r, c.n(3000, 40000)),
              mc=[('ImmutableMC', 'CONSTANT McDepth = %d\n' % c.n(4, 6))])
    c.assumptions = ['keys and values are hashable texts',
                     'only public operations are used (no direct call of dict or list methods on the object)']
    return c.finish('histories of attempted changes of 12 kinds of immutable objects and changes of their copies; '
                    'distinct cases')
