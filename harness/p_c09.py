import d_cond


def check(c):
    r = c.rng()
    c.conform('Conditional', d_cond.run, d_cond.gen_cases(r, c.n(2500, 40000)),
              mc=[('ConditionalMC', 'CONSTANT McDepth = %d\n' % c.n(3, 5))])
    c.assumptions = ['tag lists contain no line breaks', 'dates in the three forms HTTP allows']
    return c.finish('response histories (tags, dates, data) crossed with conditional requests, and tag lists; '
                    'distinct cases')
