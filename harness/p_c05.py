import d_accept


def check(c):
    r = c.rng()
    c.conform('Accept', d_accept.run, d_accept.gen_cases(r, c.n(1500, 40000)),
              mc=[('AcceptMC', 'CONSTANT McSize = %d\n' % c.n(1, 2))])
    c.assumptions = ['quality values are decimal numbers with at most three places or not numbers at all',
                     'content types, languages and charsets are written in lower case']
    return c.finish('lists of representations crossed with Accept, Accept-Language and Accept-Charset headers, well '
                    'formed and malformed; distinct cases')
