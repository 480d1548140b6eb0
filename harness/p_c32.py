import d_builder


def check(c):
    r = c.rng()
    c.conform('Builder', d_builder.run, d_builder.gen_cases(r, c.n(1500, 15000)),
              mc=[('BuilderMC', 'CONSTANTS McDepth = %d\n' % c.n(3, 4))])
    c.assumptions = ['hosts are lower case, base URLs have a host and no port with leading zeros, field and file names have no quotes or line breaks',
                     'no files are added after the builder was closed',
                     'values no charset of the request can encode are not generated']
    return c.finish('every sequence of a few changes and builds from bare descriptions, and seeded longer ones; distinct cases')
