import d_forms


def check(c):
    r = c.rng()
    c.conform('HeaderForms', d_forms.run, d_forms.gen_cases(r, c.n(3500, 40000)),
              mc=[('HeaderFormsMC', 'CONSTANTS McLen = %d McRangeLen = %d\n' % (c.n(4, 6), c.n(4, 6)))])
    c.assumptions = ['texts contain no line breaks', 'keys and option names are tokens',
                     'file names that start with a backslash are read as network paths (documented)']
    return c.finish('every text up to a length over the delimiters, and seeded texts and values; distinct cases')
