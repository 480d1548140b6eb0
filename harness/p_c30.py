import d_files


def check(c):
    r = c.rng()
    c.conform('Files', d_files.run, d_files.gen_cases(r, c.n(1500, 20000)),
              mc=[('FilesMC', 'CONSTANTS McDepth = 1\n'), ('FilesMC', 'CONSTANTS McDepth = %d\n' % c.n(4, 5))])
    c.assumptions = ['a stream that was closed is not saved to a path (whether the place is emptied first is open)',
                     'file names sent in forms have no quotes or line breaks and are ASCII']
    return c.finish('every way of wrapping a stream, every sequence of a few operations on short files, and seeded longer ones; distinct cases')
