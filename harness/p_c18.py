import d_mounts


def check(c):
    r = c.rng()
    c.conform('Mounts', d_mounts.run, d_mounts.gen_cases(r, c.n(2500, 30000)),
              mc=[('MountsMC', 'CONSTANTS McDepth = %d McSegs = %d\n' % (c.n(3, 4), c.n(3, 4)))])
    c.assumptions = ['files keep their size or their modification second when they do not change; two versions of a file differ in one of them',
                     'file systems are case sensitive, exported directories contain no symbolic links', 'paths are ASCII (documented limitation)']
    return c.finish('every path of a few segments over small mount and export tables, all sequences of fetches and changes to a bound, and seeded longer ones; distinct cases')
