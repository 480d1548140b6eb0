import d_filename


def check(c):
    r = c.rng()
    c.conform('Filename', d_filename.run, d_filename.gen_cases(r, c.n(3000, 40000)),
              mc=[('FilenameMC', 'CONSTANTS McLen = %d\n' % c.n(2, 3))])
    c.assumptions = ['the device names of Windows are not explored (the check runs elsewhere)', 'characters outside ASCII are those of the table in the specification']
    return c.finish('every text of a few delicate pieces, and seeded longer ones; distinct cases')
