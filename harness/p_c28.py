import d_head


def check(c):
    r = c.rng()
    c.conform('RespHead', d_head.run, d_head.gen_cases(r, c.n(1500, 15000)),
              mc=[('RespHeadMC', 'CONSTANTS McDepth = %d\n' % c.n(2, 2))])
    c.assumptions = ['a status text is not blank and has no line break', 'numbers in headers are ASCII without underscores, of at most nine digits or beyond the calendar',
                     'years have four digits', 'None is only assigned to retry_after']
    return c.finish('every pair of operations from a small set on a new response, and seeded histories of setting, reading, converting and sending; distinct cases')
