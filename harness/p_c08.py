import d_resp


def check(c):
    r = c.rng()
    cases = d_resp.gen_cases(r, c.n(3000, 60000), 8)
    consts = 'CONSTANTS\n McDepth = %d\n' % (3 if not c.thorough else 4)
    c.conform('Resp', d_resp.run, cases, mc=[('RespMC', consts)])
    c.assumptions = ['the caller does not replace the body attribute by hand after a length was set']
    return c.finish('every transition of the bounded response model and seeded random '
                    'histories of body operations ended by sending; distinct cases')
