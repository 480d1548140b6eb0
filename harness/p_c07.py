import d_life
import d_resp


def check(c):
    r = c.rng()
    consts = 'CONSTANTS\n McDepth = 9\n McChunks = %d\n McMw = %d\n' % ((2, 2) if not c.thorough else (4, 3))
    c.conform('Lifecycle', d_life.run, d_life.gen_cases(r, c.n(1500, 30000)), mc=[('LifecycleMC', consts)])
    # responses used without an application: direct WSGI use, with-statement,
    # buffering and freezing of streamed bodies
    c.conform('Resp', d_resp.run, d_resp.gen_cases(r, c.n(1500, 30000), 5))
    c.assumptions = ['a server calls close() exactly once on the iterable it was given',
                     'bodies in pass-through mode are only used through an application']
    return c.finish('all client behaviours (every number of chunks taken before close) of every '
                    'bounded configuration, plus seeded random ones; distinct cases')
