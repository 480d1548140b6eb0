import d_errdisp


def check(c):
    r = c.rng()
    c.conform('ErrDispatch', d_errdisp.run, d_errdisp.gen_cases(r, c.n(800, 20000)),
              mc=[('ErrDispatchMC', 'CONSTANT McSize = %d\n' % c.n(1, 2))])
    c.assumptions = ['handlers take the documented five arguments']
    return c.finish('applications with random exception hierarchies (multiple inheritance), error handlers, nested '
                    'handler dispatchers and views, answering requests with accept headers; distinct cases')
