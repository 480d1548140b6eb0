import d_request


def check(c):
    r = c.rng()
    c.conform('Request', d_request.run, d_request.gen_cases(r, c.n(3000, 30000)),
              mc=[('RequestMC', 'CONSTANT McDepth = %d\n' % c.n(2, 3))])
    c.assumptions = ['the body is at least as long as announced (C17 covers disconnects)', 'header values are Latin-1 text, as WSGI carries them',
                     'numbers in headers have at most nine digits and no underscores', 'each request is closed once']
    return c.finish('every way of announcing and reading a short body, every query, path and header value of a few delicate characters, and seeded environments with many headers; distinct cases')
