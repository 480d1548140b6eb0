import d_streams


def check(c):
    r = c.rng()
    c.conform('Streams', d_streams.run, d_streams.gen_cases(r, c.n(3000, 40000)),
              mc=[('StreamsMC', 'CONSTANTS McDepth = %d McLen = %d McText = %d\n' % (c.n(3, 4), c.n(3, 4), c.n(4, 6)))])
    c.assumptions = ["the server's stream delivers as many bytes as asked for unless the client sent fewer (PEP 3333); fragmented delivery is explored for the line, chunk and block iterators",
                     'sizes given to readlines are positive', 'announced lengths are ASCII digits with an optional sign']
    return c.finish('every sequence of reads on every short body and limit, every cut of every short text, and seeded longer ones; distinct cases')
