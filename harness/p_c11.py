import d_headers
import d_hwrite


def check(c):
    r = c.rng()
    c.conform('Headers', d_headers.run, d_headers.gen_cases(r, c.n(1200, 25000), 8, 0.45))
    c.conform('HeaderWrite', d_hwrite.run, d_hwrite.gen_cases(r, c.n(1500, 25000)),
              mc=['HeaderWriteMC'])
    c.assumptions = ['header names are chosen by the program, not by the client, and are not checked']
    return c.finish('every entry point that writes a response header crossed with texts with and '
                    'without line breaks, alone and in random histories; distinct cases')
