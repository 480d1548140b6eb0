import d_dates


def check(c):
    r = c.rng()
    c.conform('Dates', d_dates.run, d_dates.gen_cases(r, c.n(2500, 30000)),
              mc=[('DatesMC', 'CONSTANTS McYearStep = %d McSecStep = %d\n' % (c.n(59, 1), c.n(97, 1)))])
    c.assumptions = ['moments lie in the years 1000 to 9999', 'times without a zone are UTC']
    return c.finish('calendar sweep by years and seconds, seeded moments in every input form, zone and layout; distinct cases')
