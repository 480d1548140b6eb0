import json

import core
import d_threads

TABLE = '''CONSTANTS Design = "%s" Adders = {"a1", "a2"} Readers = {"r1", "r2"} Rounds = %d
SPECIFICATION Spec
INVARIANTS AnswerOk NothingLost LockOk
CHECK_DEADLOCK FALSE
'''


def check(c):
    r = c.rng()
    cases = [d_threads.gen_case(r) for _ in range(c.n(160, 1500))]
    general = len(cases)
    cases += [d_threads.gen_same(r, cv) for cv in d_threads.KINDS for _ in range(c.n(2, 12))]
    # how long each thread runs when left alone
    plain = [{'c': t, 'progs': p, 'warm': w, 'scheds': [[]]} for t, p, w in cases]
    first = core.run_driver(d_threads.explore, plain)
    items = []
    for k, ((t, p, w), got) in enumerate(zip(cases, first)):
        if 'error' in got:
            c.violation('Threads', {'init': t, 'ops': []}, [], got, {'at': 'alone', 'got': got})
            continue
        counts = got['log'][0][2]
        scheds = d_threads.schedules(r, p, counts, 240 if k >= general else c.n(40, 120))
        for i in range(0, len(scheds), 20):
            items.append({'c': t, 'progs': p, 'warm': w, 'scheds': scheds[i:i + 20]})
        if c.thorough or r.random() < .2:
            items.append({'c': t, 'progs': p, 'warm': w, 'opcodes': True,
                          'scheds': d_threads.schedules(r, p, [6 * n for n in counts], 20)})
    hists, seen, ran = [], set(), 0
    for it, got in zip(items, core.run_driver(d_threads.explore, items)):
        if 'error' in got:
            c.violation('Threads', {'init': it['c'], 'ops': []}, [], got, {'at': 'schedules', 'scheds': it['scheds'], 'got': got})
            continue
        ran += len(it['scheds'])
        for h, s, n in got['log']:
            k = json.dumps([it['c'], h], sort_keys=True)
            if k not in seen:
                seen.add(k)
                hists.append({'init': dict(it['c'], progs=it['progs'], warm=it['warm'], sched=[[a, min(b, 10 ** 6)] for a, b in s],
                                           opcodes=it.get('opcodes', False)), 'ops': h})
    c.notes['schedules_run'] = ran
    c.conform('Threads', d_threads.accept, hists)
    for design, fails in [('publish', None), ('norecheck', None), ('flagfirst', None),
                          ('inplace', 'AnswerOk'), ('unlocked', 'NothingLost'), ('flagearly', 'AnswerOk')]:
        if fails or design == 'publish' or c.thorough:
            cfg = TABLE % (design, 3 if c.thorough and not fails else 2)
            c.model('Table', cfg + ('PROPERTIES Ends AddsEnd\n' if c.thorough and not fails else ''), fails)
    c.assumptions = ['threads switch between lines (some schedules: between bytecodes) of the package itself',
                     'routes added while others match have no default values or aliases']
    return c.finish('every place for one thread to be overtaken by another, and seeded schedules with two switches; distinct histories')
