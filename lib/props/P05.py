from props.P04 import *

def fits(r):
    """larger acyclic problems whose constraints rarely clash"""
    names = [chr(97 + i) for i in range(r.randint(3, 9))]
    fam = []
    for i, n in enumerate(names):
        later = names[i + 1:]
        def q():
            k = r.choice(['any', 'any', 'ge', 'le', 'lt'])
            w = r.random() < .15
            return rq(r.choice(later), k, 0 if k == 'any' else r.randint(1, 2) if k == 'ge' else r.randint(3, 5), w)
        vs = r.sample(range(1, 12), r.randint(2, 5))
        fam.append((n, [pkg(v, [q() for _ in range(r.choice([0, 1, 2]))] if later else [],
                            [[q()]] if later and r.random() < .1 else [], pre=r.random() < .1, suffix=r.choice(['', '.1', '.0.7'])) for v in vs]))
    r.shuffle(fam)
    return prob([rq(n, r.choice(['any', 'ge', 'pre']), r.choice([1, 2, 3])) for n in r.sample(names, r.randint(1, 3))], fam,
                r.random() < .75, r.random() < .3, r.random() < .6)

def run(c):
    c.model('MCResolve', c.pick('MCResolve', 'MCResolveT'))
    r = c.rng
    cases = []
    def add(p, tag):
        cases.append({'id': f'{tag}-{len(cases)}', 'init': p, 'steps': [{'op': 'resolve', 'fac': 1 if r.random() < .25 else 0}]})
    for i in range(c.pick(1500, 25000)): add(fits(r), 'fits')
    for i in range(c.pick(1200, 15000)): add(plain(r), 'plain')
    for i in range(c.pick(800, 15000)): add(rnd(r, i % 2 == 0), 'rnd')
    recs = c.run_impl('solver', cases, jobs=8, timeout=c.pick(200, 700))
    c.validate('P04', recs, cfg='P05')
