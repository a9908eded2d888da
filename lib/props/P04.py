import itertools

def rq(n, k='any', v=0, w=False, x=False):
    return {'n': n, 'k': k, 'v': v, 'w': w, 'x': x}

def pkg(v, req=(), var=(), pre=False, suffix=''):
    return {'v': v, 'pre': pre, 'req': list(req), 'var': [list(x) for x in var], 'suffix': suffix}

def prob(req, fam, latest=True, pre=False, strict=True):
    return {'req': req, 'fam': [{'n': n, 'pk': pk} for n, pk in fam], 'latest': latest, 'pre': pre, 'strict': strict}

def rnd_req(r, names, depth=3, selfn=None):
    ns = [n for n in names if n != selfn] or names
    n = r.choice(ns)
    k = r.choice(['any', 'any', 'eq', 'ge', 'ge', 'lt', 'le', 'gt', 'pre'])
    w = r.random() < .12
    return rq(n, k, 0 if k == 'any' else r.randint(1, depth), w, not w and r.random() < .12)

def rnd(r, big=False):
    nf = r.randint(2, 7 if big else 4)
    names = ['a', 'b', 'c', 'd', 'e', 'f', 'g'][:nf]
    nv = r.randint(1, 4 if big else 3)
    acyc = r.random() < .8
    fam = []
    for i, n in enumerate(names):
        later = names[i + 1:] if acyc else [x for x in names if x != n]
        pk = []
        vs = r.sample(range(1, nv + 1), r.randint(1, nv))
        suffix = r.choice(['', '', '.0', '.5.2'])
        if r.random() < .06: vs = [0]
        for v in vs:
            req = [rnd_req(r, later, nv) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))] if later else []
            var = []
            if later and r.random() < .2:
                var = [[rnd_req(r, later, nv) for _ in range(r.randint(1, 2))] for _ in range(r.randint(1, 3))]
            pk.append(pkg(v, req, var, pre=v > 0 and r.random() < .08, suffix=suffix))
        if r.random() < .95: fam.append((n, pk))
    if not fam: fam = [('a', [pkg(1)])]
    req = [rnd_req(r, names, nv) for _ in range(r.randint(1, 3))]
    return prob(req, fam, r.random() < .8, r.random() < .3, r.random() < .6)

def plain(r):
    """one package with several versions and requirements; the others are leaves"""
    names = list('abcd')[:r.randint(2, 4)]
    def q(ns):
        k = r.choice(['any', 'eq', 'eq', 'ge', 'lt', 'le', 'gt'])
        return rq(r.choice(ns), k, 0 if k == 'any' else r.randint(1, 3))
    fam = [('a', [pkg(v, [q(names[1:] + (['zz'] if r.random() < .1 else [])) for _ in range(r.randint(0, 3))]) for v in range(1, r.randint(3, 5))])]
    for n in names[1:]: fam.append((n, [pkg(v) for v in r.sample([1, 2, 3], r.randint(1, 3))]))
    r.shuffle(fam)
    return prob([q(names) for _ in range(r.randint(0, 2))] + [q(['a'])], fam, r.random() < .8)

def revise(r):
    """a selection that is revised late: a chain ends in a requirement that replaces an early choice, whose
    dependencies (with requirements of their own) are then no longer wanted"""
    k = r.randint(1, 5)
    leaf = lambda: rq(r.choice(['l', 'l', 'm']), *r.choice([('lt', 2), ('ge', 2), ('eq', 1), ('eq', 3), ('le', 2), ('any', 0), ('gt', 2)]), r.random() < .1, r.random() < .1)
    fam = [('a', [pkg(1, [rq('x')])])]
    fam.append(('x', [pkg(1, [leaf()] if r.random() < .3 else []), pkg(2, r.choice([[], [rq('h')], [leaf()]])), pkg(3, [rq('h')] + ([leaf()] if r.random() < .3 else []))]))
    fam.append(('h', [pkg(v, [leaf() for _ in range(r.randint(1, 2))] + ([rq('g')] if r.random() < .4 else [])) for v in range(1, r.randint(2, 3))]))
    fam.append(('g', [pkg(1, [leaf()])]))
    fam += [(n, [pkg(v) for v in r.sample([1, 2, 3], r.randint(1, 3))]) for n in ('l', 'm')]
    for i in range(1, k + 1):
        q = [rq(f'c{i + 1}')] if i < k else [r.choice([rq('x', 'lt', 3), rq('x', 'lt', 2), rq('x', 'ge', 3, False, True), rq('x', 'eq', 1), rq('x', 'le', 2, True)])]
        if r.random() < .2: q.append(leaf())
        if r.random() < .3: q.append(rq('z1'))
        if i == k and r.random() < .6: q.append(rq('z1'))
        r.shuffle(q)
        fam.append((f'c{i}', [pkg(1, q)]))
    j = r.randint(1, 4)
    fam += [(f'z{i}', [pkg(1, [rq(f'z{i + 1}')] if i < j else [leaf()])]) for i in range(1, j + 1)]
    req = [rq('a'), rq('c1')] + ([rq('l')] if r.random() < .5 else []) + ([leaf()] if r.random() < .3 else []) + ([rq('x', 'ge', 1)] if r.random() < .2 else [])
    if r.random() < .4: r.shuffle(req)
    r.shuffle(fam)
    return prob(req, fam, r.random() < .9, False, r.random() < .3)

def exhaustive():
    """two families with two versions each; every package may require the other family in one of several ways"""
    for b1, b2 in itertools.product(range(6), repeat=2):
        for a1, a2 in itertools.product(range(7), repeat=2):
            def mk(n, o):
                opts = [[], [rq(n)], [rq(n, 'eq', 1)], [rq(n, 'eq', 2)], [rq(n, 'lt', 2, True)], [rq(n, 'any', 0, False, True)], [rq(n, 'eq', 2, False, True)]]
                return opts[o]
            bopt = lambda o: [[], [rq('a', 'eq', 1)], [rq('a', 'ge', 2)], [rq('c')], [rq('a', 'lt', 2, False, True)], [rq('a', 'eq', 1, True)]][o]
            fam = [('a', [pkg(1, mk('b', a1)), pkg(2, mk('b', a2))]), ('b', [pkg(1, bopt(b1)), pkg(2, bopt(b2))])]
            yield fam

REQS = [[rq('a')], [rq('a'), rq('b')], [rq('b'), rq('a')], [rq('a', 'eq', 1), rq('b')], [rq('b', 'ge', 1), rq('a', 'lt', 2)],
        [rq('a'), rq('b', 'eq', 1, True)], [rq('b'), rq('a', 'eq', 2, False, True)], [rq('a'), rq('b', 'any', 0, False, True)]]

def cases_of(c):
    r = c.rng
    cases = []
    def add(p, tag):
        cases.append({'id': f'{tag}-{len(cases)}', 'init': p, 'steps': [{'op': 'resolve', 'fac': 1 if r.random() < .25 else 0}]})
    k = 0
    for fam in exhaustive():
        for i, q in enumerate(REQS):
            k += 1
            if not c.thorough and k % 7 != c.seed % 7: continue
            for strict in (True, False):
                if c.thorough or r.random() < .5: add(prob(q, fam, strict=strict), 'ex')
    for i in range(c.pick(3000, 60000)): add(rnd(r, i % 2 == 0), 'rnd')
    for i in range(c.pick(1200, 15000)): add(revise(r), 'rev')
    for i in range(c.pick(600, 8000)): add(plain(r), 'plain')
    return cases

def run(c):
    c.model('MCResolve', c.pick('MCResolve', 'MCResolveT'))
    recs = c.run_impl('solver', cases_of(c), jobs=8, timeout=c.pick(200, 700))
    c.validate('P04', recs)
