import catalog as C
def run(c):
    r = c.rng
    c.model('MCCatalog', c.pick('MCCatalog', 'MCCatalogT'))
    beh = c.generate('MCCatalog', 'GenCatalog', workers=1, args=('-simulate', f'num={c.pick(60, 600)}', '-depth', '20', '-seed', str(c.seed)))
    beh = r.sample(beh, min(len(beh), c.pick(500, 6000)))
    cases = []
    for h in beh:
        fams = r.choice(C.FAMS); vers = r.choice(C.VERS); st = []
        def look():
            x = {'op': 'ask', 'par': r.choice([0, 0, 1]), 'qs': C.asks(r, fams[:2], vers, r.choice([3, 6, 12]))}
            if x['par']: x['qs'] = [q for q in x['qs'] for _ in range(3)]
            st.append(x)
            if r.random() < .4: st.append(C.fsr(r, r.choice([1, 2]), fams[:2]))
        for i, o in enumerate(h):
            f = fams[o['i'] - 1]; v = vers[o['j'] - 1] if o['j'] else ''
            if o['op'] in ('put', 'break'):
                name = r.choice(fams[:3]) if r.random() < .06 else f
                ver = (r.choice(vers + ['', '3']) if o['j'] == 0 or r.random() < .1 else v)
                st.append(C.put(r, o['r'], f, v, fams, ok=o['op'] == 'put' or r.random() < .6, name=name, ver=ver, rich=r.random() < .3))
            else: st.append({'op': o['op'], 'r': o['r'], 'f': f, 'v': v})
            if r.random() < .35 or i == len(h) - 1: look()
        cases.append({'id': f'walk-{len(cases)}', 'stateful': 1, 'init': {'repos': 2}, 'steps': st})
    # large repositories, many readers at once
    for n in range(c.pick(60, 600)):
        k = r.choice([1, 2, 3]); fams, vers, st = C.world(r, k)
        if r.random() < .5: x = r.choice(st); st.append(dict(x, ok=False, text=r.choice(C.BAD)))
        for par in (0, 1):
            qs = C.asks(r, fams, vers, 16); st.append({'op': 'ask', 'par': par, 'qs': qs + (qs if par else [])})
        st.append(C.fsr(r, r.randint(1, k), fams))
        cases.append({'id': f'big-{n}', 'stateful': 1, 'init': {'repos': k}, 'steps': st})
    c.validate('P10', c.run_impl('catalog', cases, jobs=8, unpriv=True))
