import catalog as C
def run(c):
    r = c.rng
    c.model('MCCatalog', c.pick('MCCatalogG', 'MCCatalogGT'))
    beh = c.generate('MCCatalog', 'GenCatalog', workers=1, args=('-simulate', f'num={c.pick(20, 200)}', '-depth', '20', '-seed', str(c.seed + 7)))
    beh = r.sample(beh, min(len(beh), c.pick(120, 1500)))
    cases = []
    def queries(fams, n):
        st = []
        for _ in range(n):
            k = r.random()
            if k < .55: st.append(C.search(r, fams))
            else:
                t = r.choice(fams + ['other', 'none']); d = r.choice([-1, -1, 1, 2, 0]); b = r.random() < .4; p = r.random() < .4
                base = {'target': t, 'depth': d, 'b': b, 'p': p}
                if k < .75: st.append(dict(base, op='depends', args=['depends', t] + (['-d', str(d)] if d >= 0 else []) + (['-b'] if b else []) + (['-p'] if p else []) + (['-q'] if r.random() < .3 else [])))
                elif k < .9: st.append(dict(base, op='tree'))
                else: st.append({'op': 'plugins', 'target': r.choice(fams)})
        return st
    for h in beh:
        fams = r.choice(C.FAMS); vers = r.choice(C.VERS); st = []
        for o in h:
            f = fams[o['i'] - 1]; v = vers[o['j'] - 1] if o['j'] else ''
            if o['op'] in ('put', 'break'): st.append(C.put(r, o['r'], f, v, fams, ok=o['op'] == 'put' or r.random() < .85))
            else: st.append({'op': o['op'], 'r': o['r'], 'f': f, 'v': v})
        cases.append({'id': f'walk-{len(cases)}', 'stateful': 1, 'init': {'repos': 2}, 'steps': st + queries(fams, 6)})
    for n in range(c.pick(120, 1200)):
        k = r.choice([1, 1, 2, 3]); fams, vers, st = C.world(r, k)
        if r.random() < .15: x = r.choice(st); st.append(dict(x, ok=False, text=r.choice(C.BAD)))
        if r.random() < .3: x = r.choice(st); st.append({'op': 'hide', 'r': x['r'], 'f': x['f'], 'v': x['v']})
        st += queries(fams, c.pick(14, 30))
        if r.random() < .2: st.append({'op': 'badsearch', 'args': ['search', '--format', r.choice(['json', 'table'])] + r.choice([['--regex', 'a('], ['--newer-than', 'soon', 'a'], ['--older-than', '99999999999999999999y', 'a'], ['--newer-than', '9223372036854775807y', 'a'], ['--newer-than', '5é', 'a']])})
        cases.append({'id': f'world-{n}', 'stateful': 1, 'init': {'repos': k}, 'steps': st})
    # the forms meant for people: nothing to compare, but nothing may go wrong
    for n in range(c.pick(15, 100)):
        fams, vers, st = C.world(r, 1)
        for d in ('é' * 40, 'x' * 36 + 'é' * 5, '日本語' * 20, 'a' * 37, 'a' * 38):
            f = r.choice(fams); v = r.choice(vers); p = C.put(r, 1, f, v, fams)
            if p['p']['desc']: p['text'] = '\n'.join(l for l in p['text'].split('\n') if not l.startswith('description'))
            p['p'] = dict(p['p'], desc=[C.cd(d)]); p['text'] += f'description = {C.q(d)}\n'; st.append(p)
            st.append({'op': 'form', 'args': ['search', f] + r.choice([[], ['-v'], ['--format', 'detailed'], ['--format', 'table', '--latest-only']])})
        cases.append({'id': f'form-{n}', 'stateful': 1, 'init': {'repos': 1}, 'steps': st})
    c.validate('P11', c.run_impl('catalog', cases, jobs=8, unpriv=True))
