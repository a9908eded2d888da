def run(c):
    r = c.rng
    c.model('MCStore', c.pick('MCStore', 'MCStoreT'))
    n = c.pick(120, 2500)
    beh = c.generate('MCStore', 'GenStore', workers=1, args=('-simulate', f'num={n}', '-depth', '90', '-seed', str(c.seed)))
    cases = []
    def add(tag, steps, nn=2):
        names = r.choice([['foo', 'bar'], ['python', 'python_lib'], ['a', 'b2']])[:nn]
        vers = r.choice([['1.0', '1.1', '2.0'], ['1.9', '1.10', '10'], ['1.0.alpha', '1.0.beta', '2'], ['0.1', '2024.1', '2024.10.2']])
        cases.append({'id': f'{tag}-{len(cases)}', 'stateful': 1, 'init': {'nr': 3, 'names': names, 'vers': vers}, 'steps': steps})
    def cut(o):
        return dict(o, at=r.randint(1, 24), mode=r.choice(['crash', 'fail', 'fail']), sticky=r.randint(0, 1))
    for h in beh:
        st = []
        for o in h:
            if o['op'] in ('cp', 'mv', 'rm', 'since') and o['dry'] == 0 and (o['mode'] == 'cut' or r.random() < .1):
                st.append(cut(o))
                if o['op'] in ('cp', 'mv') and r.random() < .7: st.append(dict(o, at=0, mode='', force=1))
            else: st.append(dict(o, at=0, mode=''))
        add('walk', st)
    O = lambda op, ui, **k: dict({'op': op, 'ui': ui, 'n': 1, 'v': 1, 'paths': [1], 'dest': 2, 'force': 0, 'dry': 0, 'keep': 0, 'days': 0, 'k': 0, 'at': 0, 'mode': '', 'sticky': 0}, **k)
    P = lambda d, v, k, n=1, **x: O('put', 'lib', n=n, v=v, dest=d, k=k, **x)
    # each operation interrupted at every call, from a few states
    for ui in ('lib', 'cli'):
        stock = [P(1, 1, 1), P(2, 1, 2), P(3, 1, 3), P(1, 2, 2), P(2, 3, 1, n=2)]
        ops = [O('cp', ui, force=1), O('cp', ui, v=2), O('mv', ui, force=1, paths=[1, 3]), O('mv', ui, v=2), O('rm', ui, paths=[1, 2]), O('rm', ui, v=0, paths=[1, 3])]
        if ui == 'cli': ops += [O('since', ui, n=2, paths=[2, 3], days=5)]
        for op in ops:
            for at in range(1, c.pick(30, 60)):
                modes = [('crash', 0), ('fail', 0), ('fail', 1)]
                for mode, sticky in (modes if c.thorough else [modes[(at + c.seed) % 3]]):
                    pre = stock + ([O('mark', 'lib', n=2, v=3, dest=2, days=9)] if op['op'] == 'since' else [])
                    add('cut', pre + [dict(op, at=at, mode=mode, sticky=sticky), dict(op, force=1)])
    # the name-version directory layout, as a source of the library's operations
    for op in ('cp', 'mv'):
        for keep in (0, 1):
            add('alt', [P(1, 1, 2, alt=1), P(3, 1, 1), O(op, 'lib', keep=keep if op == 'mv' else 0, paths=[1, 3])])
    # the destination is among the search paths, before or after the source
    for ui in ('lib', 'cli'):
        for op in ('cp', 'mv'):
            for paths in ([1, 2], [2, 1], [1, 2, 3], [3, 1, 2]):
                for force in (0, 1):
                    for stock in ([P(1, 1, 1)], [P(1, 1, 1), P(2, 1, 2)], [P(1, 1, 1), P(3, 1, 3), P(1, 2, 2)], [P(2, 1, 1), P(2, 2, 2)]):
                        for v in ((1,) if ui == 'lib' else (0, 1)):
                            add('same', stock + [O(op, ui, v=v, paths=paths, force=force), O(op, ui, v=v, paths=paths, force=1)])
    recs = c.run_impl('store', cases, jobs=8, unpriv=True)
    hits = sum(1 for q in recs for x in q['steps'] if x.get('hit'))
    part = sum(1 for q in recs for x in q['steps'] if x.get('hit') and any(9 in a for b in x['c'] for a in b))
    c.notes.append(f'{hits} injected crashes/failures reached, {part} of them left an incomplete package directory')
    c.validate('P09', recs)
