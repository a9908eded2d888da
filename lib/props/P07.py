def run(c):
    r = c.rng
    c.model('MCLifecycle', c.pick('MCLifecycle', 'MCLifecycleT'))
    n = c.pick(400, 4000)
    beh = c.generate('MCLifecycle', 'GenLifecycle', workers=1, args=('-simulate', f'num={n}', '-depth', '60', '-seed', str(c.seed)))
    cases = []
    def add(tag, steps):
        names = r.choice([['foo', 'bar'], ['python', 'python_lib'], ['a', 'a-b']])
        vers = r.choice([['1.0', '2.0'], ['1.0', '1.0.1'], ['1', '10'], ['1.0.alpha', '1.0']])
        cases.append({'id': f'{tag}-{len(cases)}', 'stateful': 1, 'init': {'fams': names, 'vers': vers}, 'steps': steps})
    for h in beh:
        st = []
        for o in h:
            if o['mode'] == 'cut' or (o['op'] not in ('add', 'age') and r.random() < .12):
                o = dict(o, at=r.randint(1, 11), mode=r.choice(['crash', 'fail', 'fail']), sticky=r.randint(0, 1))
            st.append(o)
        add('walk', st)
    # every crash point and every failing call of every operation from several states
    O = lambda op, **k: dict({'op': op, 'i': 1, 'j': 1, 'ro': 0, 'allow': 0, 'force': 0, 'days': 0, 'dry': 0, 'at': 0, 'mode': ''}, **k)
    setups = [[], [O('add')], [O('add'), O('ignore')], [O('add'), O('add', j=2), O('ignore', j=2), O('age', j=2, days=10)],
              [O('ignore', allow=1)], [O('add'), O('ignore'), O('age', days=10), O('add', i=2), O('ignore', i=2), O('age', i=2, days=3), O('add', j=2)]]
    ops = [O('ignore'), O('ignore', allow=1), O('unignore'), O('remove'), O('removefam', force=1), O('removefam'), O('since', days=2), O('since', days=5)]
    for su in setups:
        for op in ops:
            for mode in ('crash', 'fail'):
                for sticky in ((0, 1) if mode == 'fail' else (0,)):
                    for at in range(1, c.pick(13, 24)):
                        if not c.thorough and at % 2 != (c.seed + sticky) % 2 and op['op'] not in ('remove',): continue
                        # afterwards the operation is repeated, and the package installed again
                        add('cut', su + [dict(op, at=at, mode=mode, sticky=sticky), op, O('add'), op])
    recs = c.run_impl('fsrepo', cases, jobs=8, unpriv=True, env={'LD_PRELOAD': 'SHIM', 'VSHIM_BTIME': '1'})
    hits = [x for q in recs for x in q['steps'] if x.get('hit')]
    part = sum(1 for x in hits if any(2 in row for row in x['obs']['pay']))
    c.notes.append(f'{len(hits)} injected crashes/failures reached, {part} of them left a partly removed payload')
    c.validate('P07', recs)
