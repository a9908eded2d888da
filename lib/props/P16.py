NAMES = ['a', 'a_b', 'c']
ALT = [('maya', 'maya-2', '9'), ('yes', 'null', '1'), ('é', 'A', 'a'), ('a', 'a_b', 'c'), ('x_', '_', '-')]
BADN = ['', 'no good', 'a/b', '..', 'a.b', 'x!', 'a\n', 'a:b', '"']
TEXT = ['t', 'u', 'yes', 'no', 'null', '~', '1', '1.0', 'a: b', '# c', "it's", 'say "hi"', '', ' lead', 'tail ', 'é', 'two\nlines', '- x', '{a}', '[a]', '*a', '&a', '!a', '%a', '@a', '`a', '0x1F', '1e3', '\\n', 'tab\there', 'true', '|', '>', '=', '<<', '2001-01-01', '\u2028', '🦀', 'a' * 200]
REQ = ['maya-2023', 'python-3.9+<4', '!foo', '~bar-1', '@x', 'a|b', 'py', '1', 'nuke-13', 'yes', 'é-1', 'x-1,2']
EDITS = ['{', 'contexts: 5\n', '', 'contexts:\n- name: a\n', '\t', 'null', 'contexts: []\nconflict_mode: [1]\n', ': :', 'contexts:\n- {name: a, requests: x, tool_aliases: {}, hidden_tools: [], prefix: null, priority: 0, disabled: false}\n']
def run(c):
    r = c.rng
    c.model('MCSuite', c.pick('MCSuite', 'MCSuiteT'))
    beh = c.generate('MCSuite', 'GenSuite', workers=1, args=('-simulate', f'num={c.pick(400, 6000)}', '-depth', '17', '-seed', str(c.seed)))
    beh = r.sample(beh, min(len(beh), c.pick(400, 6000)))
    cases = []
    def dress(h):
        """the behaviour with its own names and texts"""
        n3 = r.choice(ALT); nm = dict(zip(NAMES, n3)); tx = r.sample(TEXT, 2); tl = {'t': tx[0], 'u': tx[1]}
        al = {'x': 'x', 'a_x': n3[0] + '_x', 'b_x': r.choice(['b_x', n3[1] + '_x', 'X', 'y', 'é'])}
        out = []
        for o in h:
            o = dict(o, n=nm.get(o['n'], r.choice(BADN)), tool=tl[o['tool']], alias=al[o['alias']], ui=r.choice(['lib', 'cli']), how='run', mode2='', at=0, sticky=0, show=0, text='')
            if o['op'] in ('off', 'save', 'spoil'): o['ui'] = 'lib'
            if o['op'] == 'spoil': o['text'] = r.choice(EDITS)
            if o['op'] == 'create': o['desc'] = r.choice([[], [], [r.choice(TEXT)]])
            if o['op'] == 'create' and o['mode'] != 'bogus' and r.random() < .1: o['mode'] = o['mode']
            if o['op'] == 'add':
                o['reqs'] = r.sample(REQ, r.choice([1, 1, 2, 3] + ([0] if o['ui'] == 'lib' else [])))
                if o['prefix']: o['prefix'] = [r.choice([n3[0] + '_', n3[0] + '_', 'b_', '', 'é'])]
                if o['prio'] == 1: o['prio'] = r.choice([1, 1, 1, -1, 2147483647, -2147483647])
            if o['op'] == 'add' and not o['valid'] and o['n'] == '': pass
            if any(isinstance(v, str) and v.startswith('-') for v in (o['n'], o['tool'], o['alias'])) or any(q.startswith('-') for q in o['reqs']): o['ui'] = 'lib'
            out.append(o)
        return out
    def cut(o, at=None):
        if o['op'] == 'spoil': return o
        k = r.random()
        return dict(o, how='cut', mode2='crash' if k < .4 else 'fail', at=at or r.randint(1, 12), sticky=r.randint(0, 1)) if k < .7 else dict(o, how='with', at=at or r.randint(1, 12))
    for h in beh:
        st = dress(h)
        for i in range(len(st)):
            if r.random() < .2: st[i] = cut(st[i])
            if r.random() < .15: st[i]['show'] = 1
        cases.append({'id': f'walk-{len(cases)}', 'stateful': 1, 'init': {}, 'steps': st})
    # a suite and every point of every edit of it
    base = dict(place=1, mode='error', desc=[], n='a', valid=True, reqs=['maya-2023'], prefix=[], prio=0, alias='x', tool='t', how='run', mode2='', at=0, sticky=0, show=0, text='')
    def O(op, ui='lib', **k): return dict(base, op=op, ui=ui, **k)
    for ui in ('lib', 'cli'):
        for edit in [('create', {}), ('add', dict(n='c')), ('remove', dict(n='a')), ('alias', dict(n='a', alias='y')), ('hide', dict(n='a', tool='t'))]:
            for how, mode2 in (('cut', 'crash'), ('cut', 'fail'), ('with', '')):
                for sticky in ((0, 1) if mode2 == 'fail' else (0,)):
                    for at in range(1, 14):
                        pre = [] if edit[0] == 'create' else [O('create', mode=r.choice(['error', 'first', 'last', 'prefix']), desc=['before']), O('add', n='a', reqs=['x-1', 'y']), O('add', n='b'), O('alias', n='a'), O('alias', n='b')]
                        cases.append({'id': f'{how}{mode2}-{ui}-{edit[0]}-{at}-{sticky}', 'stateful': 1, 'init': {}, 'steps': pre + [O(edit[0], ui, **edit[1], **{}) | dict(how=how, mode2=mode2, at=at, sticky=sticky), O('add', 'cli', n='d', show=1)]})
    # tool tables: many contexts that want the same names
    for i in range(c.pick(500, 8000)):
        st = [O('create', mode=r.choice(['error', 'first', 'last', 'prefix']))]
        ns = r.sample(['a', 'b', 'a_b', 'ab', 'c', 'a_a'], r.choice([1, 2, 2, 3, 3, 4]))
        for n in ns: st.append(O('add', r.choice(['lib', 'lib', 'cli']), n=n, prefix=r.choice([[], [], [], ['a_'], ['b_'], ['']]), prio=r.choice([0, 0, 0, 1, 2, -1]), reqs=r.sample(REQ, 2)))
        for _ in range(r.choice([2, 4, 6, 8])): st.append(O('alias', n=r.choice(ns), alias=r.choice(['x', 'x', 'y', 'a_x', 'b_x', 'a_b_x', 'b_x']), tool=r.choice(['t', 'u', 'v'])))
        for _ in range(r.choice([0, 0, 1, 2])): st.append(O(r.choice(['hide', 'hide', 'off', 'remove']), n=r.choice(ns), tool=r.choice(['t', 'u', 'v', 'x'])))
        st[-1]['show'] = 1 if i % 3 == 0 else 0
        cases.append({'id': f'table-{i}', 'stateful': 1, 'init': {}, 'steps': st})
    c.validate('P16', c.run_impl('suites', cases, jobs=8, unpriv=True))
