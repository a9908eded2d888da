import hashlib
def collide(name, ver, n):
    by = {}
    for i in range(200000):
        k = hashlib.sha1(f'name={name}, version={ver}, index={i}'.encode()).hexdigest()[:4]
        by.setdefault(k, []).append(i)
        if len(by[k]) == n: return by[k]
def run(c):
    r = c.rng
    c.model('PProto', c.pick('MCPProto', 'MCPProtoT')); c.model('MCPCache', c.pick('MCPCache', 'MCPCacheT'))
    beh = c.generate('MCPCache', 'GenPCache', workers=1, args=('-simulate', f'num={c.pick(60, 500)}', '-depth', '12', '-seed', str(c.seed)))
    beh = r.sample(beh, min(len(beh), c.pick(700, 8000)))
    i1, i2 = collide('Pkg', '1.0', 2)
    V = lambda name, ver, ix, attr=(): {'name': name, 'version': ver, 'index': ix, 'attr': [list(a) for a in attr]}
    SETS = [[V('Pkg', '1.0', i1), V('Pkg', '1.0', i2), V('pkg', '1.0', i1), V('Pkg', None, None)],
            [V('Pkg', '1.0', i1), V('Pkg', '1.0', None, [('index', str(i1))]), V('Pkg', '2.0', 0, [('arch', 'x')]), V('other', '1.0', 0)],
            [V('a', '1', 0), V('a', '1', 1), V('A', '1', 0), V('a', None, 0, [('version', '1')])]]
    LIT = [('z.json', '{'), ('z.json', ''), ('a.json', 'not json'), ('a/', ''), ('b/', ''), ('.copying-a', ''), ('README', 'x'), ('zz.json', '[]'), ('.lock', '')]
    cases = []
    def fix(o): return {'op': o['op'], 'h': o['h'], 'k': o['k'], 'limit': o['limit']}
    for h in beh:
        st = []; i = 0
        for _ in range(r.choice([0, 0, 1, 2])):
            n, t = r.choice(LIT); st.append({'how': 'litter', 'op': 'none', 'h': 1, 'k': 1, 'limit': False, 'name': n, 'text': t})
        while i < len(h):
            o = fix(h[i]); how = h[i]['how']
            if o['op'] == 'later' and how != 'with': st.append(dict(o, how='later'))
            elif how == 'run' or o['op'] == 'later': st.append(dict(o, how='run') if o['op'] != 'later' else dict(o, how='later'))
            elif how == 'cut': st.append(dict(o, how='cut', mode=r.choice(['crash', 'crash', 'fail']), at=r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 18, 20]), sticky=r.randint(0, 1)))
            else:
                q = fix(h[i + 1]); others = r.choice([[q], [q], [q, dict(q, op='get')], [dict(q, op='later', limit=False), q]])
                st.append(dict(o, how='with', at=r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 18]), others=others))
            i += 2 if h[i]['how'] == 'with' else 1
        cases.append({'id': f'walk-{len(cases)}', 'stateful': 1, 'init': {'handles': r.choice(SETS), 'max': r.choice([9, 9, 9, 1, 2, 3])}, 'steps': st})
    # every point of every operation, from every kind of start
    pre = {'empty': [], 'have': [('add', 1)], 'two': [('add', 1), ('add', 2)], 'gone': [('add', 1), ('remove', 1)]}
    def O(op, h, k=1, limit=False): return {'op': op, 'h': h, 'k': k, 'limit': limit}
    for nm, p in pre.items():
        for op in ('add', 'get', 'remove', 'clean'):
            for at in range(1, c.pick(22, 30)):
                start = [dict(O(a, b), how='run') for a, b in p]
                aged = op == 'clean'
                if aged: start.append(dict(O('later', 1), how='later'))
                a = O(op, 1, 2, aged)
                end = [dict(O('get', 1), how='run'), dict(O('add', 1, 3), how='run'), dict(O('add', 2, 3), how='run'), dict(O('later', 1), how='later'), dict(O('clean', 1), how='run'), dict(O('add', 1, 4), how='run'), dict(O('get', 1), how='run')]
                for mode in ('crash', 'fail'): cases.append({'id': f'{mode}-{nm}-{op}-{at}', 'stateful': 1, 'init': {'handles': SETS[0], 'max': 9}, 'steps': start + [dict(a, how='cut', mode=mode, at=at, sticky=at % 2)] + end})
                for b in [[O('get', 1)], [O('add', 1, 3)], [O('add', 2, 3)], [O('remove', 1)], [O('later', 1), O('clean', 1, 1, True)]]:
                    if c.thorough or r.random() < .5: cases.append({'id': f'with-{nm}-{op}-{at}-{b[0]["op"]}', 'stateful': 1, 'init': {'handles': SETS[0], 'max': 9}, 'steps': start + [dict(a, how='with', at=at, others=b)] + end})
    c.validate('P15', c.run_impl('pcache', cases, jobs=8, unpriv=True))
