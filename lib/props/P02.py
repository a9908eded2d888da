from props.P01 import cs
OPS = {'ge': '>=', 'gt': '>', 'le': '<=', 'lt': '<', 'eq': '==', 'ne': '!=', 'compat': '~='}

def pool_total1(r):
    out = set()
    while len(out) < 6:
        n = r.choice([1, 1, 2, 2, 3])
        t = [r.choice(['1', '2', '3', '5', '9', '10', '0', 'a', 'rc1', '2024', '1500']) for _ in range(n)]
        if t[-1] == '0' or not t[0].isdigit(): continue
        out.add('.'.join(t))
    return sorted(out)

def pool_total3(r):
    out = set()
    y = r.choice([0, 0, 2020])
    while len(out) < 6:
        out.add(f"{y + r.choice([0, 1, 1, 2, 3])}.{r.choice([0, 0, 1, 2, 9, 10])}.{r.choice([0, 0, 1, 5, 11])}")
    return sorted(out)

def pool_any(r):
    out = set()
    while len(out) < 6:
        n = r.choice([1, 2, 2, 3, 3, 4])
        out.add('.'.join(r.choice(['0', '0', '1', '2', '9', '10', '1', 'a', 'rc1', 'b2', '2024']) for _ in range(n)))
    return sorted(out)

def mkast(r, pool, kinds):
    ast = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        n = r.choice([1, 2, 2, 3])
        if n == 2 and r.random() < .6 and 'ge' in kinds:
            a, b = r.choice(pool), r.choice(pool)
            ast.append([{'k': r.choice(['ge', 'gt']), 'v': a}, {'k': r.choice(['lt', 'le']), 'v': b}])
        else:
            ast.append([{'k': r.choice(kinds), 'v': r.choice(pool)} for _ in range(n)])
    return ast

def render(r, ast):
    if ast == [[{'k': 'any', 'v': ''}]]: return r.choice(['', '*', ' ', ' * '])
    if ast == [[{'k': 'none', 'v': ''}]]: return r.choice(['!*', 'empty'])
    parts = []
    for cj in ast:
        k = [x['k'] for x in cj]
        if k == ['any']: parts.append('*'); continue
        if k == ['ge', 'lt'] and r.random() < .25:
            parts.append(f"{cj[0]['v']}..{cj[1]['v']}"); continue
        if k == ['ge', 'lt'] and r.random() < .3:
            parts.append(f"{cj[0]['v']}+<{cj[1]['v']}"); continue
        if k == ['ge'] and r.random() < .3:
            parts.append(f"{cj[0]['v']}+"); continue
        if k == ['eq'] and r.random() < .4:
            parts.append(cj[0]['v']); continue
        sp = r.choice(['', '', ' '])
        parts.append(r.choice([',', ',', ' ', ', ', ' ,', '  ']).join(OPS[x['k']] + sp + x['v'] for x in cj))
    return r.choice(['', '', ' ']) + r.choice(['|', '|', ' | ']).join(parts) + r.choice(['', '', ' '])

def mkcase(r, i):
    kind = r.choice(['t1', 't3', 'any', 't1', 't3'])
    pool = {'t1': pool_total1, 't3': pool_total3, 'any': pool_any}[kind](r)
    plain = ['ge', 'gt', 'le', 'lt', 'eq']
    kinds = {'t1': plain + ['ne'], 't3': plain + ['ne', 'compat'], 'any': plain + ['ne', 'compat', 'compat']}[kind]
    if r.random() < .4: kinds = plain
    u = list(pool)
    for v in pool:
        u += [v + '.999999', v + '.a', v + '.999999.1']
        t = v.split('.')
        if t[-1].isdigit():
            u.append('.'.join(t[:-1] + [str(int(t[-1]) + 1)]))
        if kind == 't3':
            u.append(f'{t[0]}.{int(t[1]) + 1}.0'); u.append(f'{t[0]}.{int(t[1]) + 1}.0.999999')
        if kind == 'any':
            u += [v + '.0', t[0]]
    if kind == 't1': u = [x for x in u if not x.endswith('.0') and x != '0']
    u += ['a', '0.0.1', '999.999.999', '100000', 'inf']
    u = sorted({x for x in u if sum(t.isdigit() for t in x.split('.')) <= 5})
    steps, nreg = [], 0
    for _ in range(r.randint(3, 5)):
        x = r.random()
        ast = [[{'k': 'any', 'v': ''}]] if x < .06 else [[{'k': 'none', 'v': ''}]] if x < .1 else mkast(r, pool, kinds)
        steps.append({'op': 'parse', 'text': cs(render(r, ast)), 'ast': [[{'k': b['k'], 'v': cs(b['v'])} for b in cj] for cj in ast]})
        nreg += 1
        if r.random() < .3: steps.append({'op': 'reload', 'a': nreg})
    for _ in range(r.randint(6, 12)):
        # zero-padded versions are not totally ordered (P01's known finding), so only membership is judged there
        op = 'union' if kind == 'any' else r.choice(['union', 'intersect', 'subtract', 'query', 'query', 'query'])
        steps.append({'op': op, 'a': r.randint(1, nreg), 'b': r.randint(1, nreg)})
        if op != 'query': nreg += 1
    return {'id': f'{kind}-{i}', 'stateful': True, 'init': {'u': [cs(x) for x in u], 'total': kind != 'any'}, 'steps': steps}

def pairs(r, i):
    """all operations on all pairs of short ranges over few versions, so that kinds of bounds meet on the same and on neighbouring versions"""
    pool = sorted({r.choice(['1', '2', '3', '1.5', '2.1', '10', '2024']) for _ in range(3)}) if r.random() < .5 else sorted({f'{r.choice([1, 2])}.{r.choice([0, 1, 2])}.{r.choice([0, 1, 5])}' for _ in range(3)})
    kinds = ['ge', 'gt', 'le', 'lt', 'eq', 'ne', 'ne'] + (['compat'] if pool[0].count('.') == 2 else [])
    if i % 3 == 0: pool = pool[:2]; kinds = kinds[:5]
    u = list(pool)
    for v in pool:
        t = v.split('.')
        u += [v + '.999999', v + '.a', v + '.999999.1', '.'.join(t[:-1] + [str(int(t[-1]) + 1)])]
        if len(t) == 3: u += [f'{t[0]}.{int(t[1]) + 1}.0', f'{t[0]}.{int(t[1]) + 1}.0.999999']
    u = sorted(set(u) | {'a', '0.0.1', '999.999.999', '100000', 'inf'})
    steps = []
    n = 5
    for _ in range(n):
        ast = [[{'k': r.choice(kinds), 'v': r.choice(pool)} for _ in range(r.choice([1, 2, 2, 3]))] for _ in range(r.choice([1, 1, 1, 2]))]
        if i % 3 == 0 and r.random() < .4: v = r.choice(pool); ast = [[{'k': 'ge', 'v': v}, {'k': 'le', 'v': v}]]
        if r.random() < .08: ast.append([{'k': 'any', 'v': ''}])
        steps.append({'op': 'parse', 'text': cs(render(r, ast)), 'ast': [[{'k': b['k'], 'v': cs(b['v'])} for b in cj] for cj in ast]})
    for a in range(1, n + 1):
        for b in range(1, n + 1):
            steps += [{'op': 'query', 'a': a, 'b': b}, {'op': 'subtract', 'a': a, 'b': b}]
            if a <= b: steps += [{'op': 'intersect', 'a': a, 'b': b}, {'op': 'union', 'a': b, 'b': a}]
    m = n + 4 * n
    for _ in range(8):
        steps.append({'op': r.choice(['query', 'query', 'intersect', 'subtract', 'union']), 'a': r.randint(1, m), 'b': r.randint(1, m)})
    return {'id': f'pairs-{i}', 'stateful': True, 'init': {'u': [cs(x) for x in u], 'total': True}, 'steps': steps}

def run(c):
    cases = [pairs(c.rng, i) for i in range(c.pick(250, 4000))]
    cases += [mkcase(c.rng, i) for i in range(c.pick(700, 8000))]
    recs = c.run_impl('range', cases)
    c.validate('P02', recs)
