from props.P01 import cs
VERS = ['1', '2', '3', '1.0', '1.5', '1.10', '2.0', '1.0.0', '1.0.1', '1.5.3', '2.9.6', '10', '1.0.alpha', '1.0.rc1', '1.0.rc2', '1.0.rc10',
        '3.8', '3.9', '3.9.1', '3.10', '3.11', '4', '4.0', '2024.1', '0.9', '1.4.2', '2.1.0', '1.alpha', '3.8.0', '3.80',
        'alpha', 'rc1', '1.2.3.4', '1.2.3.5', '2.0.0.1', '1_2', '1.0-b2', '1.5-rc1', '1.2.3', '0']
NUMV = [v for v in VERS if all(p.isdigit() for p in v.split('.'))]
NAMES = ['python', 'my_pkg', 'py3', 'maya', 'Foo', 'a', 'lib2to3', 'numpy']
OPS = {'ge': '>=', 'gt': '>', 'le': '<=', 'lt': '<', 'eq': '==', 'ne': '!=', 'compat': '~='}

def form(r, kind=None, a=None, b=None):
    a, b = a or r.choice(VERS), b or r.choice(VERS)
    k = kind or r.choice(['bare', 'prefix', 'plus', 'plusless', 'plusle', 'dots', 'op', 'op', 'op', 'multi', 'multi', 'wild', 'three', 'build'])
    at = lambda k, v: {'k': k, 'v': v}
    if k == 'bare': return '', []
    if k == 'prefix': return '-' + a, [at('prefix', a)]
    if k == 'build': a = a + '-build.' + r.choice('123'); return '-' + a, [at('prefix', a)]
    if k == 'plus': return f'-{a}+', [at('ge', a)]
    if k == 'plusless': return f'-{a}+<{b}', [at('ge', a), at('lt', b)]
    if k == 'plusle': return f'-{a}+<={b}', [at('ge', a), at('le', b)]
    if k == 'dots': return f'-{a}..{b}', [at('ge', a), at('lt', b)]
    if k in OPS: return OPS[k] + a, [at(k, a)]
    if k == 'op':
        o = r.choice(list(OPS))
        if o == 'compat': a = r.choice(NUMV)
        return OPS[o] + a, [at(o, a)]
    if k in ('multi', 'three'):
        t, c = '', []
        for i in range(2 if k == 'multi' else 3):
            o = r.choice(['ge', 'gt', 'le', 'lt', 'ne', 'eq', 'compat'])
            v = r.choice(NUMV if o == 'compat' else VERS)
            t += (r.choice([',', ', ']) if i else '') + OPS[o] + v
            c.append(at(o, v))
        return t, c
    if k == 'wild':
        p = r.choice(NUMV).split('.')
        w = '.'.join(p[:r.randint(1, len(p))] + ['*'])
        return '==' + w, [at('wild', w)]

def step(r, frm=None, **kw):
    name = r.choice(NAMES)
    ns = r.choice(['', '', '', 'studio', 'co.x'])
    mark = r.choice(['', '', '!', '~'])
    t, c = frm or form(r)
    txt = mark + (ns + '::' if ns else '') + name + t
    return {'op': 'req', 'text': cs(txt), 'pkg': 0 if ns else 1,
            'ast': {'name': name, 'ns': ns, 'weak': mark == '~', 'conflict': mark == '!', 'c': [{'k': x['k'], 'v': cs(x['v'])} for x in c]}}

def cond(r):
    cds, t = [], ''
    for _ in range(r.randint(1, 3)):
        neg = r.random() < .4
        op = '!=' if neg else '=='
        if r.random() < .6:
            p, a = r.choice(['linux', 'windows', 'darwin']), r.choice(['', 'x86_64', 'arm64'])
            if neg: a = ''
            t += f"[platform{op}'{p}'" + (f" and arch=='{a}'" if a else '') + ']'
            cds.append({'k': 'platform', 'p': p, 'arch': a, 'val': '', 'neg': neg})
        else:
            v, x = r.choice(['A', 'B']), r.choice(['1', '2', ''])
            if not x: t += f'[env.{v}!=None]' if neg else f'[env.{v}]'
            else: t += f"[env.{v}{op}'{x}']"
            cds.append({'k': 'env', 'p': v, 'arch': '', 'val': x, 'neg': neg})
    f, _ = form(r, r.choice(['bare', 'plus', 'ge', 'prefix']))
    e = {'platform': r.choice(['linux', 'windows', 'darwin', 'plan9']), 'arch': r.choice(['', 'x86_64', 'arm64']),
         'env': [[k, r.choice('12')] for k in 'AB' if r.random() < .6]}
    return {'op': 'cond', 'text': cs(r.choice(NAMES) + f + t), 'cds': cds, 'e': e}

def run(c):
    r = c.rng
    u = sorted(set(VERS + ['1.5.0', '1.6', '2.0.1', '3.8.5', '0', '2.9.6-build.3', '1.0-rc1', '1.0.beta', '01.5', '1.0.0.1', '3.9.7', 'windows', '1.4', '1.4.10', '9', '11', '1.0.a', '20']))
    cases = []
    # exhaustive: every form with every bound
    ex = []
    for k in ['prefix', 'plus', 'ge', 'gt', 'le', 'lt', 'eq', 'ne']:
        for a in VERS: ex.append(step(r, form(r, k, a)))
    for a in NUMV: ex.append(step(r, form(r, 'compat', a)))
    for k in ['plusless', 'plusle', 'dots']:
        for a in VERS:
            for b in (VERS if c.thorough else r.sample(VERS, 5)): ex.append(step(r, form(r, k, a, b)))
    ex.append(step(r, form(r, 'bare')))
    for i in range(0, len(ex), 50):
        cases.append({'id': f'ex-{i}', 'init': {'u': [cs(x) for x in u]}, 'steps': ex[i:i + 50]})
    for i in range(c.pick(40, 350)):
        us = r.sample(u, 30)
        cases.append({'id': f'rnd-{i}', 'init': {'u': [cs(x) for x in us]}, 'steps': [step(r) for _ in range(40)] + [cond(r) for _ in range(25)]})
    recs = c.run_impl('req', cases, jobs=8, timeout=700)
    c.validate('P03', recs)
