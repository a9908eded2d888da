"""Packages and queries for the repository discovery and search properties."""
cd = lambda x: [ord(ch) for ch in x]
FAMS = [['foo', 'foo_lib', 'bar', 'Foo'], ['a', 'b', 'ab', 'abc'], ['python', 'pyQt', 'maya', 'maya_py'], ['lib', 'lib2', 'x_y', 'tool']]
VERS = [['1.0', '2.0', '10.0'], ['1', '1.1', '1.1.a'], ['1.2', '1.10', '1.2.alpha'], ['2020.1', '2020.1-beta', '2019.12'], ['0.9', '0.10', 'dev'], ['1_0', '1.a', '1.B']]
WORDS = ['maya', 'Foo bar', 'a', 'x.y', 'lib2', 'python-3', 'Render', '1.0', 'ab', 'tool', 'A+B', 'fo']
BAD = ['name = "x\n', 'name = (\n', 'def broken(:\n', '', 'version = "1"\n', 'name = "a" "b" (\n']
def req(r, fams):
    n = r.choice(fams + ['other']); k = r.random()
    t = n if k < .4 else f'{n}-{r.choice(["1", "1.0", "2+", "1+<2"])}' if k < .85 else f'!{n}-1' if k < .95 else f'~{n}-1'
    return t, {'n': n, 'c': t.startswith('!')}
def q(x): return "'" + x.replace('\\', '\\\\').replace("'", "\\'") + "'"
def pkg(r, name, ver, fams, rich=True):
    p = {'name': name, 'nc': cd(name), 'ver': [cd(ver)] if ver else [], 'req': [], 'breq': [], 'preq': [], 'vreq': [], 'plug': [], 'desc': [], 'tools': [], 'rtext': [], 'vtext': [], 'hv': False, 'ts': 0}
    L = [f'name = {q(name)}'] + ([f'version = {q(ver)}'] if ver else [])
    if rich:
        if r.random() < .5:
            d = ' '.join(r.choice(WORDS) for _ in range(r.choice([1, 2, 5, 12]))); p['desc'] = [cd(d)]; L.append(f'description = {q(d)}')
        if r.random() < .4:
            ts = [r.choice(WORDS).split()[0] for _ in range(r.choice([1, 2]))]; p['tools'] = [cd(x) for x in ts]; L.append('tools = [' + ', '.join(map(q, ts)) + ']')
        for k, f in (('requires', 'req'), ('build_requires', 'breq'), ('private_build_requires', 'preq')):
            if r.random() < (.6 if f == 'req' else .3):
                R = [req(r, fams) for _ in range(r.choice([1, 1, 2, 3]))]; p[f] = [x[1] for x in R]; L.append(f'{k} = [' + ', '.join(q(x[0]) for x in R) + ']')
                if f == 'req': p['rtext'] = [cd(x[0]) for x in R]
        if r.random() < .3:
            V = [[req(r, fams) for _ in range(r.choice([1, 2]))] for _ in range(r.choice([1, 2]))]
            p['vreq'] = [x[1] for v in V for x in v]; p['vtext'] = [cd(x[0]) for v in V for x in v]; p['hv'] = True
            L.append('variants = [' + ', '.join('[' + ', '.join(q(x[0]) for x in v) + ']' for v in V) + ']')
        if r.random() < .3: p['plug'] = [r.choice(fams)]; L.append(f'plugin_for = [{q(p["plug"][0])}]')
        if r.random() < .4: p['ts'] = r.choice([1, 86400 * 365 * 20, 86400 * 365 * 30, 1700000000, 1704067200]); L.append(f'timestamp = {p["ts"]}')
    return p, '\n'.join(L) + '\n'
def put(r, k, f, v, fams, ok=True, name=None, ver=None, rich=True):
    p, text = pkg(r, name or f, v if ver is None else ver, fams, rich)
    return {'op': 'put', 'r': k, 'f': f, 'v': v, 'fc': cd(f), 'vc': cd(v), 'ok': ok, 'p': p, 'text': text if ok else r.choice(BAD)}
def asks(r, fams, vers, n):
    o = []
    for _ in range(n):
        k = r.choice(['find', 'find', 'latest', 'get', 'list'])
        o.append({'q': k, 'name': r.choice(fams + ['none']), 'ver': cd(r.choice(vers + ['9.9', '1.00']))})
    return o
def fsr(r, k, fams): return {'op': 'fsr', 'r': k, 'ask': fams, 'limit': r.choice([1, 2, 3])}
def world(r, n=1):
    """a whole repository set: its put steps"""
    fams = r.choice(FAMS); vers = r.choice(VERS); st = []
    for k in range(1, n + 1):
        for f in fams:
            if r.random() < .15: continue
            if r.random() < .12: st.append(put(r, k, f, '', fams, ver=r.choice(['', '1.5'])))
            for v in r.sample(vers, r.choice([1, 2, 3])): st.append(put(r, k, f, v, fams))
    return fams, vers, st
# search queries
def atom(r, base):
    ch = r.choice(base) if base else 'a'; k = r.random()
    if k < .7: return {'k': 'lit', 'c': ord(ch)}
    if k < .8: return {'k': 'any', 'c': 0}
    return {'k': 'digit' if k < .9 else 'nodigit', 'c': 0}
def rtext(al):
    e = lambda a: {'any': '.', 'digit': r'\d', 'nodigit': r'\D'}.get(a['k']) or (('\\' + chr(a['c'])) if not chr(a['c']).isalnum() and chr(a['c']) not in ' _' else chr(a['c']))
    return ('^' if al['start'] else '') + ''.join(map(e, al['atoms'])) + ('$' if al['end'] else '')
DATES = {'1990-01-01': 631152000, '2000-06-01': 959817600, '2023-11-14T22:13:20': 1700000000, '2024-01-01': 1704067200}
def search(r, fams):
    word = r.choice(fams + WORDS); d = {'text': [], 'alts': [], 'cs': r.random() < .3, 'desc': r.random() < .25, 'tools': r.random() < .25, 'reqs': r.random() < .25, 'latest': r.random() < .3,
         'limit': r.choice([50, 50, 50, 1, 2, 3, 5]), 'sort': r.choice(['name', 'name', 'version', 'score', 'date']), 'type': r.choice(['package'] * 3 + ['family', 'variant']), 'hasvar': [], 'newer': [], 'older': []}
    a = []
    if r.random() < .35:
        d['alts'] = []
        for _ in range(r.choice([1, 1, 2])):
            w = r.choice(fams + WORDS); i = r.randrange(len(w)); w = w[i:i + r.choice([1, 2, 3, 9])]
            at = [dict(k='lit', c=ord(x)) if r.random() < .7 else atom(r, w) for x in w]
            d['alts'].append({'start': r.random() < .4, 'end': r.random() < .4, 'atoms': at})
        word = '|'.join(map(rtext, d['alts'])); a.append('--regex')
    else:
        i = r.randrange(len(word)); word = r.choice([word, word, word[i:i + 2], word.upper(), word.lower(), ''])
    d['text'] = cd(word)
    for k, f in (('cs', '--case-sensitive'), ('desc', '--description'), ('tools', '--tools'), ('reqs', '--requirements'), ('latest', '--latest-only')):
        if d[k]: a.append(f)
    if d['type'] != 'package': a += ['--type', d['type']]
    if d['type'] != 'family' and r.random() < .15:
        h = r.choice(fams + ['-1', 'OTHER']); d['hasvar'] = [cd(h)]; a += [f'--has-variant={h}']
    for k in ('newer', 'older'):
        if r.random() < .15: t = r.choice(list(DATES)); d[k] = [DATES[t]]; a += [f'--{k}-than', t]
    a += ['--limit', str(d['limit']), '--sort', d['sort'], '--format', 'json']
    return {'op': 'search', 'q': d, 'json': 1, 'args': ['search'] + a + ['--', word]}
