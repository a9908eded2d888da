import json
cd = lambda s: [ord(x) for x in s]
KEYS = ['a', 'b']
def canon(v): return json.dumps(v, separators=(',', ':'), ensure_ascii=False)
def leaves(v, p=()):
    if isinstance(v, dict) and v: return [x for k in v for x in leaves(v[k], p + (k,))]
    return [[list(p), canon(v)]]
def tree(ls):
    t = {}
    for p, v in ls:
        d = t
        for k in p[:-1]: d = d.setdefault(k, {})
        d[p[-1]] = {} if v == '{}' else json.loads(v)
    return t
def tk(k): return k if k.replace('_', 'a').replace('-', 'a').isalnum() and k.isascii() else json.dumps(k, ensure_ascii=False)
def tv(v):
    if isinstance(v, dict): return '{' + ', '.join(f'{tk(k)} = {tv(x)}' for k, x in v.items()) + '}'
    if isinstance(v, list): return '[' + ', '.join(map(tv, v)) + ']'
    return json.dumps(v, ensure_ascii=False)
def toml(r, t, pre=()):
    """the same tree as TOML: inline tables, dotted keys or sections"""
    out = []; secs = []
    for k, v in t.items():
        if isinstance(v, dict):
            m = r.random()
            if m < .3: out.append(f'{tk(k)} = {tv(v)}')
            elif m < .5 and all(not isinstance(x, dict) for x in v.values()) and v: out += [f'{tk(k)}.{tk(j)} = {tv(x)}' for j, x in v.items()]
            else: secs.append((k, v))
        else: out.append(f'{tk(k)} = {tv(v)}')
    for k, v in secs:
        out.append(f'[{".".join(map(tk, pre + (k,)))}]'); out += toml(r, v, pre + (k,))
    return out
SCAL = [0, 1, -5, 7, 2147483647, True, False, '', 'x', 'on', 'true', '1', 'é', 'a b', '/p/q', 'say "hi"', "it's", 'back\\slash', 'line\nbreak', 1.5, -0.25, [], [1, 2], ['x', 'y z'], [True], [[1], []]]
BADTOML = ['a = ', '[a', 'a = 1\na = 2', '= 1', 'a = "x', 'a: 1']
DEF = {'use_rust_version': True, 'use_rust_solver': True, 'use_rust_repository': True, 'rust_fallback': True, 'thread_count': None,
       'cache.enable_memory_cache': True, 'cache.enable_disk_cache': True, 'cache.memory_cache_size': 1000, 'cache.cache_ttl_seconds': 3600,
       'packages_path': ['~/packages', '~/.rez/packages/int', '~/.rez/packages/ext'], 'local_packages_path': '~/packages', 'release_packages_path': '~/.rez/packages/int',
       'default_shell': 'bash', 'plugin_path': [], 'package_cache_path': ['~/.rez/cache'], 'tmpdir': '@', 'editor': 'vi', 'image_viewer': 'xdg-open', 'browser': 'xdg-open', 'difftool': 'diff', 'terminal_emulator_command': 'xterm'}
def fv(v):
    if isinstance(v, str): return {'t': 's', 'l': [cd(v)]}
    if isinstance(v, list): return {'t': 'a', 'l': [cd(x) for x in v]}
    return {'t': 'o', 'l': [cd(canon(v))]}
def setting(r, k):
    d = DEF[k]
    if isinstance(d, bool): return r.random() < .4
    if k == 'thread_count': return r.choice([None, 0, 1, 8])
    if isinstance(d, int): return r.choice([0, 1, 50, 99999])
    if isinstance(d, list): return r.choice([[], ['@/p'], ['~/x', '@/y'], ['a b', 'é'], ['@/p', '@/p'], ['rel/dir']])
    return r.choice(['', 'sh', '@/z', 'a: b', "o'k", '# no', 'é', 'yes', '1', 'null', '~', 'true'])
def ytext(r, st):
    n = {}
    for k, v in st.items():
        if k.startswith('cache.'): n.setdefault('cache', {})[k[6:]] = v
        else: n[k] = v
    if r.random() < .3: n[r.choice(['unknown_field', 'x'])] = r.choice([1, 'y', ['z'], {'q': 1}])
    if r.random() < .4: return json.dumps(n)
    out = []
    for k, v in n.items():
        if isinstance(v, dict): out += [f'{k}:'] + [f'  {j}: {json.dumps(x)}' for j, x in v.items()] if v else [f'{k}: {{}}']
        elif isinstance(v, list) and v and r.random() < .6: out += [f'{k}:'] + [f'  - {json.dumps(x, ensure_ascii=False)}' for x in v]
        else: out.append(f'{k}: {json.dumps(v, ensure_ascii=False)}')
    return '\n'.join(out) + '\n'
BADY = ['use_rust_version: [', 'thread_count: many\n', 'packages_path: 5\n', '- a\n- b\n', '"just text"\n', 'cache: off\n', '{"editor": ]}', 'packages_path: {a: b}\n', 'use_rust_solver: "maybe"\n']
def layers(r, trees):
    def layer():
        if r.random() < .2: return []
        if r.random() < .06: return [{'ok': False, 'tree': [], 'text': r.choice(BADTOML), 'kind': r.choice(['', '', 'bytes', 'dir', 'locked'])}]
        t = tree(r.choice(trees))
        def fill(x):
            for k in list(x):
                if isinstance(x[k], dict): fill(x[k])
                elif r.random() < .6: x[k] = r.choice(SCAL)
            if r.random() < .15: x[r.choice(['C', 'a-b', 'a.b', 'é', ''])] = r.choice(SCAL)
        fill(t)
        return [{'ok': True, 'tree': leaves(t) if t else [], 'text': '\n'.join(toml(r, t)) + '\n', 'kind': ''}]
    user, shadow, proj = layer(), layer(), layer()
    files = []; env = []; xdg = r.random() < .3
    top = 'xdg/rez/rezconfig.toml' if xdg else 'home/.config/rez/rezconfig.toml'
    if xdg: env.append({'name': 'XDG_CONFIG_HOME', 'val': cd('@/xdg')})
    if user: files.append(dict(user[0], rel=top))
    if shadow: files.append(dict(shadow[0], rel='home/.rez/rezconfig.toml'))
    if xdg and r.random() < .3: files.append({'rel': 'home/.config/rez/rezconfig.toml', 'text': 'a = "wrong"\n', 'kind': ''})
    if proj: files.append(dict(proj[0], rel='cwd/.rez/rezconfig.toml'))
    names = r.sample(['A', 'A_A', 'A_B', 'B', 'B_A_A', 'B_B', 'C', 'A_A_A', '', 'A__B', 'NEW_KEY', 'a_b', 'AA'], r.choice([0, 0, 1, 2, 3, 5]))
    over = []
    for n in names:
        k = r.random()
        v = r.choice(SCAL) if k < .5 else tree(r.choice(trees)) if k < .7 else None
        text = canon(v) if v is not None else r.choice(['hello', '', ' 1 ', '1 2', '{bad', 'True', '007', 'a=b', "'q'", '[1,', 'null'])
        try: v = json.loads(text)
        except ValueError: v = text
        env.append({'name': 'REZ_' + n, 'val': cd(text)}); over.append({'path': n.lower().split('_'), 'tree': leaves(v), 'n': 'REZ_' + n})
    over.sort(key=lambda x: x['n'].encode())
    eff = user or shadow
    cut = lambda l: [{'ok': l[0]['ok'], 'tree': l[0]['tree']}] if l else []
    keys = [r.choice([['a'], ['b'], ['a', 'a'], ['a', 'b'], ['b', 'a', 'b'], ['c'], ['a', 'a', 'a', 'a'], ['new', 'key'], ['a-b'], ['none']]) for _ in range(4)]
    return {'op': 'layers', 'files': files, 'env': env, 'user': cut(eff), 'project': cut(proj), 'over': over, 'keys': keys, 'junk': r.choice([[], [], [['REZ_A_B', '']] if not any(x['n'] == 'REZ_A_B' for x in over) else [], [['REZ_?', '']], [['OTHER_?', '']]])}
def main(r):
    pool = [('@/f1.yaml', 'f1.yaml'), ('@/d e/f2', 'd e/f2'), ('@/f3.json', 'f3.json'), ('rel.yaml', 'cwd/rel.yaml'), ('@/none.yaml', None)]
    home = ['@/home/.rezconfig', '@/home/.rezconfig.yaml', '@/home/.rez/config.yaml']
    files = []; fs = []
    def add(path, rel):
        k = r.random()
        if k < .2:
            kind = r.choice(['', '', '', 'bytes', 'dir', 'locked']); files.append({'rel': rel, 'kind': kind, 'text': r.choice(BADY) if kind == '' else 'editor: wrong\n'}); fs.append({'path': cd(path), 'ok': False, 'set': []})
        else:
            st = {x: setting(r, x) for x in r.sample(list(DEF), r.choice([1, 2, 4, 9]))}
            files.append({'rel': rel, 'kind': '', 'text': ytext(r, st)}); fs.append({'path': cd(path), 'ok': True, 'set': [{'k': x, 'v': fv(v)} for x, v in st.items()]})
    for p, rel in pool:
        if rel and r.random() < .6: add(p, rel)
    for p in home:
        if r.random() < .5: add(p, p[2:])
    e = {'config': [], 'packages': [], 'local': [], 'release': [], 'nohome': False}; env = []
    def setv(f, name, v): e[f] = [cd(v)]; env.append({'name': name, 'val': cd(v)})
    if r.random() < .65:
        l = [p for p, _ in r.sample(pool, r.choice([1, 1, 2, 3]))]
        if r.random() < .2: l.insert(r.randint(0, len(l)), r.choice(['', ' ']))
        setv('config', 'REZ_CONFIG_FILE', ':'.join((' ' + x if r.random() < .1 else x) for x in l))
    if r.random() < .4: setv('packages', 'REZ_PACKAGES_PATH', r.choice(['', '@/a', '@/a:@/b', ':@/a::', ' @/a : ~/b', 'rel:~', '@/a;@/b', 'é:x y']))
    if r.random() < .3: setv('local', 'REZ_LOCAL_PACKAGES_PATH', r.choice(['', '@/l', '~/l', ' l', 'a:b']))
    if r.random() < .3: setv('release', 'REZ_RELEASE_PACKAGES_PATH', r.choice(['', '@/l', '~/l', 'r', 'a:b']))
    if r.random() < .3:
        v = r.choice(['1', '0', '', 'true']); env.append({'name': 'REZ_DISABLE_HOME_CONFIG', 'val': cd(v)}); e['nohome'] = v == '1'
    return {'op': 'main', 'files': files, 'fs': fs, 'env': env, 'e': e, 'home': [cd(x) for x in home], 'fields': [r.choice(list(DEF) + ['cache', 'nope', 'cache.nope', 'packages_path.0', 'editor.x']) for _ in range(2)],
            'defaults': [{'k': k, 'v': fv(v)} for k, v in DEF.items()]}
def where(r):
    spots = {1: ('@/r1', 'r1'), 2: ('~/r2', 'home/r2'), 3: ('r3', 'cwd/r3'), 4: ('~/lo cal', 'home/lo cal')}
    files = []
    for n, (_, rel) in spots.items():
        files.append({'rel': f'{rel}/probe/7.{n}.9/package.py', 'kind': '', 'text': f'name = "probe"\nversion = "7.{n}.9"\n'})
        files.append({'rel': f'{rel}/dep{n}/7.{n}.9/package.py', 'kind': '', 'text': f'name = "dep{n}"\nversion = "7.{n}.9"\nrequires = ["probe"]\n'})
    P = r.sample([1, 2, 3], r.choice([0, 1, 2, 3])); loc = r.choice([4, 4, 1, 2]); lst = [spots[n][0] for n in P]; env = []
    if r.random() < .3: lst.append('@/missing')
    if r.random() < .5: env += [{'name': 'REZ_PACKAGES_PATH', 'val': cd(':'.join(lst))}, {'name': 'REZ_LOCAL_PACKAGES_PATH', 'val': cd(spots[loc][0])}]
    else: files.append({'rel': 'home/.rezconfig', 'kind': '', 'text': json.dumps({'packages_path': lst, 'local_packages_path': spots[loc][0]})})
    cmds = [('all', ['search', 'probe', '--format', 'json']), ('all', ['complete', '--complete-versions', 'probe']), ('withlocal', ['depends', 'probe']), ('best', ['solve', 'probe', '--format', 'json'])]
    cmds += [(str(n), ['view', f'probe-7.{n}.9']) for n in (1, 2, 3, 4)]
    return {'op': 'where', 'files': files, 'env': env, 'places': P, 'localplaces': [loc], 'cmds': [{'cmd': a, 'args': b} for a, b in r.sample(cmds, 4)]}
def run(c):
    r = c.rng
    c.model('MCConfig', c.pick('MCConfig', 'MCConfigT'))
    trees = c.generate('MCConfig', 'GenConfig', workers=1)
    cases = []
    def add(k, f, n): cases.extend({'id': f'{k}-{i}', 'stateful': 0, 'init': {}, 'steps': [f()]} for i in range(n))
    add('layers', lambda: layers(r, trees), c.pick(1500, 20000)); add('main', lambda: main(r), c.pick(400, 5000)); add('where', lambda: where(r), c.pick(80, 800))
    c.validate('P14', c.run_impl('config', cases, jobs=8, unpriv=True))
