VARS = ['FOO', 'BAR_PATH', 'PYTHONPATH', 'A', 'FOO_BAR']
def run(c):
    r = c.rng
    c.model('MCEnv', c.pick('MCEnv', 'MCEnvT'), timeout=1500)
    cases = []
    REFS = {'root': '{root}', 'this.root': '{this.root}', 'version': '{version}', 'this.version': '{this.version}', 'name': '{name}', 'this.name': '{this.name}',
            'this.version.major': '{this.version.major}', 'this.version.minor': '{this.version.minor}', 'this.version.patch': '{this.version.patch}',
            'ROOT': '$ROOT', 'VERSION': '$VERSION', 'NAME': '$NAME'}
    LITS = ['/opt/x', 'val', '1', 'a b', '-flag', '/usr/bin', '{other}', '$HOME/z', 'x=y', '~/p', '/b', 'é', '%P%', 'a;b', '*', '#h', '/usr/bin']
    def piece(ref=.4):
        if r.random() < ref:
            k = r.choice(list(REFS)); return {'r': k, 's': REFS[k]}
        return {'r': '', 's': r.choice(LITS)}
    def entry():
        ps = [piece()]
        while r.random() < .35:
            ps.append({'r': '', 's': r.choice(['/', '/bin', '-', '.d'])})
            if r.random() < .6: ps.append(piece(.7))
        return ps
    def tx(v): return ':'.join(''.join(p['s'] for p in e) for e in v)
    def op(kinds):
        k = r.choice(kinds)
        o = {'k': k, 'n': '', 'v': []}
        if k in ('set', 'unset', 'prepend', 'append', 'ifempty', 'reset'):
            o['n'] = r.choice(VARS + (['PATH', 'PATH'] if k in ('prepend', 'append', 'reset') else []))
        if k in ('set', 'ifempty'): o['v'] = [entry() for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
        if k in ('prepend', 'append'): o['v'] = [entry() for _ in range(r.choice([1, 1, 1, 2]))]
        if k in ('alias', 'command', 'source', 'info', 'error', 'stop'): o['v'] = [entry()]
        if k == 'alias': o['n'] = r.choice(['t1', 't2', 'my-tool'])
        return o
    def q(t): return r.choice(['"', "'"]).join(['', t, ''])
    def line(o, py):
        k, n, v = o['k'], o['n'], tx(o['v'])
        sp = r.choice(['', ' ']) if not py else ''
        two = lambda f: f'{f}{sp}({sp}{q(n)},{r.choice(["", " "])}{q(v)}{sp})'
        one = lambda f, a: f'{f}{sp}({sp}{q(a)}{sp})'
        if k == 'set':
            fs = [lambda: two('env.setenv'), lambda: two('setenv')]
            if py: fs += [lambda: f'env.{n} = {q(v)}', lambda: f'env.{n}.set({q(v)})']
            elif v and v.strip() == v:
                fs += [lambda: f'export {n}="{v}"', lambda: f'export {n}={v}', lambda: f'setenv {n} {v}']
            return r.choice(fs)()
        if k == 'unset': return r.choice([lambda: one('env.unsetenv', n), lambda: one('unsetenv', n)])()
        if k == 'prepend': return r.choice([lambda: two('env.prepend_path'), lambda: two('prependenv')] + ([lambda: f'env.{n}.prepend({q(v)})'] if py else []))()
        if k == 'append': return r.choice([lambda: two('env.append_path'), lambda: two('appendenv')] + ([lambda: f'env.{n}.append({q(v)})'] if py else []))()
        if k == 'ifempty': return two('env.setenv_if_empty')
        if k == 'reset': return r.choice(['resetenv'] + ([] if py else ['env.resetenv'])) + f'({q(n)})'
        if k == 'alias': return two('alias')
        if k == 'stop' and v == '': return 'stop()'
        return one(k, v)
    ALL = ['set'] * 4 + ['prepend'] * 4 + ['append'] * 4 + ['unset', 'unset', 'ifempty', 'ifempty', 'reset', 'alias', 'command', 'source', 'info', 'error']
    ENV = ['set'] * 4 + ['prepend'] * 4 + ['append'] * 4 + ['unset', 'ifempty', 'reset', 'reset']
    def block(n, py, kinds):
        ops = [op(kinds) for _ in range(n)]
        ls = []
        for o in ops:
            if r.random() < .15: ls.append('# a comment' if r.random() < .6 or py else '')
            ls.append((' ' * r.choice([0, 0, 4]) if not py else '') + line(o, py))
        return ops, '\n'.join(ls)
    def pkg(i, py, kinds, sizes, cli):
        name = ['alpha', 'beta_lib', 'gamma', 'd4'][i]
        ver = r.choice(['1.2.3', '2.0', '10', '1.0.beta', ''] if not cli else ['1.2.3', '2.0', '10', '3.1.4.1'])
        if cli: root = f'@W@/repo/{name}/{ver}'
        else: root = r.choice([f'@W@/{name}', f'@W@/pkgs/{name}/{ver or "x"}', f'@W@/with space/{name}'])
        refs = {'root': root, 'this.root': root, 'ROOT': root, 'name': name, 'this.name': name, 'NAME': name}
        if ver:
            refs.update({'version': ver, 'this.version': ver, 'VERSION': ver})
            for k, x in zip(('major', 'minor', 'patch'), ver.split('.')): refs['this.version.' + k] = x
        p = {'name': name, 'upper': name.upper(), 'ver': ver, 'spec': name + ('-' + ver if ver else ''), 'refs': refs, 'toolpath': '', 'tools': [], 'files': []}
        for ph in ('pre', 'cmd', 'post'):
            p[ph], p[ph + 'text'] = block(r.choice(sizes[ph]), py, kinds)
            if not p[ph]: p.pop(ph + 'text')
        t = r.random()
        if t < .3: p['tools'] = ['tool1', 'tool2']; p['toolpath'] = root + '/bin'
        elif t < .45: p['tools'] = ['tool3']; p['files'] = ['tool3']; p['toolpath'] = root
        if py:
            body = f'name = "{name}"\n' + (f'version = "{ver}"\n' if ver else '') + (f'tools = {p["tools"]!r}\n' if p['tools'] else '')
            for ph, fn in (('pre', 'pre_commands'), ('cmd', 'commands'), ('post', 'post_commands')):
                if p[ph]: body += f'\ndef {fn}():\n' + ''.join('    ' + l + '\n' for l in p[ph + 'text'].split('\n'))
            p['py'] = body
        return p
    def base(cli):
        e = {'PATH': ['/usr/bin', '/bin', '/usr/bin'] if r.random() < .3 or cli else ['/b', '/sys/bin'], 'HOME': ['@W@/home'], 'KEEP': ['k$x`y"z']}
        if not cli:
            if r.random() < .2: del e['PATH']
            elif r.random() < .1: e['PATH'] = []
        for v in VARS:
            if r.random() < .35: e[v] = [r.choice(['old', '/old/p', 'o1'])] + (['/o2'] if r.random() < .3 else [])
            elif r.random() < .1: e[v] = []
        return [[k, v] for k, v in sorted(e.items())]
    def add(tag, jobs, py=None, npk=None, kinds=ALL, cli=False, sizes=None, plain=False):
        py = (r.random() < .5) if py is None else py
        n = npk or r.choice([1, 2, 2, 3])
        sizes = sizes or {'pre': [0, 0, 1, 2], 'cmd': [0, 1, 2, 4], 'post': [0, 0, 1]}
        pk = [pkg(i, py, kinds, sizes, cli) for i in range(n)]
        if not cli: r.shuffle(pk)
        ini = {'base': base(cli), 'pkgs': pk, 'add': [], 'unset': [], 'strat': 'prepend'}
        if not cli and not plain:
            if r.random() < .3: ini['add'] = [[r.choice(VARS), ['added']]]
            if r.random() < .3: ini['unset'] = [r.choice(VARS + ['KEEP'])]
            ini['strat'] = r.choice(['prepend', 'prepend', 'append', 'replace', 'no'])
        cases.append({'id': f'{tag}-{len(cases)}', 'init': ini, 'jobs': jobs(pk) if callable(jobs) else jobs})
    G = {'kind': 'gen'}
    for _ in range(c.pick(900, 12000)): add('gen', [G, {'kind': 'rex'}])
    for _ in range(c.pick(150, 1500)): add('stop', [G, {'kind': 'rex'}], kinds=ALL + ['stop'] * 6)
    # every short command sequence on one variable, from each base state
    one = [('set', ['x']), ('prepend', ['p']), ('append', ['q']), ('unset', []), ('ifempty', ['i']), ('reset', [])]
    E = lambda ts: [[{'r': '', 's': t}] for t in ts]
    for b in (None, ['b'], []):
        for i in range(216):
            ops = [dict(k=one[k][0], n='FOO', v=E(one[k][1])) for k in (i // 36, i // 6 % 6, i % 6)]
            cut = r.choice([0, 1, 2, 3])
            p = {'name': 'p', 'upper': 'P', 'ver': '', 'spec': 'p', 'refs': {'root': '@W@/p'}, 'toolpath': '', 'tools': [], 'files': []}
            for ph, os_ in (('pre', ops[:cut][:1]), ('cmd', ops[len(ops[:cut][:1]):2 + (cut > 1)]), ('post', [])): p[ph] = os_
            p['post'] = ops[len(p['pre']) + len(p['cmd']):]
            for ph in ('pre', 'cmd', 'post'): p[ph + 'text'] = '\n'.join(line(o, False) for o in p[ph])
            cases.append({'id': f'short-{len(cases)}', 'init': {'base': [['KEEP', ['k']]] + ([['FOO', b]] if b is not None else []), 'pkgs': [p], 'add': [], 'unset': [], 'strat': 'no'}, 'jobs': [G]})
    for how in ('exec', 'script', 'spawn', 'batch', 'bg'):
        for inherit in (False, True):
            for _ in range(c.pick(8, 60)):
                add('run', [{'kind': 'run', 'how': how, 'inherit': inherit, 'extra': r.choice([[], [['EXTRA', ['e$1`']]], [['FOO', ['over']]]]), 'code': r.choice([0, 0, 3]) if how != 'bg' else 0}], kinds=ENV)
    for how in ('json', 'c', '--', 'shell', 'script'):
        for _ in range(c.pick(14, 120)):
            add('cli', lambda pk: [{'kind': 'cli', 'how': how, 'request': [p['name'] for p in pk], 'code': r.choice([0, 5])}], py=True, kinds=ENV + (['stop'] if r.random() < .15 else []), cli=True)
    # names that are prefixes of one another
    for _ in range(c.pick(60, 400)):
        ks = r.sample(['root', 'root_dir', 'root_dir_x', 'rootdir', 'ver', 'version_tag', 'a', 'ab', 'abc'], 3)
        vs = [[k, f'<{i}>'] for i, k in enumerate(ks)]
        k = r.choice(vs)
        style = r.choice(['$', '{'])
        t = '$' + k[0].upper() if style == '$' else '{' + k[0] + '}'
        cases.append({'id': f'names-{len(cases)}', 'init': {'base': [], 'pkgs': [], 'add': [], 'unset': [], 'strat': 'no'}, 'jobs': [{'kind': 'names', 'vars': vs, 'text': f'/x/{t}/y', 'expect': f'/x/{k[1]}/y'}]})
    recs = c.run_impl('env', cases, jobs=8, unpriv=True, env={'LEAK': 'must not leak'})
    c.validate('P12', recs)
