STR = ['description', 'commands', 'build_command', 'build_system', 'pre_commands', 'post_commands', 'pre_test_commands', 'pre_build_commands', 'requires_rez_version',
       'uuid', 'help', 'revision', 'changelog', 'release_message', 'previous_revision', 'vcs', 'base', 'preprocess']
LST = ['authors', 'tools', 'plugin_for']
REQ = ['requires', 'build_requires', 'private_build_requires']
BOOL = ['relocatable', 'cachable', 'has_plugins', 'hashed_variants']
ALL = STR + LST + REQ + BOOL + ['name', 'version', 'previous_version', 'variants', 'tests', 'timestamp', 'format_version']
TEXTS = ['a', '', ' ', 'a b', ' lead', 'trail ', 'é', '日本', 'true', 'null', '~', '1.0', '0x10', '1e3', 'yes', '- item', '# no', 'a # b', 'key: v', 'k:', "it's", '"q"', '\\', '\\n', 'a\nb', '\n', 'a\n', '\n- x\n', 'l1\n- l2\n  - l3\n',
         'a\n\nb\n', 'tab\there', '\t', '{a}', '[b]', '{', '!tag', '&a', '*a', '%x', '@x', '`x', '|', '>', '|\n x', 'a\r\nb', '\r', '"""', "'''", '</name>', '&amp;', '$HOME', '🦀', 'x' * 200, 'w ' * 90, '---', '...', 'a\n---\nb', 'name: other',
         '\x7f', '\x85', '\u2028', '\ufeff', 'on', '.nan', '2020-01-01', '0o7', '+1', '=', '<<', '?', ': ', '\x1b[0m', '\x00']
REQS = ['python', 'python-3', 'lib>=1.2', 'maya-2020+<2022', '!old', '~weak-1', 'x==1.0', 'a-1.2|2']
VERS = ['1', '1.0', '1.2.3', '2020.1-beta', '0', '1.0.0', '10.0a', 'dev']
def blank(name='pkg'):
    d = {f: [] for f in ALL}; d['name'] = [name]; return d
def pkg(r, rich):
    d = blank(r.choice(['pkg', 'my_tool', 'a', 'Lib2', 'x-y']))
    t = lambda: r.choice(TEXTS) if r.random() < .8 else ''.join(r.choice(TEXTS) for _ in range(3))
    p = lambda: r.random() < rich
    for f in STR:
        if p(): d[f] = [t()]
    for f in LST:
        if p(): d[f] = [t() for _ in range(r.choice([1, 2, 3]))]
    for f in REQ:
        if p(): d[f] = [r.choice(REQS) for _ in range(r.choice([1, 2, 3]))]
    for f in BOOL:
        if p(): d[f] = [r.random() < .5]
    for f in ('version', 'previous_version'):
        if p(): d[f] = [r.choice(VERS)]
    if p(): d['variants'] = [[r.choice(REQS) for _ in range(r.choice([0, 1, 2]))] for _ in range(r.choice([1, 2]))]
    if p(): d['tests'] = sorted([k, t()] for k in {t() for _ in range(2)})
    if p(): d['timestamp'] = [str(r.choice([0, 1, -1, 1700000000, 2**31, 2**53 + 1, 2**62, -2**62]))]
    if p(): d['format_version'] = [str(r.choice([0, 2, -1, 2**31 - 1]))]
    return d
def ctx(r):
    t = lambda: r.choice(TEXTS)
    o = lambda f: [f()] if r.random() < .5 else []
    m = lambda: sorted([k, t()] for k in {t() for _ in range(r.choice([0, 1, 3]))})
    return {'id': [r.choice(['0f', 'ctx 1', 'é'])], 'name': o(t), 'requirements': [r.choice(REQS) for _ in range(r.choice([0, 1, 3]))], 'environment_vars': m(), 'metadata': m(),
            'created_at': [str(r.choice([0, 1700000000, -5, 2**40]))], 'suite': o(t), 'platform': o(t), 'arch': o(t), 'status': r.choice(['Resolving', 'Resolved', 'Failed', 'Cached']),
            'packages': [pkg(r, r.choice([.1, .5, 1])) for _ in range(r.choice([0, 1, 2]))],
            'config': [r.random() < .5, r.choice(['Bash', 'Zsh', 'Fish', 'PowerShell', 'Cmd']), o(lambda: r.choice(['/w', '/a b', 'é'])), m(), [t() for _ in range(r.choice([0, 2]))], r.choice(['Prepend', 'Append', 'Replace', 'NoModify'])]}
def run(c):
    r = c.rng
    c.model('MCDoc', c.pick('MCDoc', 'MCDocT'))
    beh = c.generate('MCDoc', c.pick('GenDoc', 'GenDocT'))
    beh = r.sample(beh, min(len(beh), c.pick(700, 12000)))
    cases = []
    NO = {'only': False, 'inc': [], 'exc': [], 'kind': ''}
    def option(f, o=None):
        o = dict(o or NO)
        o.update(kind=r.choice(['', 'default', 'minimal', 'compact']) if not o.get('kind') else o['kind'])
        if o['kind'] != '' and f != 'py': o['pretty'] = r.random() < .5; o['meta'] = r.random() < .5; o['stamp'] = r.random() < .5
        elif o['kind']: o['pretty'] = True; o['meta'] = r.random() < .5; o['stamp'] = r.random() < .5
        return o
    clean = lambda f, d: d if f != 'toml' else d
    for h in beh:
        docs = [blank(), pkg(r, r.choice([.2, .6, 1]))]
        held, steps = {}, []
        for a in h['hist']:
            p = a['p']; f = h['fmt'][p - 1]; file = f'f{p}.{f}'
            base = {'p': p, 'fmt': f, 'file': file}
            if a['op'] == 'save':
                held[p] = (f, a['opt'], docs[a['k']]); steps.append(dict(base, op='save', opt=option(f, a['opt']), doc=docs[a['k']]))
            elif a['op'] == 'resave': continue   # the copy of a loaded package: the same as saving what the specification holds
            elif a['op'] == 'cut':
                if p not in held: continue
                steps.append(dict(base, op='cut', keep=r.choice([0, 300, 700, 1000])))
            elif a['op'] == 'del':
                if p not in held: continue
                steps.append(dict(base, op='del')); held.pop(p)
            for q in (1, 2):
                g = h['fmt'][q - 1]
                steps.append({'op': 'load', 'p': q, 'fmt': g, 'file': f'f{q}.{g}', 'opt': {'kind': r.choice(['', 'container'])}})
        cases.append({'id': f'hist-{len(cases)}', 'init': {}, 'steps': steps})
    F = ['yaml', 'yml', 'json', 'yaml.gz', 'yml.gz', 'json.gz', 'toml', 'bin', 'py']
    def single(d, fs=None):
        for f in fs or [r.choice(F)]:
            cases.append({'id': f'one-{f}-{len(cases)}', 'init': {}, 'steps': [{'op': 'save', 'p': 1, 'fmt': f, 'file': 'package.' + f, 'opt': option(f), 'doc': d}, {'op': 'load', 'p': 1, 'fmt': f, 'file': 'package.' + f, 'opt': {'kind': ''}}]})
        for f in ['binstr', 'serde', r.choice(['yaml', 'json', 'toml', 'py'])]:
            cases.append({'id': f'text-{f}-{len(cases)}', 'init': {}, 'steps': [{'op': 'text', 'p': 1, 'fmt': f, 'opt': NO, 'doc': d}]})
    for x in TEXTS:      # every special text in every kind of field
        d = blank(); d['description'] = [x]; d['authors'] = [x, 'b', x]; d['commands'] = [x]; d['tests'] = [['t', x]]
        single(d, F)
        if x: d = blank(); d['tests'] = [[x, 'run']]; d['tools'] = [x]; single(d, F)
    for f in ALL:        # every field on its own
        full = pkg(r, 1); d = blank(); d[f] = full[f]; single(d, F)
    for _ in range(c.pick(250, 5000)): single(pkg(r, r.choice([.1, .5, 1])), r.sample(F, 2))
    for _ in range(c.pick(400, 5000)):
        f = r.choice(['rxt', 'rxtb']); d = ctx(r); b = {'p': 1, 'fmt': f, 'file': 'sub/c.' + f}
        st = [dict(b, op='savectx', doc=ctx(r)), dict(b, op='savectx', doc=d), dict(b, op='loadctx', text=r.random() < .3)]
        if r.random() < .3: st += [dict(b, op='cut', keep=r.choice([0, 500, 1000])), dict(b, op='loadctx', text=False)]
        cases.append({'id': f'ctx-{len(cases)}', 'init': {}, 'steps': st})
    c.validate('P08', c.run_impl('doc', cases, jobs=8, unpriv=True))
