def run(c):
    r = c.rng
    texts = c.generate('MCShell', 'MCShell')
    if c.thorough: c.model('MCShell', 'MCShellT', timeout=3000)
    base = list(texts)
    SPECIAL = '"\'\\$`\n%!#&|;<>(){}[]*?~^=:,@ \tab/Z09_-éß漢'
    payload = ['$(touch pwned)', '`touch pwned`', '";touch pwned;"', "';touch pwned;'", '\\";touch pwned;#', '\n touch pwned\n', '${x:-$(touch pwned)}', '$((1+1))', '\\', '\\\\', 'C:\\new\\$x', '!!', '~', '* ?', '%PATH%', 'a\\"b', "it's", '$', '$$', 'x$', '"', '``', '', ' lead and trail ', '-n', '\\$HOME', "\\'", "'\\''", '`"', '``$x', '$(', '${', "''", '$env:PATH', '@(1)', '\t', 'a\nb\n']
    texts += [[ord(x) for x in p] for p in payload]
    for _ in range(c.pick(400, 6000)): texts.append([ord(r.choice(SPECIAL)) for _ in range(r.choice([1, 2, 4, 6, 9, 14]))])
    for _ in range(c.pick(150, 1500)):
        p = r.choice(payload); q = ''.join(r.choice(SPECIAL) for _ in range(3)); texts.append([ord(x) for x in q + p + q[::-1]])
    cases = []
    n = [0]
    def put(gen, shell, vals, als):
        vs = [[f'V{i}_{"Aa"[i % 2]}', v] for i, v in enumerate(vals)]
        as_ = [[f'al{i}', v] for i, v in enumerate(als)]
        n[0] += 1
        cases.append({'id': f'{gen}-{shell}-{n[0]}', 'init': {'x': 0}, 'steps': [{'op': 'script', 'gen': gen, 'shell': shell, 'vars': vs, 'names': [[ord(x) for x in v[0]] for v in vs], 'aliases': as_, 'anames': [[ord(x) for x in v[0]] for v in as_]}]})
    def chunks(l, k): return [l[i:i + k] for i in range(0, len(l), k)]
    for gen in ('rex', 'ctx'):
        for shell in ('bash', 'zsh', 'fish', 'powershell'):
            al = gen == 'rex' and shell != 'powershell'
            ts = texts if shell != 'zsh' or c.thorough else r.sample(texts, 200)
            for ch in chunks(ts, 12):
                put(gen, shell, ch, ch[:6] if al and r.random() < .5 else [])
            for t in r.sample(ts, c.pick(40, 400)): put(gen, shell, [t], [t] if al else [])
    ok = [t for t in texts if not {10, 13, 34} & set(t)]
    for ch in chunks(ok, 12): put('rex', 'cmd', ch, []); put('ctx', 'cmd', ch, [])
    put('rex', 'powershell', [], [])
    recs = c.run_impl('script', cases, jobs=8, unpriv=True)
    c.validate('P13', recs)
