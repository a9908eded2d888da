import os
STRF = ['name', 'version', 'description', 'build_command', 'build_system', 'uuid', 'help', 'base', 'preprocess', 'requires_rez_version']
LISTF = ['authors', 'requires', 'build_requires', 'private_build_requires', 'tools', 'plugin_for']
BOOLF = ['relocatable', 'cachable', 'hashed_variants', 'has_plugins']
ENV = {'VH_SET': 'Abc', 'VH_EMPTY': '', 'VH_TRUE': 'TRUE'}
cp = lambda s: [ord(x) for x in s]
uncp = lambda q: ''.join(chr(x) for x in q)

# ---- AST -> text -------------------------------------------------------------------------------------------
def lit(s, q=0):
    r = repr(s)
    if q == 1 and '"' not in s and '\\' not in r: return '"' + s + '"'
    if q == 2 and '"' not in s and '\\' not in r and s: return '"""' + s + '"""'
    return r
def ex(x, r):
    k = x['k']
    if k == 'str': return lit(uncp(x['v']), r.choice([0, 0, 1, 2]) if r else 0)
    if k == 'int': return str(x['v'])
    if k == 'flt': return uncp(x['src'])
    if k == 'bool': return str(x['v'])
    if k == 'none': return 'None'
    if k in ('name', 'attr'): return x['v']
    if k == 'list': return '[' + ', '.join(ex(y, r) for y in x['xs']) + ']'
    if k == 'tup': return '(' + ''.join(ex(y, r) + ', ' for y in x['xs']) + ')'
    if k == 'dict': return '{' + ', '.join(('**' + ex(p['v'], r)) if p['u'] else ex(p['k'], r) + ': ' + ex(p['v'], r) for p in x['ps']) + '}'
    if k == 'bin': return '(' + ex(x['a'], r) + ' ' + x['op'] + ' ' + ex(x['b'], r) + ')'
    if k == 'not': return '(not ' + ex(x['a'], r) + ')'
    if k == 'neg': return '(-' + ex(x['a'], r) + ')'
    if k == 'cmp': return '(' + ex(x['a'], r) + ''.join(f' {o} ' + ex(y, r) for o, y in zip(x['ops'], x['xs'])) + ')'
    if k in ('and', 'or'): return '(' + f' {k} '.join(ex(y, r) for y in x['xs']) + ')'
    if k == 'if': return '(' + ex(x['a'], r) + ' if ' + ex(x['test'], r) + ' else ' + ex(x['b'], r) + ')'
    if k == 'getenv': return 'os.getenv(' + ex(x['a'], r) + ''.join(', ' + ex(y, r) for y in x['d']) + ')'
    if k == 'lower': return ex(x['a'], r) + '.lower()'
    if k == 'index': return '(' + ex(x['a'], r) + f')[{x["i"]}]'
    if k == 'fstr': return 'f' + repr(''.join(uncp(p['v']).replace('{', '{{').replace('}', '}}') if p['k'] == 'str' else '{' + ex(p, None) + '}' for p in x['ps']))
    if k == 'format':
        t = ''
        for p in x['ps']:
            if p['k'] == 'lit': t += uncp(p['v']).replace('{', '{{').replace('}', '}}')
            elif p['k'] == 'auto': t += '{}'
            elif p['k'] == 'pos': t += '{%d}' % p['i']
            elif p['k'] == 'spec': t += '{%d:>%d}' % (p['i'], p['w'])
            else: t += '{' + uncp(p['n']) + '}'
        return lit(t) + '.format(' + ', '.join([ex(a, r) for a in x['args']] + [uncp(w['n']) + '=' + ex(w['v'], r) for w in x['kw']]) + ')'
    raise Exception(k)
TOP = {'alias': 'alias', 'command': 'command', 'source': 'source', 'info': 'info', 'error': 'error', 'stop': 'stop', 'resetenv': 'resetenv'}
def act(a, r):
    op, xs = a['op'], [ex(x, r) for x in a['xs']]
    j = ', '.join(xs)
    if op in TOP: return f'{op}({j})'
    n = uncp(a['xs'][0]['v']) if a['xs'][0]['k'] == 'str' else ''
    f = a.get('form', 0) if n.isidentifier() else 0
    if op == 'setenv': return [f'env.setenv({j})', f'setenv({j})', f'env.{n} = {xs[1]}', f'env.{n}.set({xs[1]})'][f % 4]
    if op == 'unsetenv': return [f'env.unsetenv({j})', f'unsetenv({j})'][f % 2]
    if op == 'prepend': return [f'env.prepend_path({j})', f'prependenv({j})', f'env.{n}.prepend({xs[1]})'][f % 3]
    if op == 'append': return [f'env.append_path({j})', f'appendenv({j})', f'env.{n}.append({xs[1]})'][f % 3]
    if op == 'ifempty': return f'env.setenv_if_empty({j})'
    raise Exception(op)
def stmts(ss, ind, r):
    out = []
    for a in ss:
        p = '    ' * ind
        s = a['s']
        if s == 'assign': out.append(p + ' = '.join(a['ts']) + ' = ' + ex(a['e'], r))
        elif s == 'ann': out.append(f"{p}{a['n']}: object = {ex(a['e'], r)}")
        elif s == 'aug': out.append(f"{p}{a['n']} += {ex(a['e'], r)}")
        elif s == 'del': out.append(f"{p}del {a['n']}")
        elif s == 'if':
            out += [f"{p}if {ex(a['e'], r)}:"] + (stmts(a['body'], ind + 1, r) or [p + '    pass'])
            if a['orelse']: out += [p + 'else:'] + stmts(a['orelse'], ind + 1, r)
        elif s == 'for': out += [f"{p}for {a['n']} in {ex(a['e'], r)}:"] + (stmts(a['body'], ind + 1, r) or [p + '    pass'])
        elif s == 'try': out += [p + 'try:'] + (stmts(a['body'], ind + 1, r) or [p + '    pass']) + [p + 'except ImportError:', p + '    pass']
        elif s == 'expr': out.append(p + ex(a['e'], r))
        elif s == 'def': out += [f"{p}def {a['n']}():"] + (stmts(a['body'], ind + 1, r) or [p + '    pass']) + ['']
        elif s == 'cmdstr': out.append(f"{p}{a['n']} = " + repr('\n'.join(f'env.{x[0]}(' + ', '.join("'" + uncp(y) + "'" for y in x[1:]) + ')' for x in a['acts'])))
        elif s == 'act': out.append(p + act(a, r))
        elif s == 'import': out.append(p + 'import os')
        else: out.append(p + 'pass')
    return out

# ---- what CPython makes of it (validates the specification, not the implementation) ------------------------
class Rec:
    def __init__(s): object.__setattr__(s, 'l', [])
    def __getattr__(s, n):
        l = object.__getattribute__(s, 'l')
        m = {'setenv': 'setenv', 'unsetenv': 'unsetenv', 'prepend_path': 'prepend', 'append_path': 'append', 'setenv_if_empty': 'ifempty'}
        if n in m: return lambda *a: l.append([m[n]] + [cp(str(x)) for x in a])
        class V:
            def set(_, v): l.append(['setenv', cp(n), cp(str(v))])
            def prepend(_, v): l.append(['prepend', cp(n), cp(str(v))])
            def append(_, v): l.append(['append', cp(n), cp(str(v))])
        return V()
    def __setattr__(s, n, v): s.l.append(['setenv', cp(n), cp(str(v))])
class Ver(str):
    def __getattr__(s, n):
        import re
        return re.split('[.+-]', s)[{'major': 0, 'minor': 1, 'patch': 2}[n]]
def cpython(text, acts):
    """The observation CPython gives, or None where it is not comparable."""
    rec = Rec()
    ns = {'os': type('o', (), {'getenv': staticmethod(lambda n, d=None: ENV.get(n, d)), 'name': 'posix'}), 'system': type('y', (), {'platform': 'linux'}), 'env': rec}
    text = text.replace('import os', 'pass')
    for f, o in [('setenv', 'setenv'), ('unsetenv', 'unsetenv'), ('prependenv', 'prepend'), ('appendenv', 'append')] + [(k, k) for k in TOP]:
        ns[f] = (lambda o: lambda *a: rec.l.append([o] + [cp(str(x)) for x in a]))(o)
    base = set(ns) | {'__builtins__'}
    try:
        exec(compile(text, 'package.py', 'exec'), ns)
        out = {}
        for f in ('commands', 'pre_commands', 'post_commands'):
            rec.l.clear(); v = ns.get(f)
            if callable(v):
                ns['this'] = type('t', (), {'name': ns.get('name'), 'version': Ver(ns.get('version', ''))})
                v()
                out[f] = list(rec.l)
            elif v is None: out[f] = []
            else: out[f] = acts
    except Exception: return None
    T = lambda v: cp(str(v))
    o = {}
    for f in STRF:
        v = ns.get(f)
        if isinstance(v, (list, tuple, dict)): return None
        o[f] = [] if v is None else [T(v)]
    for f in LISTF:
        v = ns.get(f)
        if v is not None and (not isinstance(v, (list, tuple)) or any(not isinstance(x, (str, int, float)) for x in v)): return None
        o[f] = [T(x) for x in v or []]
    for f in BOOLF:
        v = ns.get(f)
        if v is not None and not isinstance(v, bool): return None
        o[f] = [] if v is None else [v]
    v = ns.get('variants')
    if v is not None and not isinstance(v, (list, tuple)): return None
    try: o['variants'] = [[T(y) for y in x] for x in v or []]
    except TypeError: return None
    if any(not isinstance(x, (list, tuple)) or any(not isinstance(y, (str, int, float)) for y in x) for x in v or []): return None
    v = ns.get('tests')
    if v is not None and (not isinstance(v, dict) or any(not isinstance(x, (str, int, float)) for x in v.values())): return None
    o['tests'] = [[cp(a), T(b)] for a, b in (v or {}).items()]
    v = ns.get('format_version')
    if v is not None and (isinstance(v, bool) or not isinstance(v, int)): return None
    o['format_version'] = [] if v is None else [v]
    return {'ok': True, 'fields': o, 'acts': out, 'same': True}

# ---- random modules ---------------------------------------------------------------------------------------
class Gen:
    def __init__(s, r): s.r = r
    def S(s, t): return {'k': 'str', 'v': cp(t)}
    def word(s): return s.r.choice(['a', 'b', 'Ab', 'foo', 'X1', '', 'x y', '/opt/p', '{x}', 'é', '1', '$A', 'a:b', 'linux', 'posix', 'true'])
    def var(s, t, d):
        vs = [n for n, y in s.vars.items() if y == t]
        return {'k': 'name', 'v': s.r.choice(vs)} if vs and s.r.random() < .6 else None
    def attrs(s):
        return ['system.platform', 'os.name'] + (['this.name', 'this.version', 'this.version.major', 'this.version.minor', 'this.version.patch'] if s.fn else [])
    def st(s, d):
        r = s.r; x = s.var('str', d)
        if x: return x
        c = r.random()
        if d <= 0 or c < .35: return s.S(s.word())
        if c < .5: return {'k': 'bin', 'op': '+', 'a': s.st(d - 1), 'b': s.st(d - 1)}
        if c < .55: return {'k': 'bin', 'op': '*', 'a': s.st(0), 'b': s.it(0)}
        if c < .63: return {'k': 'if', 'test': s.bo(d - 1), 'a': s.st(d - 1), 'b': s.st(d - 1)}
        if c < .70: return {'k': 'getenv', 'a': s.S(r.choice(['VH_SET', 'VH_EMPTY', 'VH_TRUE', 'VH_NOT'])), 'd': [s.st(d - 1)]}
        if c < .75: return {'k': 'lower', 'a': s.st(0)}
        if c < .87: return s.fmt(d)
        if c < .93: return {'k': 'attr', 'v': r.choice(s.attrs())}
        if c < .96: return {'k': r.choice(['and', 'or']), 'xs': [s.st(d - 1) for _ in range(r.choice([2, 3]))]}
        if c < .98: return {'k': 'index', 'a': s.li(d - 1), 'i': r.choice([0, 1, -1])}
        return {'k': 'fstr', 'ps': [s.S('a'), s.var('str', d) or {'k': 'int', 'v': 3}]}
    def fmt(s, d):
        r = s.r; ps, args, kw = [], [], []
        mode = r.choice(['auto', 'pos', 'auto', 'pos', 'mix', 'kw', 'spec'])
        for _ in range(r.choice([1, 2])): args.append(r.choice([s.st, s.st, s.it, s.bo, s.fl])(d - 1 if r.random() < .5 else 0))
        for _ in range(r.choice([1, 2, 3])):
            ps.append({'k': 'lit', 'v': cp(r.choice(['', 'a', '-', '{', '}', '{0}', ' ']))})
            m = r.random()
            if m < .1: ps.append({'k': 'named', 'n': cp(r.choice(['root', 'x', 'this.version']))}); s.named = 1
            elif mode == 'auto' or (mode == 'mix' and m < .5): ps.append({'k': 'auto'})
            elif mode == 'spec': ps.append({'k': 'spec', 'i': 0, 'w': r.choice([0, 3, 5])})
            elif mode == 'kw': ps.append({'k': 'named', 'n': cp('kx')}); kw = [{'n': cp('kx'), 'v': s.st(0)}]
            else: ps.append({'k': 'pos', 'i': r.choice([0, 0, 1])})
        return {'k': 'format', 'ps': ps, 'args': args, 'kw': kw}
    def fl(s, d=0):
        t = s.r.choice(['2.0', '1.5', '0.1', '10.25', '1e16', '0.0', '1e-07', '123456789012.5', '1e3'])
        return {'k': 'flt', 'v': cp(str(float(t))), 'src': cp(t), 'z': float(t) == 0}
    def it(s, d):
        r = s.r; x = s.var('int', d)
        if x: return x
        c = r.random()
        if d <= 0 or c < .5: return {'k': 'int', 'v': r.choice([0, 1, 2, 3, 7, 10, 99])}
        if c < .85: return {'k': 'bin', 'op': r.choice('+-*'), 'a': s.it(d - 1), 'b': s.it(d - 1) if r.random() < .95 else s.bo(0)}
        return {'k': 'neg', 'a': s.it(d - 1)}
    def bo(s, d):
        r = s.r; x = s.var('bool', d)
        if x: return x
        c = r.random()
        if d <= 0 or c < .2: return {'k': 'bool', 'v': r.random() < .5}
        if c < .65:
            m = r.random()
            if m < .45: f = lambda: s.it(0); ops = ['==', '<', '>']
            elif m < .8: f = lambda: s.st(0); ops = ['==', '!=']
            elif m < .85: f = lambda: s.bo(0); ops = ['==']
            elif m < .93: f = r.choice([lambda: s.st(0), lambda: s.it(0)]); ops = ['==', '!=', '<', '>', '<=', '>=']
            else: f = lambda: r.choice([s.st, s.it, s.bo, s.li])(0); ops = ['==', '!=']
            n = r.choice([1, 1, 1, 2, 3])
            return {'k': 'cmp', 'a': f(), 'ops': [r.choice(ops) for _ in range(n)], 'xs': [f() for _ in range(n)]}
        if c < .85: return {'k': r.choice(['and', 'or']), 'xs': [s.bo(d - 1) for _ in range(r.choice([2, 3]))]}
        return {'k': 'not', 'a': s.bo(d - 1) if r.random() < .9 else s.any(0)}
    def li(s, d, item=None):
        r = s.r; x = s.var('list', d)
        if x: return x
        c = r.random()
        if d > 0 and c < .25: return {'k': 'bin', 'op': '+', 'a': s.li(d - 1, item), 'b': s.li(d - 1, item)}
        if d > 0 and c < .35: return {'k': 'if', 'test': s.bo(d - 1), 'a': s.li(d - 1, item), 'b': s.li(d - 1, item)}
        it = item or (lambda: s.st(d - 1) if r.random() < .97 else r.choice([s.it, s.fl, s.bo])(0))
        return {'k': 'tup' if c > .93 else 'list', 'xs': [it() for _ in range(r.choice([0, 1, 2, 2, 3]))]}
    def req(s): return s.S(s.r.choice(['python-3', 'lib', 'maya>=2', '~x', '!y-1', 'a-1+<2'])) if s.r.random() < .8 else s.st(1)
    def di(s, d):
        x = s.var('dict', d)
        if x: return x
        return {'k': 'dict', 'ps': [{'u': True, 'k': {'k': 'none'}, 'v': s.var('dict', 0) or {'k': 'dict', 'ps': []}} if s.r.random() < .15 else
                                    {'u': False, 'k': s.S(s.r.choice('pqr')), 'v': s.st(d - 1)} for _ in range(s.r.choice([0, 1, 2, 3]))]}
    def any(s, d): return s.r.choice([s.st, s.it, s.bo, s.li, s.di, s.fl, lambda d: {'k': 'none'}])(d)
    def version(s, d):
        r = s.r
        V = lambda: s.S(r.choice(['1', '2.0', '1.2.3', '10', '3.4']))
        c = r.random()
        if c < .6: return V()
        if c < .8: return {'k': 'bin', 'op': '+', 'a': V() if 'version' not in s.vars or r.random() < .5 else {'k': 'name', 'v': 'version'}, 'b': s.S('.5')}
        if c < .88: return {'k': 'format', 'ps': [{'k': 'auto'}, {'k': 'lit', 'v': cp('.')}, {'k': 'auto'}], 'args': [s.it(0), s.it(0)], 'kw': []}
        if c < .93: return s.fl()
        if c < .97: return s.it(0)
        return s.any(0)
    def field(s, d):
        r = s.r; c = r.random()
        if c < .2: return 'version', s.version(d), 'str'
        if c < .4: f = r.choice(STRF[2:]); return f, s.st(d) if r.random() < .93 else s.any(d), 'str'
        if c < .62:
            f = r.choice(['requires', 'requires', 'build_requires', 'private_build_requires'])
            e = s.li(d, s.req)
            if f in s.vars and r.random() < .3: e = {'k': 'bin', 'op': '+', 'a': {'k': 'name', 'v': f}, 'b': e}
            return f, e, 'list'
        if c < .75: return r.choice(['authors', 'tools', 'plugin_for']), s.li(d), 'list'
        if c < .82: return r.choice(BOOLF), s.bo(d) if r.random() < .9 else s.any(0), 'bool'
        if c < .9: return 'variants', {'k': 'list', 'xs': [s.li(0, s.req) for _ in range(r.choice([1, 2]))]} if r.random() < .9 else s.any(1), 'variants'
        if c < .96: return 'tests', s.di(d) if r.random() < .9 else s.any(1), 'dict'
        return 'format_version', s.it(0), 'int'
    def block(s, n, d, depth=0):
        """module-level statements"""
        r = s.r; out = []
        for _ in range(n):
            c = r.random()
            if c < .27:
                t = r.choice(['str', 'str', 'str', 'int', 'bool', 'list', 'dict'])
                e = {'str': s.st, 'int': s.it, 'bool': s.bo, 'list': s.li, 'dict': s.di}[t](d)
                ts = [r.choice({'str': ['s1', 's2'], 'int': ['i1', 'i2'], 'bool': ['b1', 'b2'], 'list': ['l1', 'l2'], 'dict': ['d1']}[t])]
                if r.random() < .1 and t == 'str': ts.append(r.choice(['description', 's2', 'help']))
                out.append({'s': 'assign', 'ts': ts, 'e': e})
                for x in ts: s.vars[x] = t
            elif c < .62:
                f, e, t = s.field(d); out.append({'s': 'assign', 'ts': [f], 'e': e})
                if t != 'variants': s.vars[f] = t
            elif c < .72 and depth < 2:
                keep = dict(s.vars)
                e = s.bo(d) if r.random() < .95 else s.any(1)
                b = s.block(r.choice([1, 1, 2]), d - 1, depth + 1); v1 = s.vars; s.vars = dict(keep)
                o = s.block(r.choice([0, 1, 2]), d - 1, depth + 1) if r.random() < .7 else []
                s.vars = {k: v for k, v in v1.items() if s.vars.get(k) == v} if r.random() < .9 else {**v1, **s.vars}
                out.append({'s': 'if', 'e': e, 'body': b, 'orelse': o})
            elif c < .86: out.append({'s': 'def', 'n': r.choice(['commands', 'commands', 'pre_commands', 'post_commands']), 'body': s.body(r.choice([0, 1, 2, 3, 4]), d)})
            elif c < .88: out.append({'s': 'cmdstr', 'n': 'commands', 'acts': [['setenv', cp('CS'), cp('v')]]}); s.cmdstr = 1
            elif c < .90 and s.vars:
                n_ = r.choice(list(s.vars)); t = s.vars[n_]
                if t in ('str', 'list', 'int'): out.append({'s': 'aug', 'n': n_, 'e': {'str': s.st, 'list': s.li, 'int': s.it}[t](0)})
            elif c < .91: out.append({'s': 'ann', 'n': r.choice(['s1', 'description']), 'e': s.st(0)})
            elif c < .92:
                keep = dict(s.vars); s.vars['q'] = 'str'
                out.append({'s': 'for', 'n': 'q', 'e': s.li(0), 'body': s.block(1, 0, 2)}); s.vars = keep
            elif c < .93: keep = dict(s.vars); out.append({'s': 'try', 'body': s.block(1, 0, 2)}); s.vars = keep
            elif c < .94 and s.vars: out.append({'s': 'del', 'n': r.choice(list(s.vars))}); s.vars.pop(out[-1]['n'])
            elif c < .95: out.append({'s': 'assign', 'ts': ['s1'], 'e': {'k': 'name', 'v': 'nosuch'}})
            elif c < .97: out.append({'s': 'expr', 'e': s.S('doc string')})
            else: out.append({'s': r.choice(['pass', 'import'])})
        return out
    def body(s, n, d, depth=0):
        r = s.r
        if depth == 0: keep, s.fn = dict(s.vars), 1
        out = []
        for _ in range(n):
            c = r.random()
            if c < .2:
                t = r.choice(['str', 'str', 'int', 'bool']); ts = [r.choice({'str': ['k1', 'k2', 's1'], 'int': ['k3'], 'bool': ['k4']}[t])]
                e = {'str': s.st, 'int': s.it, 'bool': s.bo}[t](d)
                if r.random() < .06 and t == 'str': ts = ['k1', 's2']
                out.append({'s': 'assign', 'ts': ts, 'e': e})
                for x in ts: s.vars[x] = t
            elif c < .38 and depth < 2:
                k2 = dict(s.vars); e = s.bo(d); b = s.body(r.choice([1, 2]), d - 1, depth + 1); s.vars = dict(k2)
                o = s.body(r.choice([0, 1]), d - 1, depth + 1); s.vars = k2 if r.random() < .8 else {**k2, **s.vars}
                out.append({'s': 'if', 'e': e, 'body': b, 'orelse': o})
            elif c < .41: out.append({'s': r.choice(['pass', 'import', 'expr']), 'e': s.S('doc')})
            elif c < .43: out.append({'s': 'for', 'n': 'k9', 'e': s.li(0), 'body': [{'s': 'act', 'op': 'prepend', 'xs': [s.S('LOOP'), {'k': 'name', 'v': 'k9'}], 'form': 0}]})
            else:
                op = r.choice(['setenv'] * 3 + ['prepend', 'append'] * 2 + ['unsetenv', 'ifempty', 'alias', 'command', 'source', 'info', 'error', 'stop', 'resetenv'])
                nm = s.S(r.choice(['A', 'PATH', 'PYTHONPATH', 'A_1']))
                v = s.st(d) if r.random() < .9 else r.choice([s.it, s.fl, s.bo])(0)
                xs = {'unsetenv': [nm], 'resetenv': [nm], 'alias': [s.S('al'), v], 'stop': [] if r.random() < .5 else [v]}.get(op)
                if xs is None: xs = [v] if op in ('command', 'source', 'info', 'error') else [nm, v]
                out.append({'s': 'act', 'op': op, 'xs': xs, 'form': r.randrange(12)})
        if depth == 0: s.vars, s.fn = keep, 0
        return out
    def module(s):
        s.vars, s.fn, s.named, s.cmdstr = {}, 0, 0, 0
        pre = [{'s': 'import'}] + [{'s': 'assign', 'ts': ['name'], 'e': s.S(s.r.choice(['pkg', 'my_tool']))}]; s.vars['name'] = 'str'
        if s.r.random() < .8: pre.append({'s': 'assign', 'ts': ['version'], 'e': s.S(s.r.choice(['1.2.3', '2']))}); s.vars['version'] = 'str'
        return pre + s.block(s.r.choice([1, 2, 3, 4, 6, 8]), s.r.choice([0, 1, 2, 2, 3]))

def run(c):
    r = c.rng
    c.model('MCPy', c.pick('MCPy', 'MCPyT'))
    progs = c.generate('MCPy', 'GenPy')
    if not c.thorough: progs = [p for p in progs if len(p) < 3] + r.sample([p for p in progs if len(p) == 3], 250)
    c.model('MCPy', 'MCPyB')
    bodies = c.generate('MCPy', c.pick('GenPyB', 'GenPyBT'))
    progs += [p for p in bodies if len(p[1]['body']) < 3] + r.sample([p for p in bodies if len(p[1]['body']) >= 3], c.pick(900, 9000))
    cases, ref = [], []
    env = [[cp(k), cp(v)] for k, v in ENV.items()]
    def put(tag, ss, cross):
        text = '\n'.join(stmts(ss, 0, r)) + '\n'
        mk = lambda k, o: {'id': f'{k}-{len(cases)}', 'init': {'text': text}, 'steps': [{'op': 'stmt', 'a': a, 'env': env} for a in ss] + [dict({'op': 'read', 'env': env}, **o)]}
        cases.append(mk(tag, {}))
        if cross:
            o = cpython(text, cross[0])
            if o: ref.append(mk('cpython', o))
    for p in progs:
        for a in p:
            if a['s'] == 'act': a['form'] = 0
        cs = [a for a in p if a['s'] == 'cmdstr']
        put('short', [{'s': 'assign', 'ts': ['name'], 'e': {'k': 'str', 'v': cp('p')}}] + p, [cs[-1]['acts'] if cs else []])
    g = Gen(r)
    for _ in range(c.pick(2500, 16000)):
        m = g.module()
        put('rand', m, None if g.named or g.cmdstr else [[]])
    c.validate('P06', ref, reference='the specification agrees with CPython')
    recs = c.run_impl('py', cases, jobs=8, unpriv=True, env=ENV)
    c.validate('P06', recs)
    n = sum(1 for x in recs if x['steps'][-1].get('ok'))
    print(f'[py] {n} of {len(recs)} modules were read, {len(recs) - n} refused', flush=True)
