import random
def cs(s): return [ord(x) for x in s]

TOK = ['0', '00', '1', '2', '9', '10', '01', '010', '1a', 'a1', 'alpha', 'beta', 'rc1', 'rc2', 'rc10', 'A', 'Z', 'a', 'b', 'z',
       'a_b', 'a_1', '1_0', 'dev', 'pre2', 'a1b2', 'a1b10', '999999999', '18446744073709551615', '18446744073709551616',
       '99999999999999999999999', '9223372036854775807', '9223372036854775808', '0a', '00a', 'a0', 'a00', 'alpha01']
BADBITS = ['', 'v1', '_a', 'a_', 'not', 'version', 'abcdefghijk', 'abcdefghij', '~', 'é', ' ', '1 2', '!', '>']
SEP = ['.', '.', '.', '-', '+', '_', '..', ' ', '/', '=']

def rnd_text(r):
    k = r.random()
    if k < 0.05:
        return r.choice(['', 'inf', 'epsilon', ' 1.0 ', '1.0\t', '...', '---', '.1', '1.', 'v', 'V1', 'inf.1', '1.inf', 'INF'])
    n = r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 10, 11]) if r.random() < .3 else r.choice([1, 2, 3])
    out = ''
    for i in range(n):
        t = r.choice(TOK) if r.random() < .93 else r.choice(BADBITS)
        if r.random() < .25:
            t = ''.join(r.choice('019abzAZ_') for _ in range(r.randint(1, 5)))
        out += t
        if i < n - 1:
            out += r.choice(SEP[:5]) if r.random() < .95 else r.choice(SEP)
    return out

def near(r, t):
    """a text close to t, so that comparisons reach past the first token"""
    k = r.random()
    if k < .2: return t + '.0'
    if k < .3: return t + '.0.0'
    if k < .4: return t.replace('.', r.choice('-+.'), 1)
    if k < .6: return t + '.' + r.choice(TOK)
    if k < .7 and '.' in t: return t.rsplit('.', 1)[0]
    if k < .85 and '.' in t: return t.rsplit('.', 1)[0] + '.' + r.choice(TOK)
    if t:
        i = r.randrange(len(t)); return t[:i] + r.choice('0129abAZ_.-') + t[i + (r.random() < .7):]
    return t

def key(rec, r):
    if rec['why'] == ['transitive across zero-padded versions'] or set(rec['why']) == {'transitive across zero-padded versions'}:
        return 'zero-padding-intransitive'
    return None

def run(c):
    c.model('MCVersion', 'MCVersion' if not c.thorough else 'MCVersionT', timeout=800)
    uni = c.generate('MCVersion', 'GenVersion')
    if c.thorough:
        uni += c.generate('MCVersion', 'GenVersionT')
    uni = sorted(uni)
    cases = []
    size = 28
    for i in range(0, len(uni), size):
        cases.append({'id': f'spec-{i}', 'init': {'u': uni[i:i + size]}})
    c.rng.shuffle(uni)
    for i in range(0, len(uni), size):
        cases.append({'id': f'spec-shuffled-{i}', 'init': {'u': uni[i:i + size]}})
    cases.append({'id': 'pad', 'init': {'u': [cs(x) for x in ('1.0', '1.0.0', '1.0.1', '1', '1.1', '1.0.alpha')]}})
    for k in range(c.pick(60, 1200)):
        u = []
        while len(u) < size:
            t = rnd_text(c.rng)
            u.append(t)
            for _ in range(c.rng.randint(0, 3)):
                u.append(near(c.rng, c.rng.choice(u[-3:])))
        cases.append({'id': f'rnd-{k}', 'init': {'u': [cs(x) for x in u[:size]]}})
    for x in cases: x['steps'] = []
    recs = c.run_impl('version', cases)
    c.validate('P01', recs, key=key)
    c.assumptions += ['texts are drawn from the listed token alphabet and random edits of it; numbers of any length are covered by digit-string comparison']
