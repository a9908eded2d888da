"""Common driver: builds the harness from /repo's working tree, runs it, runs TLC, judges."""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, random, pwd
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(V, 'spec')
TLAJ = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
TARGET = '/repo/target'

class ToolError(Exception):
    pass

def cargo_env():
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh && env -0'], capture_output=True, check=True).stdout
    env = dict(kv.split('=', 1) for kv in out.decode().split('\0') if '=' in kv)
    env['CARGO_TARGET_DIR'] = TARGET
    return env

_built = False
def build():
    """cargo build of the harness (and of the CLI binary) against /repo's working tree"""
    global _built
    if _built:
        return
    lock = open('/tmp/.vh-build.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    t = time.time()
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(V, 'harness'),
                       env=cargo_env(), capture_output=True, text=True, timeout=840)
    if p.returncode:
        sys.stderr.write(p.stdout[-4000:] + p.stderr[-8000:])
        raise ToolError('harness build failed')
    src = os.path.join(V, 'shim', 'vshim.c')
    if not os.path.exists(SHIM) or os.path.getmtime(SHIM) < os.path.getmtime(src):
        q = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', SHIM + '.tmp', src, '-ldl'], capture_output=True, text=True)
        if q.returncode:
            raise ToolError('shim build failed: ' + q.stderr)
        os.replace(SHIM + '.tmp', SHIM)
    print(f'[build] {time.time()-t:.1f}s', flush=True)
    fcntl.flock(lock, fcntl.LOCK_UN)
    _built = True

BIN = os.path.join(TARGET, 'debug', 'vh')
CLI = os.path.join(TARGET, 'debug', 'vh-rez')

SHIM = os.path.join(TARGET, 'vshim.so')

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.rng = random.Random(f'{pid}-{seed}')
        self.dir = tempfile.mkdtemp(prefix=f'vf-{pid}-')
        os.chmod(self.dir, 0o755)
        self.states = self.transitions = self.traces = self.evals = 0
        self.samples, self.bad, self.notes, self.assumptions = [], [], [], []
        self.distinct = set()
        self.models = []

    thorough = property(lambda s: s.tier == 'thorough')
    def pick(self, q, t):
        return t if self.thorough else q

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def write(self, name, cases):
        p = self.path(name)
        with open(p, 'w') as f:
            for c in cases:
                f.write(json.dumps(c, separators=(',', ':')) + '\n')
        return p

    # ---- implementation side -------------------------------------------------
    def run_impl(self, suite, cases, name='t', unpriv=False, timeout=400, env=None, jobs=1):
        """Runs the cases through the real code; returns the recorded behaviours.  A crash or a hang of
        the code under test is recorded as a violation with the case it happened in."""
        build()
        if jobs > 1 and len(cases) >= jobs * 2:
            from concurrent.futures import ThreadPoolExecutor
            parts = [cases[i::jobs] for i in range(jobs)]
            with ThreadPoolExecutor(jobs) as ex:
                outs = list(ex.map(lambda a: self._run1(suite, a[1], f'{name}{a[0]}', unpriv, timeout, env), enumerate(parts)))
            res = []
            for k in range(max(map(len, outs))):
                for o in outs:
                    if k < len(o):
                        res.append(o[k])
            return res
        return self._run1(suite, cases, name, unpriv, timeout, env)

    def _run1(self, suite, cases, name, unpriv, timeout, env):
        w = self.path('w-' + name)
        os.makedirs(w)
        inp = self.write(f'w-{name}/in.ndjson', cases)
        outp = os.path.join(w, 'out.ndjson')
        scratch = os.path.join(w, 'scratch')
        os.makedirs(scratch)
        exe, cli, shim = BIN, CLI, SHIM
        if unpriv:
            exe, cli = os.path.join(w, 'vh'), os.path.join(w, 'vh-rez')
            shutil.copy(BIN, exe); shutil.copy(CLI, cli)
            shim = os.path.join(w, 'vshim.so'); shutil.copy(SHIM, shim)
            for p in (w, scratch):
                os.chown(p, 65534, 65534)
        e = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'HOME': scratch, 'TMPDIR': scratch, 'LANG': 'C.UTF-8',
             'VH_CLI': cli, 'VH_SCRATCH': scratch, 'RUST_BACKTRACE': '0', 'RUST_MIN_STACK': '16777216',
             'USER': 'nobody', 'TZ': 'UTC', 'VH_SHIM': shim}
        e.update(env or {})
        if e.get('LD_PRELOAD') == 'SHIM':
            e['LD_PRELOAD'] = shim
        def pre():
            os.setsid()
            if unpriv:
                os.setgroups([]); os.setgid(65534); os.setuid(65534)
        errf = open(os.path.join(w, 'err.txt'), 'wb')
        p = subprocess.Popen([exe, suite, inp, outp], cwd=scratch, env=e, stdout=subprocess.DEVNULL, stderr=errf,
                             preexec_fn=pre)
        why = None
        try:
            rc = p.wait(timeout)
            if rc != 0:
                why = f'exit status {rc}'
        except subprocess.TimeoutExpired:
            why = 'hang'
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        recs = []
        if os.path.exists(outp):
            for line in open(outp):
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    break
        if why:
            err = open(os.path.join(w, 'err.txt'), errors='replace').read()[-1500:]
            if len(recs) >= len(cases) or 'VH-TOOL-ERROR' in err:
                raise ToolError(f'harness {suite}: {why}: {err}')
            case = cases[len(recs)]
            self.violation({'kind': 'code under test aborted or hung', 'suite': suite, 'why': why, 'case': case, 'stderr': err})
        elif len(recs) != len(cases):
            raise ToolError(f'harness {suite}: {len(recs)} records for {len(cases)} cases')
        shutil.rmtree(scratch, ignore_errors=True)
        return recs

    # ---- specification side --------------------------------------------------
    def tlc(self, module, cfg=None, env=None, args=(), workers=8, timeout=600, heap='6g', ok=(0,)):
        md = tempfile.mkdtemp(prefix='tlc-', dir=self.dir)
        e = dict(os.environ); e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', f'-Djava.io.tmpdir={md}', f'-Xmx{heap}', '-Xss16m', '-cp', TLAJ, 'tlc2.TLC', '-workers', str(workers),
               '-metadir', md, '-noGenerateSpecTE', '-config', os.path.join(SPEC, (cfg or module) + '.cfg'), *args,
               os.path.join(SPEC, module + '.tla')]
        try:
            p = subprocess.run(cmd, cwd=md, env=e, capture_output=True, text=True, timeout=timeout, errors='replace')
        except subprocess.TimeoutExpired:
            raise ToolError(f'TLC {module} timed out after {timeout}s')
        shutil.rmtree(md, ignore_errors=True)
        out = p.stdout
        m = re.findall(r'^([\d,]+) states generated.*?([\d,]+) distinct states found', out, re.M)
        gen, dist = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
        if ok is not None and p.returncode not in ok:
            raise ToolError(f'TLC {module} rc={p.returncode}\n' + out[-6000:] + p.stderr[-2000:])
        return p.returncode, gen, dist, out

    def model(self, module, cfg=None, **kw):
        """exhaustive check of the specification itself: its invariants and action properties"""
        rc, gen, dist, out = self.tlc(module, cfg, **kw)
        self.states += dist; self.transitions += gen
        self.models.append({'module': module, 'cfg': cfg or module, 'distinct_states': dist, 'generated': gen})
        print(f'[model] {cfg or module}: {dist} distinct states, {gen} generated', flush=True)
        return out

    def generate(self, module, cfg=None, prefix='GEN ', **kw):
        """behaviours printed by TLC, as JSON after the prefix"""
        rc, gen, dist, out = self.tlc(module, cfg, **kw)
        self.states += dist; self.transitions += gen
        self.models.append({'module': module, 'cfg': cfg or module, 'distinct_states': dist, 'generated': gen})
        res = []
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"' + prefix):
                res.append(json.loads(json.loads(line)[len(prefix):]))
        print(f'[generate] {cfg or module}: {len(res)} behaviours ({dist} states)', flush=True)
        if not res:
            raise ToolError(f'TLC {module} generated nothing\n' + out[-3000:])
        return res

    def validate(self, module, recs, cfg=None, key=None, chunk=20000, timeout=600, heap='6g', reference=None):
        """checks recorded behaviours against the specification; collects mismatches. With reference, the
        behaviours come from a reference implementation and a mismatch means the specification is wrong"""
        if not recs:
            return
        nbad = 0
        i = 0
        while i < len(recs):
            n, j = 0, i
            while j < len(recs) and (n == 0 or n + len(recs[j]['steps']) <= chunk):
                n += len(recs[j]['steps']); j += 1
            part = recs[i:j]
            f = self.write('trace.ndjson', part)
            rc, gen, dist, out = self.tlc(module, cfg, env={'TRACE': f}, timeout=timeout, heap=heap)
            expect = sum(len(r['steps']) for r in part) + len(part) + 1
            mism = []
            for line in out.splitlines():
                line = line.strip()
                if line.startswith('"MISMATCH '):
                    mism.append(json.loads(json.loads(line)[len('MISMATCH '):]))
            if dist != expect:
                raise ToolError(f'{module}: trace walk visited {dist} states, expected {expect}\n' + out[-3000:])
            if reference and mism:
                raise ToolError(f'{reference}: {len(mism)} behaviours rejected: ' + ' '.join(f'{m["why"]} {part[m["b"] - 1]["init"]}\n' for m in mism[:8]))
            for m in mism:
                r = part[m['b'] - 1]
                st = r['steps'][m['l'] - 1] if 'l' in m and m['l'] > 0 else None
                rec = {'kind': 'recorded behaviour rejected by the specification', 'module': module,
                       'why': m['why'], 'id': r.get('id'), 'init': r.get('init'), 'step': m['l'],
                       'observed': st, 'history': r['steps'][:m['l']] if r.get('stateful') else None}
                rec['key'] = key(rec, r) if key else None
                self.violation(rec)
                nbad += 1
            self.states += dist; self.transitions += gen
            if not reference:
                self.traces += len(part)
                self.evals += expect - len(part) - 1
            i = j
        if reference:
            print(f'[reference] {module}: {len(recs)} behaviours, {reference}', flush=True)
            return
        for r in recs[:3]:
            self.samples.append(json.dumps({k: (v if k != 'steps' else v[:2]) for k, v in r.items()})[:600])
        print(f'[validate] {module}: {len(recs)} behaviours of the real code, {nbad} mismatches', flush=True)

    def violation(self, rec):
        self.bad.append(rec)

def known():
    p = os.path.join(V, 'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': []}

def main(pid, tier, fn, level='model_checking'):
    seed = int(os.environ.get('VERIF_SEED', '1'))
    c = Ctx(pid, tier, seed)
    try:
        fn(c)
    except ToolError as ex:
        # a violation already established stands even when a later stage cannot run
        if not c.bad:
            sys.stderr.write(f'TOOL-ERROR {pid}: {ex}\n')
            shutil.rmtree(c.dir, ignore_errors=True)
            sys.exit(2)
        sys.stderr.write(f'TOOL-ERROR {pid} (after a violation): {ex}\n')
    kf = [k for k in known()['findings'] if k['property'] == pid and k.get('status') != 'fixed']
    hits, viol = {}, []
    for b in c.bad:
        k = next((k for k in kf if b.get('key') and b['key'] == k['key']), None)
        if k:
            hits.setdefault(k['key'], []).append(b)
        else:
            viol.append(b)
    for k in kf:
        if k['key'] in hits:
            print(f"KNOWN-FINDING: property={pid} {k['what']} ({len(hits[k['key']])} occurrence(s) this run)")
    rep = None
    if viol:
        os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
        rep = os.path.join(V, 'replays', f'{pid}-{tier}-{seed}.json')
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'count': len(viol),
                   'replay': f'VERIF_SEED={seed} ./check {pid} {tier}', 'violations': viol[:50]},
                  open(rep, 'w'), indent=1)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': {'states': c.states, 'transitions': c.transitions,
                       'traces_validated_against_impl': c.traces,
                       'evaluations': c.evals, 'samples': c.samples[:8], 'exhaustive': False,
                       'models': c.models, 'notes': c.notes},
          'wall_s': round(time.time() - c.t0, 1), 'assumptions': c.assumptions, 'violations': len(viol)}
    ev['coverage']['known_findings_seen'] = {k: len(v) for k, v in hits.items()}
    json.dump(ev, open(os.path.join(V, 'evidence', f'{pid}.json'), 'w'), indent=1)
    shutil.rmtree(c.dir, ignore_errors=True)
    if viol:
        for b in viol[:5]:
            print('  ' + json.dumps({k: b[k] for k in b if k in ('why', 'kind', 'observed', 'key', 'case')})[:700])
        print(f'VIOLATION property={pid} replay={rep}')
        sys.exit(1)
    for n in c.notes:
        print('  note: ' + n)
    print(f'OK {pid} {tier}: {c.traces} behaviours, {c.evals} steps of the real code, {c.states} states, '
          f'{time.time()-c.t0:.0f}s')
    sys.exit(0)
