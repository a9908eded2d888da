#!/usr/bin/env python3
"""tools/mut.py LIST.py [ID...]: runs quick checks against small changes of the code (LIST.py: M = [(id, checks, file, old, new)...]).
Each change is made in a private overlay of /repo and /verif. Needs the privilege to mount: a development tool, not a check."""
import sys, subprocess, os, runpy, shutil
M = runpy.run_path(sys.argv[1])['M']; want = sys.argv[2:]
for mid, checks, f, old, new in M:
    if want and mid not in want: continue
    t = open('/repo/' + f).read()
    if t.count(old) != 1: print(f'{mid}: text occurs {t.count(old)} times', flush=True); continue
    O = f'/tmp/mutov.{mid}'; shutil.rmtree(O, ignore_errors=True); os.makedirs(O)
    open(O + '/new', 'w').write(t.replace(old, new))
    sh = f'''for d in repo opt/vp verif; do mkdir -p {O}/up/$d {O}/wk/$d; mount -t overlay overlay -o lowerdir=/$d,upperdir={O}/up/$d,workdir={O}/wk/$d /$d || exit 9; done
cp {O}/new /repo/{f}
for p in {checks}; do cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $p quick >{O}/$p.log 2>&1; echo "$p=$?"; done'''
    r = subprocess.run(['unshare', '-m', 'bash', '-c', sh], capture_output=True, text=True)
    out = r.stdout.split(); miss = [x for x in out if not x.endswith('=1')]
    for x in out:
        p, rc = x.split('=')
        if rc not in '01': 
            log = open(f'{O}/{p}.log').read(); i = log.find('error'); print(f'{mid}: {x}', log[i:i + 300] if i >= 0 else log[-300:])
    print(f'{mid}: {" ".join(out)}{"  <-- SURVIVED" if all(x.endswith("=0") for x in out) else ""}', flush=True)
    shutil.rmtree(O, ignore_errors=True)
