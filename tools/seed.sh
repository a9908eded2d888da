#!/bin/bash
# tools/seed.sh <seed-id>... [-q]  : in a private overlay of /repo, /opt/vp and /verif, confirms a planted bug
# (demo quiet without it, builds, stable tests pass, demo fails with it) and runs its property's quick check.
# -q skips the test suite. -c P.. runs these checks instead. Needs the privilege to mount: a development tool, not a check.
V=$(cd "$(dirname "$0")/.." && pwd)
skip=; checks=; ids=()
while [ $# -gt 0 ]; do case $1 in -q) skip=1;; -c) checks=$2; shift;; *) ids+=("$1");; esac; shift; done
for id in "${ids[@]}"; do
S=$V/seeded/$id; O=/tmp/seedov.$id; rm -rf "$O"; mkdir -p "$O"
prop=${checks:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
unshare -m bash -c '
S=$1; O=$2; prop=$3; skip=$4; id=$5
for d in repo opt/vp verif; do mkdir -p $O/up/$d $O/wk/$d; mount -t overlay overlay -o lowerdir=/$d,upperdir=$O/up/$d,workdir=$O/wk/$d /$d || exit 9; done
cp -a $S $O/demo; rm -f $O/demo/*.diff $O/demo/meta.json
cd /repo
bash $O/demo/demo.sh >$O/demo0.log 2>&1; d0=$?
git apply $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit; }
b=-; t=skipped
if [ -z "$skip" ]; then
bash /opt/vp/build.sh >$O/build.log 2>&1; b=$?
bash /opt/vp/test.sh $O/t.json >$O/test.log 2>&1
t=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\")); t=json.load(open(\"$O/t.json\"))
m=sorted(set(b[\"stable\"])-set(t[\"passed\"])); print(len(m),*m[:4])")
fi
bash $O/demo/demo.sh >$O/demo1.log 2>&1; d1=$?
res=
for p in $prop; do cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $p quick >$O/check.$p.log 2>&1; res="$res $p=$?"; grep -q "VIOLATION property=$p" $O/check.$p.log && res="$res(VIOLATION)"; done
[ $d0 = 0 -a $d1 != 0 ] && echo "$res" > $O/res
echo "$id: demo-clean=$d0 build=$b stable-failures=[$t] demo-bug=$d1 check:$res"
' x "$S" "$O" "$prop" "$skip" "$id"
python3 - "$id" "$O/res" "$V/tools/seedresults.json" <<'P'
import json,sys,os
i,f,r=sys.argv[1:]
if os.path.exists(f):
    d=json.load(open(r)) if os.path.exists(r) else {}
    t=open(f).read(); c=[x.split('=')[0] for x in t.split() if 'VIOLATION' in x]
    d[i]='caught by '+', '.join(c) if c else 'missed'
    json.dump(d,open(r,'w'),indent=1,sort_keys=True)
P
done
