import json,sys,collections
f=sys.argv[1]; n=int(sys.argv[2]) if len(sys.argv)>2 else 1
d=json.load(open(f)); g=collections.defaultdict(list)
for v in d['violations']:
    g[tuple(v.get('why') or [v.get('kind')]) if isinstance(v.get('why'),list) else (v.get('why') or v.get('kind'),)].append(v)
for k,vs in g.items():
    print('==',len(vs),k)
    for v in vs[:n]: print('   ',json.dumps({a:v[a] for a in v if a not in('why','kind','module')})[:1800])
