import json,collections,sys
d=json.load(open(sys.argv[1]))
T=lambda cs:''.join(map(chr,cs))
seen=set()
for v in d['violations']:
    if (v['id']) in seen: continue
    seen.add(v['id'])
    print(v['why'], v['id'])
    for k,st in enumerate(v['history']): print('   ', k+1, st['op'], repr(T(st.get('text',[]))), st.get('a'), st.get('b'), {k:v for k,v in st.items() if k not in('ast','has','text','op','a','b')}, [T(x) for x,h in zip(v['init']['u'],st.get('has',[])) if h][:6] if st is v['history'][-1] else '')
