"""tools/fixed.py <sha> <property> <what failed>: records a repair in known-findings.json"""
import json, sys, os
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.json')
def add(sha, prop, what):
    d = json.load(open(F))
    l = f'fixed: property={prop} {sha} {what}'
    if not any(f' {sha} ' in x for x in d['fixed']): d['fixed'].append(l)
    json.dump(d, open(F, 'w'), indent=1); open(F, 'a').write('\n')
if __name__ == '__main__': add(*sys.argv[1:4])
