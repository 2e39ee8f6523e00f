#!/usr/bin/env python3
# Assembles DESIGN.md.
import json,os,re,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
props=[json.loads(l) for l in open('properties.jsonl')]
checks={c['id']:c for c in json.load(open('harness/checks.json'))}
na=json.load(open('tools/not_applicable.json')) if os.path.exists('tools/not_applicable.json') else []
doc={}
for f in glob.glob('harness/**/*.go',recursive=True):
    t=open(f).read()
    for m in re.finditer(r'((?://[^\n]*\n)+)func (H[A-Z]\w*)\(',t):
        c=' '.join(l.lstrip('/ ').strip() for l in m.group(1).strip().split('\n'))
        c=re.sub(r'^H\w+\s*:?\s*','',c)
        doc[m.group(2)]=c
out=open('tools/design/head.md').read().rstrip()+'\n\n## 5. Properties\n\n'
out+='''For every property: what is asserted over which symbolic variables, by which harness (`harness/*.go`),
the bounds, and what lies outside. The oracle is a reference computed from the test world (which packages
were put where) and never from the code under test. "Cost" is wall time, paths, and solver queries of the last
quick run. None of this is reachable for the tests because every claim quantifies over all start states, arguments,
crash positions or schedules within its bounds.

'''
for p in props:
    i=p['id']
    out+='### %s %s\n\n%s\n\n'%(i,p['title'],p['statement'])
    if i not in checks:
        out+='Not applicable: see below.\n\n'; continue
    c=checks[i]
    e={}
    ef='evidence/%s.json'%i
    cov={}
    if os.path.exists(ef): cov=json.load(open(ef))['coverage']
    for h in c['harnesses']:
        x=next((x for x in cov.get('harnesses',[]) if x.get('harness',x.get('fn'))==h['fn']),None)
        line='- `%s`%s: %s'%(h['fn'],' (thorough only)' if h.get('thorough_only') else '',doc.get(h['fn'],'see the harness').rstrip('.')+'.')
        line+=' Must reach: %s.'%', '.join(h.get('reach',[])) if h.get('reach') else ''
        if h.get('shim'): line+=' Native runs use the shim.'
        out+=line+'\n'
    if isinstance(c.get('bounds'),dict):
        out+='- Bounds: '+'; '.join('%s: %s'%kv for kv in c['bounds'].items())+'.\n'
    out+='- Outside: %s.\n'%str(c.get('outside','')).rstrip('.')
    if c.get('assumptions'): out+='- Assumes: %s.\n'%'; '.join(c['assumptions'])
    if cov:
        hs=cov.get('harnesses',[])
        w=sum(x.get('wall_s',0) for x in hs); pa=sum(x.get('paths',0) for x in hs)
        q=cov.get('queries',cov.get('solver_queries'))
        if q is None: q=sum(x.get('queries',x.get('solver_queries',0)) for x in hs)
        out+='- Cost: %d s, %d paths, %s queries; %d functions of ferryd encoded.\n'%(round(w),pa,q,len(cov.get('functions_encoded',[])))
    out+='\n'
if na:
    out+='### Not applicable\n\n'
    for n in na: out+='- %s: %s\n'%(n.get('id',n.get('property')),n.get('reason'))
    out+='\n'
out+='## 6. Defects found in ferryd\n\nRepaired ("fix:" commits in /repo; every one was found by, and is now watched by, the check of its property):\n\n'
kf=[l.strip() for l in open('known_findings.txt') if not l.startswith('#')]
for l in kf:
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: out+='- %s `%s`: %s\n'%m.groups()
out+='\nRecorded as known findings (not repaired; the checks print KNOWN-FINDING for exactly these assertions):\n\n'
for l in kf:
    m=re.match(r'known: property=(\S+) harness=(\S+) msg="([^"]*)" (.*)',l)
    if m: out+='- %s `%s`, "%s": %s\n'%m.groups()
out+='\n## 7. Seeded bugs\n\n'+open('tools/design/seeds.md').read().rstrip()+'\n\n'
out+='| seed | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n'
caught=json.load(open('tools/design/caught.json')) if os.path.exists('tools/design/caught.json') else {}
for d in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(d)); n=d.split('/')[1]
    out+='| %s | %s | %s | %s | %s |\n'%(n,m['property'],m['what_it_breaks'].replace('|','\\|'),m['needs'].replace('|','\\|'),caught.get(n,'?'))
out+='\n'+open('tools/design/tail.md').read().rstrip()+'\n'
open('DESIGN.md','w').write(out)
