#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and the
output of tools/seeded.sh -a (file given as argument)."""
import json,glob,os,re,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by={}
for l in open(sys.argv[1]):
    m=re.match(r'(caught|MISSED) (\S+) by:(.*)$',l)
    if m: by[m[2]]=(m[1],m[3].split('errors:')[0].split())
rows=['| bug | needs | checks that catch it |','|---|---|---|']
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=f.split('/')[-2]; m=json.load(open(f))
    rows.append('| %s | %s | %s |'%(i,m['needs'].replace('|','/'),', '.join(by.get(i,('',[m['property']]))[1]) or 'none'))
s=open(V+'/DESIGN.md').read()
a=s.index('SEEDED-TABLE') if 'SEEDED-TABLE' in s else s.index('| bug | needs')
b=a+len('SEEDED-TABLE') if 'SEEDED-TABLE' in s else s.index('\n\n',a)
open(V+'/DESIGN.md','w').write(s[:a]+'\n'.join(rows)+s[b:])
