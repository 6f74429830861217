#!/usr/bin/env python3
"""mkseed.py ID PROPERTY < spec : make /verif/seeded/ID from a spec on stdin.

The spec holds sections started by lines '### needs', '### breaks', '### file PATH',
'### old', '### new' (repeatable) and '### demo' (a Go test file of package vxlisp)."""
import sys, os, json, subprocess, re
sid, prop = sys.argv[1:3]
secs=[]; cur=None
for l in sys.stdin.read().split('\n'):
    m=re.match(r'### (needs|breaks|file|old|new|demo)(?: (.*))?$', l)
    if m: cur=[m.group(1), m.group(2), []]; secs.append(cur)
    elif cur: cur[2].append(l)
d='/verif/seeded/'+sid
os.makedirs(d,exist_ok=True)
assert subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True,text=True).stdout=='', 'repo not clean'
f=None; meta={'property':prop}
try:
    for k,a,b in secs:
        t='\n'.join(b).strip('\n')
        if k=='needs': meta['needs']=' '.join(t.split())
        elif k=='breaks': meta['what_it_breaks']=' '.join(t.split())
        elif k=='file': f='/repo/'+a
        elif k=='old': old=t
        elif k=='new':
            s=open(f).read(); assert s.count(old)==1,(f,s.count(old),old); open(f,'w').write(s.replace(old,t))
        elif k=='demo': open(d+'/demo_test.go','w').write(t+'\n')
    p=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(p)
finally:
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
json.dump(meta,open(d+'/meta.json','w'),indent=1); open(d+'/meta.json','a').write('\n')
open(d+'/demo.sh','w').write('''#!/bin/bash
# Runs demo_test.go inside the vxlisp package of the current directory's checkout.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
echo "{\\"Replace\\":{\\"$PWD/src/vxlisp/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" > "$ov"
cd src && timeout 200 go test -vet=off -count=1 -overlay "$ov" -run '^TestDemo' ./vxlisp
''')
