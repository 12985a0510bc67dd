#!/usr/bin/env python3
"""newseed.py ID PROP < spec: creates seeded/ID from a spec made of
   @@file PATH, @@old, @@new blocks, @@needs, @@breaks, @@main (demo source)."""
import sys,os,subprocess,json,shutil
sid,prop=sys.argv[1:3]
spec=sys.stdin.read()
parts=[]; cur=None
for line in spec.split('\n'):
    if line.startswith('@@'):
        k,_,a=line[2:].partition(' '); cur=[k,a,[]]; parts.append(cur)
    elif cur: cur[2].append(line)
W='/tmp/seedgen'
shutil.rmtree(W,ignore_errors=True); os.makedirs(W)
subprocess.check_call(['git','-C','/repo','worktree','prune'])
subprocess.check_call(f'git -C /repo archive HEAD src | tar -x -C {W}; cd {W}; git init -q; git add -A; git -c user.email=a -c user.name=a commit -qm x',shell=True)
f=None; old=None; meta={'property':prop}; main=None
for k,a,ls in parts:
    t='\n'.join(ls)
    if k=='file': f=a.strip()
    elif k=='old': old=t.rstrip('\n')
    elif k=='new':
        p=f'{W}/{f}'; s=open(p).read(); n=t.rstrip('\n')
        assert s.count(old)==1,(f,s.count(old),old)
        open(p,'w').write(s.replace(old,n))
    elif k=='needs': meta['needs']=' '.join(t.split())
    elif k=='breaks': meta['what_it_breaks']=' '.join(t.split())
    elif k=='main': main=t
d=f'/verif/seeded/{sid}'; os.makedirs(d,exist_ok=True)
diff=subprocess.check_output(['git','-C',W,'diff']).decode()
open(d+'/patch.diff','w').write(diff)
json.dump(meta,open(d+'/meta.json','w'),indent=1); open(d+'/meta.json','a').write('\n')
if main: open(d+'/main.rs','w').write(main)
for x in ('demo.sh','common.rs'): shutil.copy('/verif/tools/demo/'+x,d)
print(diff)
shutil.rmtree(W)
