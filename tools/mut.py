#!/usr/bin/env python3
# mut.py ID[,ID..] file <<< "old\n===\nnew" : apply replacement in /tmp/mrepo, run checks, revert
import sys,subprocess
ids=sys.argv[1].split(','); f='/tmp/mrepo/'+sys.argv[2]
data=sys.stdin.read()
subprocess.run("cd /tmp/mrepo && cp -a /repo/internal /repo/main.go /repo/runtime /tmp/mrepo/",shell=True)
for block in data.split('\n#####\n'):
    old,new=block.split('\n===\n') if '\n===\n' in block else (block.rstrip('\n').removesuffix('==='),'')
    old=old.strip('\n'); new=new.strip('\n')
    s=open(f).read()
    if s.count(old)<1: print("NOT FOUND:",old); continue
    open(f,'w').write(s.replace(old,new,1))
    b=subprocess.run("cd /tmp/mrepo && . /opt/vp/env.sh && go build ./"+'/'.join(sys.argv[2].split('/')[:-1]),shell=True,capture_output=True,text=True)
    if b.returncode: print("BUILD FAIL",b.stderr[:300])
    else:
        for i in ids:
            r=subprocess.run(["/tmp/ov","-repo","/tmp/mrepo","-verif","/tmp/vv",i],capture_output=True,text=True)
            print(("caught " if r.returncode==1 else "MISSED ")+i, repr(new[:110]), (r.stdout+r.stderr).strip().split('\n')[-2:][0][:200])
    open(f,'w').write(s)
