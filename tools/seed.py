#!/usr/bin/env python3
"""seed.py NEWID PROPERTY file [file2 ...]  < edits   : make and validate a planted bug.
edits: blocks 'FILE path' line, old, '===', new; separated by '#####'. Works on /tmp/sd (a copy of /repo).
seed.py --check ID ... : validate existing ones."""
import json,subprocess,sys,os
SD='/tmp/sd'; ENV='. /opt/vp/env.sh; '
def sh(c,cwd=SD,**k): return subprocess.run(['bash','-c',ENV+c],cwd=cwd,capture_output=True,text=True,**k)
def reset(): sh('git checkout -q -- internal main.go runtime && git clean -fdq internal runtime')
def validate(id):
    d=f'/verif/seeded/{id}'; meta=json.load(open(d+'/meta.json')); ok=True
    reset(); sh('rm -rf /tmp/sdemo && mkdir /tmp/sdemo && cp -a '+d+'/. /tmp/sdemo && rm -f /tmp/sdemo/patch.diff /tmp/sdemo/meta.json')
    r=sh('timeout 280 bash /tmp/sdemo/demo.sh')
    if r.returncode: print(id,'DEMO FAILS ON CLEAN',r.stdout[-800:],r.stderr[-800:]); ok=False
    r=sh(f'git apply {d}/patch.diff')
    if r.returncode: print(id,'PATCH FAILS',r.stderr); return False
    r=sh('go build ./... && (cd samples && go build -o /dev/null ./...)')
    if r.returncode: print(id,'BUILD FAILS',r.stderr[-800:]); ok=False
    r=sh('timeout 280 bash /tmp/sdemo/demo.sh')
    if r.returncode==0: print(id,'DEMO PASSES ON PATCHED'); ok=False
    base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    r=sh('rm -rf /tmp/sdl; mkdir /tmp/sdl; go test -json -vet=off -timeout 10m ./... >/tmp/sdl/r.json 2>/dev/null; (cd samples; go test -json -vet=off ./... >/tmp/sdl/s.json 2>/dev/null); python3 /opt/vp/results.py /tmp/sdl/o.json gojson:/tmp/sdl/r.json gojson:/tmp/sdl/s.json')
    o=json.load(open('/tmp/sdl/o.json'))
    missing=base-set(o['passed'])
    if missing: print(id,'TESTS FAIL',sorted(missing)[:5],len(missing)); ok=False
    r=subprocess.run(['/tmp/ovw','-repo',SD,'-verif','/tmp/vv','all'],capture_output=True,text=True)
    v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    hit=[l.split()[1].split('=')[1] for l in v]
    print(id,'valid' if ok else 'INVALID','property',meta['property'],'caught by',hit,'' if meta['property'] in hit else '*** MISSED BY OWN')
    reset(); return ok
if sys.argv[1]=='--check':
    for i in sys.argv[2:]: validate(i)
else:
    id,prop=sys.argv[1:3]; reset()
    for block in sys.stdin.read().split('\n#####\n'):
        head,rest=block.lstrip('\n').split('\n',1); f=SD+'/'+head.removeprefix('FILE ').strip()
        old,new=rest.split('\n===\n') if '\n===\n' in rest else (rest.rstrip('\n').removesuffix('==='),'')
        old=old.strip('\n'); new=new.strip('\n'); s=open(f).read()
        if s.count(old)!=1: print('COUNT',s.count(old),old); sys.exit(1)
        open(f,'w').write(s.replace(old,new))
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(sh('git diff -- internal main.go runtime').stdout)
    validate(id)
