#!/usr/bin/env python3
"""make.py BUGS.py [ID...]: make and validate /verif/seeded/<id> from a list of planted bugs.

BUGS.py defines BUGS = [dict(id, property, needs, breaks, file, old, new (or edits=[(file,old,new)]), demo)].
For each: apply to /repo, build, run tests (all stable ones must pass), demo on clean must exit 0 and
nonzero with the patch.  Reverts /repo afterwards.
"""
import sys, json, subprocess, os, runpy, shutil
R='/repo'; C=R+'/leptos-mview-core/src/'
def sh(c,**k): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
bugs=runpy.run_path(sys.argv[1])['BUGS']
want=set(sys.argv[2:])
stable=set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
assert not sh('git -C /repo status --porcelain').stdout.strip()
for b in bugs:
    if want and b['id'] not in want: continue
    d='/verif/seeded/'+b['id']
    if not want and os.path.exists(d+'/meta.json'): continue
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    ok=True
    try:
        edits=b.get('edits') or [(b['file'],b['old'],b['new'])]
        open(d+'/lib.sh','w').write(open('/verif/tools/seed/lib.sh').read())
        open(d+'/demo.sh','w').write('#!/bin/bash\n. "$(dirname "$0")/lib.sh"\n'+b['demo'].strip()+'\nexit 0\n')
        os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        r=sh(f'bash {d}/demo.sh',cwd=R)
        if r.returncode!=0: print(b['id'],'DEMO FAILS ON CLEAN',r.stdout[:700]); ok=False; continue
        for f,o,n in edits:
            s=open(C+f).read()
            if s.count(o)!=1: print(b['id'],'BAD EDIT',f,s.count(o)); ok=False; break
            open(C+f,'w').write(s.replace(o,n))
        if not ok: continue
        open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
        r=sh('bash /opt/vp/build.sh')
        if r.returncode!=0: print(b['id'],'BUILD FAILS',r.stdout[:700]); ok=False; continue
        r=sh('bash /opt/vp/test.sh /tmp/t.json')
        t=json.load(open('/tmp/t.json'))
        ps=t.get('passed') or [k for k,v in t.get('tests',{}).items() if v in('pass','passed',True)]
        fs=[x for x in (t.get('failed') or [])]
        if len(ps)<70 or fs: print(b['id'],'TESTS',len(ps),fs); ok=False; continue
        r=sh(f'bash {d}/demo.sh',cwd=R)
        if r.returncode==0: print(b['id'],'DEMO PASSES WITH BUG'); ok=False; continue
        print(b['id'],'OK:',r.stdout.splitlines()[0] if r.stdout else '',flush=True)
    finally:
        sh('git -C /repo checkout -- .')
        if not ok: shutil.rmtree(d,ignore_errors=True)
