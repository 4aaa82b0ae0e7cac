#!/usr/bin/env python3
"""mkbug.py ID PROPERTY: reads JSON {edits:[[file,old,new],...], needs, what, demo} on stdin and writes seeded/ID."""
import sys,json,os,subprocess,shutil
id,prop=sys.argv[1:3]; d=json.load(sys.stdin); out=f'/verif/seeded/{id}'; os.makedirs(out,exist_ok=True)
w=f'/tmp/mk-{id}'; shutil.rmtree(w,ignore_errors=True)
subprocess.check_call(['git','-C','/repo','worktree','add','-q','--detach',w])
try:
    for f,a,b in d['edits']:
        p=f'{w}/packages/{f}'; s=open(p).read(); assert s.count(a)==1,(f,a,s.count(a)); open(p,'w').write(s.replace(a,b))
    diff=subprocess.check_output(['git','-C',w,'diff']).decode(); open(out+'/patch.diff','w').write(diff)
finally: subprocess.check_call(['git','-C','/repo','worktree','remove','--force',w])
open(out+'/demo.mjs','w').write(d['demo']); shutil.copy('/verif/tools/demolib.mjs',out+'/lib.mjs')
open(out+'/demo.sh','w').write('#!/bin/bash\nexec node "$(dirname "$(readlink -f "$0")")/demo.mjs"\n'); os.chmod(out+'/demo.sh',0o755)
json.dump({'property':prop,'needs':d['needs'],'what_it_breaks':d['what']},open(out+'/meta.json','w'),indent=1)
