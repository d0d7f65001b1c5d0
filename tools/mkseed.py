#!/usr/bin/env python3
"""mkseed.py ID PROP FILE <<< JSON: {"edits":[[file,old,new],...],"needs":..,"breaks":..,"main":..}"""
import sys,json,subprocess,os,shutil
def mk(id,prop,edits,needs,breaks,main):
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    wt='/tmp/wt'
    subprocess.run(['git','-C',wt,'fetch','-q','/repo','HEAD'],check=True)
    subprocess.run(['git','-C',wt,'reset','-q','--hard','FETCH_HEAD'],check=True)
    for f,old,new in edits:
        p=f'{wt}/{f}'; s=open(p).read()
        n=1
        if isinstance(old,tuple): old,n=old   # n-th occurrence
        elif s.count(old)!=1: raise SystemExit(f'{id}: {s.count(old)} occurrences in {f}: {old[:60]!r}')
        i=-1
        for _ in range(n):
            i=s.index(old,i+1)
        s=s[:i]+new+s[i+len(old):]
        open(p,'w').write(s)
    diff=subprocess.run(['git','-C',wt,'diff'],capture_output=True,text=True,check=True).stdout
    assert diff
    open(d+'/patch.diff','w').write(diff)
    subprocess.run(['git','-C',wt,'reset','-q','--hard'],check=True)
    shutil.copy('/verif/tools/demo.sh.tmpl',d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
    open(d+'/main.rs','w').write(main)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
