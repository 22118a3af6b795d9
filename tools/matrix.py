"""which checks catch which seed: runs every check over a copy of /repo with the seed applied"""
import os, sys, json, subprocess, shutil, concurrent.futures as cf
sys.path.insert(0,'/verif')
from dgcheck.rules import RULES
seeds=sorted(os.listdir('/verif/seeded'))
def prep(s):
    d=f'/tmp/w/mx/{s}'; shutil.rmtree(d,ignore_errors=True); os.makedirs('/tmp/w/mx',exist_ok=True)
    subprocess.run(['cp','-a','/repo',d],check=True)
    subprocess.run(['git','-C',d,'apply',f'/verif/seeded/{s}/patch.diff'],check=True)
    return d
def one(a):
    s,p=a
    e=dict(os.environ,DGCHECK_REPO=f'/tmp/w/mx/{s}',DGCHECK_EVIDENCE=f'/tmp/w/mxev/{s}')
    r=subprocess.run(['python3','-m','dgcheck',p],cwd='/verif',env=e,capture_output=True,text=True,timeout=900)
    return s,p,r.returncode
res={}
for i in range(0,len(seeds),16):
    b=seeds[i:i+16]
    for s in b: prep(s)
    with cf.ThreadPoolExecutor(8) as ex:
        for s,p,rc in ex.map(one,[(s,p) for s in b for p in sorted(RULES)]):
            if rc==1: res.setdefault(s,[]).append(p)
            elif rc!=0: res.setdefault(s,[]).append(f'{p}!{rc}')
    for s in b: shutil.rmtree(f'/tmp/w/mx/{s}')
    json.dump(res,open('/tmp/w/matrix.json','w'),indent=1)
    print(i,flush=True)
