"""runbugs.py [ids...]: apply each seeded change to /repo, run the check of its property (and ALL=1: all checks), undo."""
import sys,os,json,subprocess
ids=sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
mods=json.load(open('/verif/modules.json'))
for i in ids:
    d='/verif/seeded/'+i
    m=json.load(open(d+'/meta.json'))
    assert subprocess.run('git -C /repo diff --quiet',shell=True).returncode==0
    r=subprocess.run(['git','-C','/repo','apply',d+'/patch.diff'])
    if r.returncode: print(i,'does not apply'); continue
    try:
        ps=sorted(mods) if os.environ.get('ALL') else [m['property']]
        res=[]
        for p in ps:
            if p not in mods: res.append(p+':n/a'); continue
            r=subprocess.run(['python3','/verif/check.py',p],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            res.append('%s:%d'%(p,r.returncode))
            if os.environ.get('V'): print(r.stdout[-1500:])
        print(i,' '.join(res),flush=True)
    finally:
        subprocess.run('git -C /repo checkout -q -- .',shell=True)
