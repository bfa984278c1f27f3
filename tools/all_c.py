import sys,time,os
sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
repo=sys.argv[1]; os.environ['VERIF_REPO']=repo
from sa import runner
from sa.c.suite import CLib
lib=CLib(repo); t=time.time(); lib.prepare()
jobs=[j for j in lib.jobs() if len(sys.argv)<3 or sys.argv[2] in j[1]]
if os.environ.get('SKIP'):
    import re; jobs=[j for j in jobs if not re.search(os.environ['SKIP'],j[1])]
res=runner.run_jobs(jobs)
bad={}
n=0
for r in res:
    if r['error']: print('ERR',r['name'],r['error'][:200]); 
    if r['error'] and os.environ.get('TR'): print(r.get('trace'))
    for f in r['findings']:
        n+=1
        if not f[5]: bad.setdefault((f[0],f[1],f[3]),[]).append((r['name'],f[4],f[6]))
for k,v in list(bad.items())[:int(os.environ.get('N','12'))]: print('BAD',k,len(v),v[0][0],'line',v[0][1],v[0][2][:220])
print('units',len(res),'findings',n,'bad groups',len(bad),'max',max((r['seconds'],r['name']) for r in res),'t',round(time.time()-t,1))
