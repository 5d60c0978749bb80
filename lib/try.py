import sys, json, time
from harness import *
import gen_life
ALL = dict(new=1, addn=3, addn_default=.5, add=4, train=3, reset=1, solve=2, predict=3, project=2, error=2, confusion=1.5, save=1, load=1, setB=.5, setcorr=.5, setbatch=.5, malformed=2, addcorr=2, solvecorr=1)
prof=dict(ops=ALL)
n=int(sys.argv[1]); ln=int(sys.argv[2]); seed=sys.argv[3] if len(sys.argv)>3 else "1"
scs=[gen_life.history(seed,ln,prof,"h%d"%i) for i in range(n)]
with Scratch() as s:
    t=time.time(); tr=run_driver(scs,s); print("driver",time.time()-t)
    for x in tr:
        if 'driver_error' in x: print(x['id'],x['driver_error'][-600:])
    json.dump(tr,open('/tmp/s/tr.json','w'))
    t=time.time()
    bad,st,tn=validate('ElmTrace',tr,s)
    print("tlc",time.time()-t,st,tn)
    from collections import Counter
    c=Counter()
    ex={}
    for b in bad:
        k=(b[2],tuple(sorted(b[3]))); c[k]+=1; ex.setdefault(k,b)
    for k,v in c.most_common(): 
        b=ex[k]; e=[t for t in tr if t['id']==b[0]][0]['events'][b[1]-1]
        print(v,k,b[0],b[1],e.get('excmsg'))
