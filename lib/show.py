import json,sys
tr=json.load(open('/tmp/s/tr.json'))
t=[t for t in tr if t['id']==sys.argv[1]][0]
n=int(sys.argv[2])
for i,e in enumerate(t['events'][:n]):
    d={k:v for k,v in e.items() if k not in('obs','files')}
    if i<n-1 and len(sys.argv)<4: d={k:v for k,v in d.items() if k in('op','m','exc','hp','istart','icount','corr','f','n','flags','d','c','cls','solver','prec','norm','batch','async_','excmsg','name')}
    print(i+1,d)
print(json.dumps(t['events'][n-1]['obs'])[:3000]); print(json.dumps(t['events'][n-1]['files'])[:1500])
