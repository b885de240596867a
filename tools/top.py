import json,sys
d=json.load(open(sys.argv[1])); n=int(sys.argv[2]) if len(sys.argv)>2 else 1
print({k:d[k] for k in ('runs','wanted','violations','foreign','trouble','distinct','distinct_nontrivial','acc','wall','slowest','cov')}); print(d['counts'])
seen={}
for v in d['found']:
    h,cls,msg=v.split('\t',2)
    key=(cls,msg.split(' ')[0])
    seen[key]=seen.get(key,0)+1
    if seen[key]<=n: print(h,cls,msg[:int(sys.argv[3]) if len(sys.argv)>3 else 420])
