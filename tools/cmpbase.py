import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def norm(x):
    if isinstance(x,dict):
        for k in ('stable','pass','passed'):
            if k in x: return set(x[k])
    return x
print({k:(type(v).__name__,len(v) if hasattr(v,'__len__') else v) for k,v in b.items()} if isinstance(b,dict) else len(b))
print({k:(type(v).__name__,len(v) if hasattr(v,'__len__') else v) for k,v in o.items()} if isinstance(o,dict) else len(o))
bs=norm(b); os_=norm(o)
print('missing',sorted(set(bs)-set(os_))[:20])
