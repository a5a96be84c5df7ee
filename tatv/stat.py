import json,sys
d=json.load(open(sys.argv[1]))
print(len(d['types']),len(d['funcs']),len(d['globals']))
import collections
def walk(x,c):
    if isinstance(x,list):
        if x and isinstance(x[0],str) and x[0]=='unsupported': c[tuple(map(str,x[:3]))]+=1
        for y in x: walk(y,c)
    elif isinstance(x,dict):
        for y in x.values(): walk(y,c)
c=collections.Counter()
for f in d['funcs'].values(): walk(f['code'],c)
print(c.most_common(20))
qs=collections.Counter()
def calls(x):
    if isinstance(x,list):
        if x and x[0] in('call','ctor') and isinstance(x[2],dict) and not x[2].get('body'): qs[x[2]['q']]+=1
        for y in x: calls(y)
    elif isinstance(x,dict):
        for y in x.values(): calls(y)
for f in d['funcs'].values(): calls(f['code'])
for k,v in qs.most_common(250): print(v,k)
