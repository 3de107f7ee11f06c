import json,collections,sys
c=collections.Counter()
for l in open(sys.argv[1]):
    d=json.loads(l); c[d['res']]+=1
    if d['res'] not in('caught','nobuild','tests'): print(d['res'],d['by'],d['file'],d['line'],d['func'],'|',d['old'][:60].replace('\n','\\n'),'=>',d['new'][:70].replace('\n','\\n'))
print(c)
