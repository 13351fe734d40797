import json,glob,os,re,sys
sys.path.insert(0,'/verif')
V='/verif'
head=open('/verif/design/head.md').read()
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
secs=open('/verif/design/props.md').read()
tail=open('/verif/design/tail.md').read()
seeds={}
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); seeds.setdefault(m['property'],[]).append((os.path.basename(os.path.dirname(d)),m['needs'],m['what_it_breaks']))
t="## Planted bugs and the checks that catch them\n\nEvery planted bug of /verif/seeded is caught by the check of its property (`selftest/mkseed.py` builds each from the definitions in `selftest/seeds/`, requires that the stable tests pass with it and that its demonstration tells it apart, and runs the check). The last column lists what an execution needs to expose it.\n\n| property | planted bug | needs |\n|---|---|---|\n"
for p in sorted(seeds):
    for i,n,b in seeds[p]: t+="| %s | %s: %s | %s |\n"%(p,i,b.replace('|','/'),n.replace('|','/'))
open(V+'/DESIGN.md','w').write(head+"\n"+secs+"\n"+t+"\n"+tail)
