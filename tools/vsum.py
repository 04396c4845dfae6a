import json,glob,collections,sys
c=collections.Counter()
for f in sorted(glob.glob('/verif/replays/%s*'%sys.argv[1])):
    d=json.load(open(f)); s=d.get("found_by",[["?","?"]])[0]; c[(s[0],"_".join(s[1].split("_")[:4]), json.dumps(d["ev"][d["rejected_at"]-1])[:60])]+=1
for k,v in sorted(c.items()): print(k,v)
n=int(sys.argv[2]) if len(sys.argv)>2 else 2
for f in sorted(glob.glob('/verif/replays/%s*'%sys.argv[1]))[:n]:
  d=json.load(open(f)); print(f, d["found_by"][0]); print(d["scenarios"][0]); [print(("> " if i+1==d["rejected_at"] else "  ")+json.dumps(e)) for i,e in enumerate(d["ev"])]
