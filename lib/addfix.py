import json,sys
# fix.py PID commit text_json text_md
pid,commit,a,b=sys.argv[1:5]
p='/verif/known_findings.json'; d=json.load(open(p))
d["fixed"].append(f"fixed: property={pid} {commit} {a}")
json.dump(d,open(p,'w'),indent=1); open(p,'a').write("\n")
p='/verif/lib/design_tail.md'; s=open(p).read().split('\n')
i=max(k for k,l in enumerate(s) if l.startswith('| P'))
s.insert(i+1,f"| {pid} | {commit} | {b} |")
open(p,'w').write('\n'.join(s))
