import json,subprocess
M={'67986d8':'C06','c882dee':'C06','7a2f23b':'C06','45172c9':'C08','4ab8fe3':'C08','50829d7':'C08','5b74ef2':'C09','bba2786':'C09','7bf7d84':'C09','6e3f5cf':'C10','fd8a0bc':'C09','c1c2d98':'C09','3e626c7':'C10','ad56e2b':'C11','d2c909f':'C11','4c9ccbb':'C11','c4da8d9':'C11','92a0a62':'C10','f70cc23':'C10','87f1f8a':'C10','0a8ef16':'C10'}
import sys
for a in sys.argv[1:]:
    h,p=a.split('='); M[h]=p
K='/verif/known_findings.jsonl'
t=open(K).read()
rows=[json.loads(l) for l in t.splitlines() if l.strip()]
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','4051412..HEAD'],capture_output=True,text=True).stdout.splitlines()
for l in log:
    h,s=l.split(' ',1)
    if any(h in r['what'] for r in rows) or s.startswith('fix: restore the table length'): continue
    if h not in M: print('no property for',l); continue
    p=M[h]; n=sum(r['property']==p and r['status']=='fixed' for r in rows)+1
    rows.append(dict(id='%s-F%d'%(p,n),property=p,status='fixed',what='fixed: property=%s %s %s'%(p,h,s[5:])))
open(K,'w').write(''.join(json.dumps(r)+'\n' for r in rows))
