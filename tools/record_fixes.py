#!/usr/bin/env python3
"""record_fixes.py <PROP>: add /repo's fix commits that known_findings.json does not list yet, under PROP"""
import json,subprocess,sys
f='/verif/known_findings.json'; k=json.load(open(f)); have=" ".join(k['fixed'])
for l in reversed(subprocess.check_output("git -C /repo log --format='%h %s'",shell=True,text=True).splitlines()):
    h,m=l.split(' ',1)
    if m.startswith('fix: ') and h[:7] not in have: k['fixed'].append(f"fixed: property={sys.argv[1]} {h} {m[5:]}"); print(k['fixed'][-1])
open(f,'w').write(json.dumps(k,indent=1)+"\n")
