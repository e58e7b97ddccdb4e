import json,sys,re,subprocess
sys.path.insert(0,'/verif')
from checks import CHECKS
props={json.loads(l)["id"]:json.loads(l) for l in open('/verif/properties.jsonl')}
out=open('/verif/tools/design_head.md').read()
out+="\n## Properties, one by one\n\n"
detail=json.load(open('/verif/tools/design_props.json'))
for p in sorted(props):
    c=CHECKS[p]
    out+="### %s — %s\n\n"%(p,props[p]["title"])
    out+=detail[p].strip()+"\n\n"
    out+="Quick cases: "+", ".join("%s %s"%(s["name"],format(s["quick"],",")) for s in c["subs"])+"; thorough: "+", ".join(format(s["thorough"],",") for s in c["subs"])+".\n\n"
out+=open('/verif/tools/design_tail.md').read()
import glob,os
out=out.replace('@@FIXED@@',str(sum(l.startswith('fixed:') for l in open('/verif/KNOWN_FINDINGS'))))
rows=[]
for m in sorted(glob.glob('/verif/seeded/*/meta.json')+glob.glob('/verif/grammar_bugs/*/meta.json')):
    d=json.load(open(m)); rows.append("| %s | %s | %s | %s |"%(os.path.basename(os.path.dirname(m)),d["property"],d["what_it_breaks"].replace("|","/").replace("\n"," "),d["needs"].replace("|","/").replace("\n"," ")))
out=out.replace("@@SEEDED@@","| change | caught by | breaks | needs |\n|---|---|---|---|\n"+"\n".join(rows))
open('/verif/DESIGN.md','w').write(out)
