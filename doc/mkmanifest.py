"""Writes MANIFEST.json from the list of checks."""
import json
T="TLA+ specification checked with TLC; recorded outputs of the real code executed on it"
C=[]
def c(id,technique,note,level="model_checking"):
    C.append(dict(property=id,quick_cmd="bin/check %s"%id,thorough_cmd="bin/check %s --tier thorough"%id,
      evidence_file="evidence/%s.json"%id,technique=technique,level=level,level_note=note))
exec(open('/verif/doc/checks.py').read())
m=dict(version=1,setup_cmd="true",checks=C,not_applicable=NA,notes=NOTES)
if HOOKS: m["hooks"]=HOOKS
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
