"""fills the table of planted bugs into DESIGN.md (between the markers)"""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["## Planted bugs","","Written from the properties and the code; `tools/plant.py` builds and tries them. 'caught by' is the result of the property's quick check.","","| bug | property | breaks | needs | caught by |","|---|---|---|---|---|"]
st=json.load(open(V+"/tools/seeded_status.json")) if os.path.exists(V+"/tools/seeded_status.json") else {}
for d in sorted(os.listdir(V+"/seeded")):
    m=json.load(open(V+"/seeded/%s/meta.json"%d)); f=lambda s:re.sub(r"[|\n]"," ",s)
    rows.append("| %s | %s | %s | %s | %s |"%(d,m["property"],f(m["what_it_breaks"]),f(m["needs"]),st.get(d,m["property"])))
p=V+"/DESIGN.md"; s=open(p).read(); t="<!-- seeded -->\n"+"\n".join(rows)+"\n<!-- /seeded -->"
s=s.replace("@@SEEDED@@",t) if "@@SEEDED@@" in s else re.sub(r"<!-- seeded -->.*<!-- /seeded -->",lambda m:t,s,flags=re.S)
open(p,"w").write(s)
