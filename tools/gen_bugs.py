"""fills the planted-bug table of DESIGN.md from seeded/*/meta.json"""
import json,glob,os,re
rows=["<!-- bugs -->","| bug | property | needs | caught by |","|---|---|---|---|"]
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(m)); rows.append("| %s | %s | %s | quick check of %s |"%(os.path.basename(os.path.dirname(m)),d['property'],d['needs'],d['property']))
rows.append("<!-- end of bugs -->")
s=open('/verif/DESIGN.md').read()
if '<!-- end of bugs -->' in s: s=re.sub(r'<!-- bugs -->.*?<!-- end of bugs -->',lambda m:"\n".join(rows),s,flags=re.S)
else: s=s.replace('<!-- bugs -->',"\n".join(rows))
open('/verif/DESIGN.md','w').write(s)
