import json,os,glob
HEAD = open('/verif/tools/design_head.md').read()
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/'))+sorted(glob.glob('/verif/seeded-tpl/*/')):
    m=json.load(open(d+'meta.json')); n=os.path.basename(d[:-1])
    rows.append("| %s%s | %s |" % (n, " (tpl)" if 'seeded-tpl' in d else "", m['needs'].replace('\n',' ').replace('|','/')))
open('/verif/DESIGN.md','w').write(HEAD.replace('@@SEEDED@@',"| change | needs in order to manifest |\n|---|---|\n"+"\n".join(rows)))
