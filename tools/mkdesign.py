import json,glob,os
rows=[]
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json'))
    rows.append('| %s | %s | %s | %s |'%(os.path.basename(d),m['property'],m['what_it_breaks'].replace('|','/'),m['needs'].replace('|','/')))
open('/verif/DESIGN.md','w').write(open('/verif/tools/DESIGN.tmpl').read().replace('@@TABLE@@','\n'.join(rows)))
