# Prints the table of planted bugs for DESIGN.md.
import json,glob,os
print('| planted bug | needs | breaks | caught by |\n|---|---|---|---|')
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); n=os.path.basename(d[:-1])
    print('| %s | %s | %s | %s |'%(n,m['needs'],m['what_it_breaks'],m.get('caught_by',m['property'])))
