import sys
# usage: addprop.py BEFORE FILE : insert FILE's text before prop("BEFORE" or at end if "END"
before, f = sys.argv[1:3]
s=open('/verif/tools/list.py').read(); t=open(f).read().strip()+"\n\n"
if before=="END": s=s.rstrip()+"\n\n"+t
else:
    assert s.count(f'prop("{before}",')==1
    s=s.replace(f'prop("{before}",',t+f'prop("{before}",')
open('/verif/tools/list.py','w').write(s)
