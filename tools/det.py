import sys,json
sys.path.insert(0,'/verif')
from sim import main as M
name=sys.argv[1]; n=int(sys.argv[2])
c=M.Campaign(name,'quick',1)
try:
    c.open(8)
    import random
    a=c.map([{"seed":1,"index":i} for i in range(n)])
    js=list(range(n)); random.shuffle(js)
    b0=c.map([{"seed":1,"index":i,"want_world":1} for i in js])
    b={js[k]:v for k,v in b0.items()}
    for i in range(n):
        if a[i].get('digest')!=b[i].get('digest'):
            print(i,a[i].get('tail'),'\n   ',b[i].get('tail'))
finally: c.close()
