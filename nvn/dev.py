"""dev helper: python3 nvn/dev.py module.function [tier] [only] [n]"""
import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(100000)
from nvn.core import *
import importlib, time
from collections import Counter
mod,fn=sys.argv[1].split('.')
m=importlib.import_module('nvn.props.'+mod)
t=time.time(); gs=getattr(m,fn)('quick' if len(sys.argv)<3 else sys.argv[2])
only=sys.argv[3] if len(sys.argv)>3 else None
rs,er=run_groups(gs,only=only)
print(len(rs), Counter(r.status for r in rs), er, round(time.time()-t,1))
bad=[r for r in rs if r.status!='holds']
for r in bad[:int(sys.argv[4]) if len(sys.argv)>4 else 15]:
    print(r.id, r.status, r.detail[:220].replace('\n',' | '), '##', r.what[:100])
    if only:
        for k in ('code_nf','required_nf','code'): print('  ',k, r.extra.get(k))
