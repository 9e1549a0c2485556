#!/usr/bin/env python3
"""design.py ENGINE TIER PROP [workers] : run the design checks of an engine and print the sizes"""
import sys,time,tempfile,importlib; sys.path.insert(0,'/verif')
from vf import lib
m=importlib.import_module("vf."+sys.argv[1]); w=tempfile.mkdtemp()
for c in m.design_configs(sys.argv[2],sys.argv[3]):
    t=time.time()
    try: d=lib.design_check(w,getattr(m,"DSYS",m.SYS),c,m.INV,view=m.VIEW,workers=int((sys.argv+['','','','','4'])[4] or 4) if len(sys.argv)>4 else 4,timeout=3600)
    except lib.CheckError as e: d=str(e)[-3000:]
    print(c,d,round(time.time()-t,1),flush=True)
