"""mk(id, property, file, old, new, needs, breaks, demo) -> /verif/seeded/id"""
import os, subprocess, json
PRE = '''import os, sys, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.getcwd())
import casadi as ca, numpy as np
from casadi import DM, SX, vertcat
from yaocptool import config
config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.linear_solver"] = "mumps"
config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.sb"] = "yes"
'''
def mk(id, prop, edits, needs, breaks, demo):
    d='/verif/seeded/'+id; os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p='/repo/'+f; s=open(p).read(); assert s.count(old)==1, (id, f, s.count(old)); open(p,'w').write(s.replace(old,new))
    diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'],check=True)
    assert diff
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.py','w').write(PRE+demo)
    open(d+'/demo.sh','w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\n/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks}, open(d+'/meta.json','w'), indent=1)
