import sys, json, os, subprocess
sys.path.insert(0,'/verif')
from vt import build, core
lib=build.build()
os.environ['VT_LIB']=lib
import importlib
r=json.load(open(sys.argv[1]))
m=importlib.import_module('checks.'+r['property'])
L=core.lib()
if len(sys.argv)>2: L.RKSetWantScreenOutput(1)
s=[s for s in m.SUBS if s.name==r['sub']][0]
os.chdir('/tmp')
print(s.run(L,r['case'],core.Ctx()))
