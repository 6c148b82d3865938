import sys; sys.path.insert(0,'/repo'); sys.path.insert(0,'/verif')
import json; r=json.load(open(sys.argv[1]))
from symx.api import ConX
import importlib, xlrd
H=importlib.import_module('harness.'+r['harness'])
class XX:
    def __getattr__(s,n): return importlib.import_module('xlrd.'+n) if n!='xlrd' else xlrd
X=XX()
sx=ConX(r['inputs'])
from symx.api import same
def cs(a,b,l):
    if not same(a,b): print('DIFF',l,repr(a),repr(b))
sx.check_same=cs
import traceback
oa=sx.attempt
def att(f,*a,**k):
    r=oa(f,*a,**k)
    if r[0]=='exc': traceback.print_exception(r[1])
    return r
sx.attempt=att
def ck(c,l):
    if not c: print('FAIL',l)
sx.check=ck
H.harness(sx,X,r['case'])
