import sys, numpy as np, random, re, copy
exec(open("npgen.py").read().split("out=open")[0].replace('exprs=[l.rstrip("\\n") for l in open(sys.argv[1]) if l.strip()]','exprs=[]'))
blocks=[b.strip("\n") for b in re.split(r"^---\n",open(sys.argv[1]).read(),flags=re.M) if b.strip()]
out=open(sys.argv[2],"w")
import warnings; warnings.simplefilter("ignore")
for i,b in enumerate(blocks):
    ns=dict({k:v.copy() for k,v in env.items()},np=np,operator=operator,functools=functools,math=math)
    try: exec(b,ns)
    except Exception as ex:
        print("REAL FAIL",b,repr(ex)); continue
    v=ns["r"]
    name=re.sub(r"\W+","_",b)[:40]+"_%d"%i
    wantarr=isinstance(v,np.ndarray)
    conv="def conv(x):\n    if isinstance(x,np.ndarray): return x.tolist()\n    if isinstance(x,(list)): return [conv(y) for y in x]\n    if isinstance(x,tuple): return tuple([conv(y) for y in x])\n    return x\n"
    out.write("=== %s\n%s%s%s\n__same__(\"v\",conv(r),%s)\n"%(name,head,conv,b,lit(ns["conv"](v)) if False else lit(v)))
    if wantarr: out.write('__same__("dtype",str(r.dtype),%r)\n__same__("shape",r.shape,%r)\n'%(str(v.dtype),v.shape))
