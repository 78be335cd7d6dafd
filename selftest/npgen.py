import sys, numpy as np, random, re
import operator,functools,math,statistics
exprs=[l.rstrip("\n") for l in open(sys.argv[1]) if l.strip()]
rnd=random.Random(5)
def mk(shape):
    a=np.round(np.array([rnd.uniform(.3,2.8) for _ in range(int(np.prod(shape)))]),3).reshape(shape); return a
env={n:mk(s) for n,s in dict(A=(3,4),V=(4,),W=(3,),M=(4,4),T3=(2,3,2)).items()}
def src(name,a):
    if a.ndim==0: return '__sym__("%s","float",[%r])'%(name,float(a))
    return "["+",".join(src(name+"_%d"%i,x) for i,x in enumerate(a))+"]"
head="import numpy as np\nimport operator,functools,math,statistics\n"+"".join("%s=np.array(%s)\n"%(n,src(n,a)) for n,a in env.items())
def lit(x):
    if isinstance(x,np.ndarray): return lit(x.tolist())
    if isinstance(x,np.generic): return lit(x.item())
    if isinstance(x,(list,tuple)): 
        b="[%s]" if isinstance(x,list) else "(%s)"
        return b%"".join(lit(y)+"," for y in x)
    if isinstance(x,dict): return "{%s}"%",".join("%r:%s"%(k,lit(v)) for k,v in x.items())
    if isinstance(x,float):
        if x!=x: return "float('nan')"
        if x in(float('inf'),-float('inf')): return "float('%r')"%x
    return repr(x)
out=open(sys.argv[2],"w")
import warnings; warnings.simplefilter("ignore")
for i,e in enumerate(exprs):
    try:
        ns=dict(env,np=np,operator=operator,functools=functools,math=math,statistics=statistics)
        v=eval(e,ns)
    except Exception as ex:
        print("REAL FAIL",e,ex); continue
    name=re.sub(r"\W","_",e)[:40]+"_%d"%i
    wantarr=isinstance(v,np.ndarray)
    out.write("=== %s\n%sdef conv(x):\n    if isinstance(x,np.ndarray): return x.tolist()\n    if isinstance(x,(list)): return [conv(y) for y in x]\n    if isinstance(x,tuple): return tuple([conv(y) for y in x])\n    return x\n_r=%s\n__same__(\"v\",conv(_r),%s)\n"%(name,head,e,lit(v)))
    if wantarr: out.write('__same__("dtype",str(_r.dtype),%r)\n__same__("shape",_r.shape,%r)\n'%(str(v.dtype),v.shape))
