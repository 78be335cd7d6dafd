import sys,re,subprocess,json
sys.path.insert(0,'/verif')
import multiprocessing as mp
src=open(sys.argv[1]).read(); only=sys.argv[2:]
parts=re.split(r"^=== (\S+)\n",src,flags=re.M)[1:]
snips=[(parts[i],parts[i+1]) for i in range(0,len(parts),2) if not only or parts[i] in only]
import gspsa.run as R
from gspsa.client import run_client, decide
it=R.Context("quick",1).interp()
def one(s):
    name,body=s
    import signal
    signal.alarm(120)
    try:
        res=run_client(it,name,body)
        out=[]
        if res.unsupported: out.append("UNSUPPORTED %s"%res.unsupported)
        for n,o in enumerate(res.obls):
            decide(o,res.ranges,n,8)
            if o.verdict not in("ok","vacuous"): out.append("%s %s %s %s"%(o.kind,o.label,o.verdict,str(o.detail)[:250]))
        return name,out,len(res.obls)
    except Exception as e: 
        import traceback
        return name,["CRASH %r %s"%(e,traceback.format_exc()[-300:])],0
with mp.get_context("fork").Pool(8,maxtasksperchild=1) as p:
    for name,out,n in p.imap(one,snips,1):
        if out:
            print(name,n)
            for o in out: print("   ",o[:400])
