import sys,re
sys.argv=[sys.argv[0],'c35','NONE']+sys.argv[1:]
exec(open('/tmp/w/runreal.py').read().replace("for c in m.clients(None):","for c in []:"))
src=open(sys.argv[3]).read(); only=sys.argv[4:]
parts=re.split(r"^=== (\S+)\n",src,flags=re.M)[1:]
for i in range(0,len(parts),2):
    if only and parts[i] not in only: continue
    bad.clear(); first.clear(); memo.clear()
    try: exec(compile(parts[i+1],parts[i],'exec'),{"__name__":"x"})
    except Exception as e:
        tb=traceback.extract_tb(sys.exc_info()[2]); print(parts[i],"RAISES",repr(e)[:200],tb[-1].lineno)
    for t,k in bad.items(): print(parts[i],"BAD",t,str(first[t])[:300])
