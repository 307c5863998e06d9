#!/usr/bin/env python3
"""Lists the calls of library functions that the interpretation never reaches: changes to these could not be seen."""
import os,sys,subprocess,time,signal
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0]=[V+"/engine",V]; sys.setrecursionlimit(20000)
from facts import Facts
import equiv, summary, gvf
from multiprocessing import Pool
def facts(**e):
    return subprocess.run([sys.executable,V+"/engine/build.py"],env=dict(os.environ,**e),stdout=subprocess.PIPE,text=True,check=True).stdout.strip()
R=Facts(facts())
inl={k for k,f in R.fns.items() if not f.get("derived") and not f.get("async") and equiv.nblocks(f)<=equiv.SMALL and not equiv.gvf_loops(f)}
base=set(R.fns)
class TO(Exception): pass
def al(*a): raise TO()
def go(k):
    f=R.fns[k]
    signal.signal(signal.SIGALRM,al); signal.alarm(120)
    try:
        s=summary.Summary(R,k,base,inl=inl)
    except BaseException as e: return k,repr(e)[:80],[]
    finally: signal.alarm(0)
    g=R.fns.get(k+"::{closure#0}",f) if f.get("async") else f

    cfg=gvf.cfg_of(g)
    out=[]
    for b in cfg.rpo:
        if (g["key"],b) not in s.A.reached and not g["blocks"][b].get("cl"):
            t=g["blocks"][b]["t"]
            if t[0]=="call": out.append((b,t[-2] if isinstance(t[-2],int) else t[5], (t[1].get("fn") or t[1].get("d") or str(t[1]))[:80] if isinstance(t[1],dict) else str(t[1])[:80]))
    return k,None,out
ks=[k for k in R.fns if "{closure" not in k and not R.fns[k].get("derived")]
with Pool(6) as p:
    n=0
    for k,e,o in p.imap_unordered(go,ks,4):
        if e: print("ERR",k,e)
        if o:
            n+=1; print(k, len(o)); 
            for x in o[:4]: print("     ",x)
print(len(ks),n)
