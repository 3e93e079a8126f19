import sys; sys.path.insert(0,'/verif')
sys.setrecursionlimit(20000)
import warnings; warnings.simplefilter('ignore')
import os,tempfile,threading
import types
ns=types.ModuleType('composipy')
spec={}
exec(open(sys.argv[1]).read(),spec)
src=spec['src']
import collections, dataclasses
sys.modules['composipy']=ns
exec(src,ns.__dict__)
d=tempfile.mkdtemp(); os.makedirs(d+'/composipy'); open(d+'/composipy/__init__.py','w').write(src)
from sa.interp import Interp, Limit
from sa import forms as F, values as V
import numpy as np
def conc(it,v):
    v=V.narrow(v)
    if isinstance(v,V.Form):
        c=v.const(); return float(c) if c is not None else str(v)
    if isinstance(v,V.Cond):
        return str(v)
    if isinstance(v,V.Ref):
        c=it.cell(v)
        if isinstance(c,V.ListC): return [conc(it,x) for x in c.items]
        if isinstance(c,V.DictC): return {k if not isinstance(k,V.Form) else float(k.const()): conc(it,x) for k,x in c.d.items()}
        a=it.models.get_arr(it,v)
        if a is not None: return np.vectorize(lambda x: conc(it,x),otypes=[object])(a).tolist()
        if isinstance(c,V.SetC): return sorted(conc(it,x) for x in c.items) if hasattr(c,'items') else repr(c)
        its=it.iterate(v); return [conc(it,x) for x in its]
    if isinstance(v,(tuple,list)): return [conc(it,x) for x in v]
    if isinstance(v,(V.Unk,)): return 'UNK '+v.reason
    if isinstance(v,V.SliceV): return 'slice'
    return v
def norm(v):
    if isinstance(v,np.ndarray): return norm(v.tolist())
    if isinstance(v,(list,tuple)): return [norm(x) for x in v]
    if isinstance(v,(set,frozenset)): return sorted(norm(x) for x in v)
    if isinstance(v,dict): return {(float(k) if isinstance(k,(int,float)) and not isinstance(k,bool) else k):norm(x) for k,x in v.items()}
    if isinstance(v,(bool,str)) or v is None: return v
    if isinstance(v,np.bool_): return bool(v)
    if isinstance(v,slice): return 'slice'
    return float(v)
def same(a,b):
    if isinstance(a,list) and isinstance(b,list): return len(a)==len(b) and all(map(same,a,b))
    if isinstance(a,dict) and isinstance(b,dict): return list(a)==list(b) and all(same(a[k],b[k]) for k in a)
    if isinstance(a,float) and isinstance(b,float): return abs(a-b)<1e-12
    return type(a)==type(b) and a==b
def main():
    it=Interp(d)
    try: m=it.load('composipy')
    except BaseException as e: print('LOAD',repr(e)); raise
    ok=0
    import re
    names=[n for n in ns.__dict__ if re.fullmatch(r't\d+',n)]
    for n in names:
        try: w=norm(getattr(ns,n)())
        except Exception as e: print(n,'REAL FAILS',repr(e)); continue
        try:
            v,alive,exc=it.run(lambda: it.call(it.st.heap[m.frame][n],[],{}))
            r=conc(it,v) if alive else ('EXC',exc)
        except BaseException as e: r=repr(e)[:300]
        if same(r,w): ok+=1
        elif isinstance(r,list) and isinstance(w,list) and len(r)==len(w):
            print(n,'DIFF',[(i,a,b) for i,(a,b) in enumerate(zip(r,w)) if not same(a,b)])
        else: print(n,'DIFF',r,'|',w)
    print(ok,'ok')
threading.stack_size(1<<28)
t=threading.Thread(target=main); t.start(); t.join()
