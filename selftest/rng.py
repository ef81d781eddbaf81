import sys,os,glob,time,shutil; sys.path.insert(0,'/verif')
from concurrent.futures import ProcessPoolExecutor
def one(f):
    from vlib import props,rng,ir
    k=os.path.basename(f)[:-2]; d='/tmp/rvd/'+k; shutil.rmtree(d,ignore_errors=True); os.makedirs(d+'/src/random')
    shutil.copy(f,d+'/src/random/random.c'); shutil.copy('/repo/src/random/random.h',d+'/src/random/')
    ir.SRC=d+'/src'
    r=props.Result(); t=time.time()
    try: rng.check(r,'quick',d); v=[x['where']+' '+x['msg']+' '+x['config'] for x in r.violations]
    except Exception as e: v='ERR '+str(e)[:300]
    return k,v,time.time()-t
with ProcessPoolExecutor(6) as ex:
    for k,v,t in ex.map(one,sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)),'rng','*.c')))): 
        good=(bool(v)==k.startswith('bad')) and not str(v).startswith('ERR')
        print('OK  ' if good else 'FAIL',k,v,round(t,1))
