#!/usr/bin/env python3
'''quick directed mutants: mq.py SPEC.py [names]; MUTS = [(pid or [pids], file, old, new)]'''
import sys,os,subprocess,shutil,tempfile,concurrent.futures as cf
ns={}; exec(open(sys.argv[1]).read(),ns)
only=sys.argv[2:]
def run(k,m):
    pids,f,old,new=m
    if isinstance(pids,str): pids=[pids]
    d=tempfile.mkdtemp(prefix='mq.',dir='/tmp')
    try:
        subprocess.run(['cp','-a','/repo/marxs',d],check=True)
        p=os.path.join(d,f); s=open(p).read()
        if s.count(old)!=1: return k,'BADEDIT count=%d'%s.count(old)
        open(p,'w').write(s.replace(old,new))
        res=[]
        for pid in pids:
            sc=tempfile.mkdtemp(prefix='mqs.',dir='/tmp')
            env=dict(os.environ,MPLBACKEND='agg',PYTHONDONTWRITEBYTECODE='1',OMP_NUM_THREADS='1',OPENBLAS_NUM_THREADS='1',PYTHONHASHSEED='0',VERIF_SCRATCH=sc,PYTHONPATH='/tmp/vw:'+d)
            r=subprocess.run(['/opt/venv/bin/python','-W','ignore','-m','vt.run',pid,'--no-evidence','-j','2'],cwd=sc,env=env,capture_output=True,text=True)
            shutil.rmtree(sc,ignore_errors=True)
            res.append(f'{pid}:'+('CAUGHT' if r.returncode==1 else 'MISSED' if r.returncode==0 else f'rc{r.returncode} {r.stderr[-200:]}'))
            if r.returncode==1: break
        return k,' '.join(res)
    finally: shutil.rmtree(d,ignore_errors=True)
with cf.ThreadPoolExecutor(4) as ex:
    fs=[ex.submit(run,i,m) for i,m in enumerate(ns['MUTS']) if not only or str(i) in only]
    for f in cf.as_completed(fs):
        k,r=f.result(); m=ns['MUTS'][k]
        print(k,r,m[1].split('/')[-1],'|',m[3].strip().replace('\n',' / ')[:110],flush=True)
