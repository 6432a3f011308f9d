import sys,os,shutil,subprocess
sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))))); sys.setrecursionlimit(20000)
from nfcheck import core, registry
KNOWN={l.split(' key=')[1].split(' ::')[0] for l in open('/verif/known_findings.txt') if l.startswith('known:')}
def run(edits, props=("P01","P02","P03","P04","P10"), show=6):
    W='/tmp/rf/w%d'%os.getpid()
    shutil.rmtree(W,ignore_errors=True); shutil.copytree('/repo/src',W+'/src')
    for f,old,new in edits:
        p=W+'/src/'+f; s=open(p).read()
        if s.count(old)<1: print('  !! not found',f,old[:50]); return
        open(p,'w').write(s.replace(old,new))
    core.REPO=W
    pr=core.Program(W+'/src')
    out=[]
    for p in props:
        r=core.Result(p); registry.CHECKS[p]['run'](pr,r,'quick'); r.findings=[f for f in r.findings if f.key not in KNOWN]
        out.append('%s:%dv/%du'%(p,len(r.findings),len(r.undecided)))
        for f in r.findings[:show]: out.append('   V '+str(f)[:300])
        for f in r.undecided[:show]: out.append('   U '+str(f)[:200])
    return out


def _one(job):
    label, edits, props = job
    try:
        return label, run(edits, props)
    finally:
        shutil.rmtree('/tmp/rf/w%d'%os.getpid(), ignore_errors=True)

def main(Q, M, props, only='', workers=6):
    """all benign edits and mutants in parallel; only: m | qN | mN"""
    from multiprocessing import Pool
    jobs=[("Q %d"%k,e,props) for k,e in enumerate(Q) if only in ('','q%d'%k)]+[("M %d"%k,e,props) for k,e in enumerate(M) if only in ('','m','m%d'%k)]
    with Pool(workers, maxtasksperchild=4) as pool:
        for label,out in pool.imap(_one, jobs):
            print(label, out, flush=True)
