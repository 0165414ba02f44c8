"""variants.py PID FILE: hand-written variants of the code (tools/variants/PID.same.txt, PID.bug.txt: name, file, old text, new text,
separated by lines of ---, one after another separated by =====), each applied to a copy of /repo/pyuff and given to the verifier
(same: it has to accept, bug: to refuse)"""
import sys,os,shutil,subprocess,concurrent.futures as cf
pid,f=sys.argv[1:3]
src=open(f).read().split('\n=====\n')
def go(i_t):
    i,t=i_t
    name,file,old,new=t.strip('\n').split('\n---\n')
    d='/tmp/w/m/%s_%d'%(pid,i)
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    shutil.copytree('/repo/pyuff',d+'/pyuff')
    p=d+'/pyuff/'+file
    s=open(p).read()
    if old not in s: return name,'NOT APPLICABLE'
    s=s.replace(old,new,1); open(p,'w').write(s)
    try: compile(s,p,'exec')
    except SyntaxError as e: return name,'SYNTAX %s'%e
    out=d+'/o.json'
    r=subprocess.run(['timeout','400','python3-vt','-m','engine.verify',pid,out,'--jobs','2','-v'],cwd='/verif',env=dict(os.environ,VERIF_REPO=d),capture_output=True,text=True)
    tail=r.stdout.strip().split('\n')
    fails=[x for x in tail if x.startswith('FAILED')][:1]
    why=[tail[tail.index(x)+1] for x in fails]
    shutil.rmtree(d)
    return name,tail[-1][:60]+' '+' '.join(fails)[:150]+' '+' '.join(why)[:200]
with cf.ThreadPoolExecutor(4) as ex:
    for n,r in ex.map(go,enumerate(src)): print(n,'=>',r,flush=True)
