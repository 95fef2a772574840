# mm.py FILE(list) : runs many mutants in parallel. each entry: (name, file, [(old,new)...], [checks], expect)
import sys, os, subprocess, shutil, runpy, concurrent.futures as cf
M = runpy.run_path(sys.argv[1])['M']
sel = sys.argv[2:]
def one(i, e):
    name, f, eds, checks, exp = e
    d='/tmp/mmc%d_%d'%(os.getpid(),i)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run('cd /repo && git archive HEAD | tar x -C %s; cp Cargo.lock %s; cd %s && git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x'%(d,d,d),shell=True,capture_output=True)
    for ed in eds:
        ff, o, n = ed if len(ed)==3 else (f,)+tuple(ed)
        s=open(d+'/'+ff).read()
        if o not in s: shutil.rmtree(d); return '%s: MISSING %r'%(name,o[:50])
        open(d+'/'+ff,'w').write(s.replace(o,n) if name.endswith('*') else s.replace(o,n,1))
    out=[]
    b=subprocess.run(['cargo','check','--offline','--lib'],cwd=d,capture_output=True,text=True,env=dict(os.environ,CARGO_TARGET_DIR='/tmp/mmt%d_%d'%(os.getpid(),i%7)))
    if b.returncode: shutil.rmtree(d, ignore_errors=True); return name+': BAD COMPILE '+b.stderr[:600]
    env=dict(os.environ,VERIF_REPO=d,VERIF_BUILD='/tmp/mmb%d_%d'%(os.getpid(),i))
    for c in checks:
        try: r=subprocess.run(['python3','check.py',c,'quick'],cwd='/verif',env=env,capture_output=True,text=True,timeout=600)
        except subprocess.TimeoutExpired: out.append('%s TIMEOUT'%c); continue
        l=[x for x in r.stdout.splitlines() if x.strip()]
        fails=[x for x in l if not x.startswith('VIOL')]
        ok = {'v':1,'q':0}[exp]==r.returncode
        out.append('%s %s %s rc=%d %s'%('OK ' if ok else '***BAD',name,c,r.returncode,'' if ok and exp=='q' else ' | '.join(fails[-3:])[:500] or r.stderr[-300:]))
    shutil.rmtree(d, ignore_errors=True); shutil.rmtree('/tmp/mmb%d_%d'%(os.getpid(),i), ignore_errors=True)
    return '\n'.join(out)
yes=[s for s in sel if s[0]!='^']; no=[s[1:] for s in sel if s[0]=='^']
L=[e for e in M if (not yes or any(s in e[0] for s in yes)) and not any(s in e[0] for s in no)]
with cf.ThreadPoolExecutor(7) as ex:
    for r in cf.as_completed([ex.submit(one, i, e) for i, e in enumerate(L)]): print(r.result(), flush=True)
import glob
for x in glob.glob('/tmp/mmt%d_*'%os.getpid()): shutil.rmtree(x, ignore_errors=True)
