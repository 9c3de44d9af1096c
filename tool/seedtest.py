"""seedtest.py ID...: for each planted bug, in a scratch copy bound over /repo
in a private mount namespace: build, stable tests, demo, and its property's check."""
import json,os,subprocess,sys,tempfile,shutil
from concurrent.futures import ThreadPoolExecutor
V="/verif"; stable=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def ns(d,cmd,timeout=900):
    return subprocess.run(["unshare","-Urm","bash","-c","mount --bind %s/repo /repo && %s"%(d,cmd)],
        capture_output=True,text=True,timeout=timeout)
def one(i):
    s="%s/seeded/%s"%(V,i); m=json.load(open(s+"/meta.json"))
    d=tempfile.mkdtemp(prefix="seed",dir="/tmp"); out=[]
    try:
        shutil.copytree(s,d+"/demo")
        for f in os.listdir(d+"/demo"):
            if f.endswith((".diff",".patch")) or f=="meta.json": os.remove(d+"/demo/"+f)
        subprocess.run(["cp","-a","/repo",d+"/repo"],check=True)
        if "--nobase" not in sys.argv:
            q=ns(d,"cd /repo && timeout 300 bash %s/demo/demo.sh"%d); out.append("demo-clean=%d"%q.returncode)
            if q.returncode: out.append((q.stdout+q.stderr)[-300:])
        q=subprocess.run(["git","-C",d+"/repo","apply",s+"/patch.diff"],capture_output=True,text=True)
        if q.returncode: return i,"PATCH FAILS "+q.stderr[:200]
        if "--nocheck" not in sys.argv:
            for p in ([m["property"]]+[a[8:] for a in sys.argv if a.startswith("--check=")]):
                q=subprocess.run(["python3",V+"/check.py",p],env=dict(os.environ,VERIF_REPO=d+"/repo"),capture_output=True,text=True)
                out.append("%s rc=%d %s"%(p,q.returncode,q.stdout.replace(d,"").replace("\n"," | ")[:260] if q.returncode==1 else q.stdout[-150:]))
        if "--notest" not in sys.argv:
            q=ns(d,"cd /tmp && bash /opt/vp/test.sh %s/out.json"%d)
            try:
                r=json.load(open(d+"/out.json")); miss=stable-set(r["passed"])
                out.append("tests %s"%("OK" if not miss else "FAIL %d %s"%(len(miss),sorted(miss)[:3])))
            except Exception as e: out.append("tests ? %s %s"%(e,q.stderr[-300:]))
            q=ns(d,"cd /repo && timeout 300 bash %s/demo/demo.sh"%d); out.append("demo-bug=%d %s"%(q.returncode,(q.stdout+q.stderr)[-160:].replace("\n"," | ")))
    finally: shutil.rmtree(d)
    return i,"\n     ".join(out)
if __name__=="__main__":
    ids=[a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V+"/seeded"))
    with ThreadPoolExecutor(3) as ex:
        for i,o in ex.map(one,ids): print(i,":",o,flush=True)
