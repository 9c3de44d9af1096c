"""mkseed(id, property, edits=[(file, old, new)], demo={name: text}, needs, breaks): write seeded/<id>"""
import os,subprocess,tempfile,shutil,json
CPP='''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -fopenmp -w -I"$PWD/include" "$D/demo.cpp" -o "$T/demo" -L"$PWD" -larctic -Wl,-rpath,"$PWD" -lgsl -lgslcblas || exit 99
export LD_LIBRARY_PATH="$PWD"
cd "$T" && timeout 200 ./demo
'''
PY='''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
export LD_LIBRARY_PATH="$PWD" PYTHONPATH="$PWD/python" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
P=/opt/vp/venv/bin/python3; [ -x "$P" ] || P=python3
cd "$T" && timeout 200 "$P" "$D/demo.py"
'''
def mkseed(id,prop,edits,cpp=None,py=None,needs="",breaks="",sh=None):
    s="/verif/seeded/"+id; os.makedirs(s,exist_ok=True)
    d=tempfile.mkdtemp(prefix="mks",dir="/tmp")
    try:
        subprocess.run("cd /repo && git ls-files -z | xargs -0 cp --parents -t %s && cd %s && git init -q && git -c core.autocrlf=false add -A && git -c user.email=a -c user.name=a commit -qm x"%(d,d),shell=True,check=True)
        for e in edits:
            fi,o,n=e[:3]; nth=e[3] if len(e)>3 else None
            p=d+"/"+fi; t=open(p,newline='').read()
            if '\r\n' in t: o=o.replace('\n','\r\n'); n=n.replace('\n','\r\n')
            c=t.count(o)
            if nth is not None:
                x=t.split(o); assert len(x)>nth+1,(id,fi,c); t=o.join(x[:nth+1])+n+o.join(x[nth+1:])
            else:
                assert c==1,(id,fi,c,o[:60]); t=t.replace(o,n)
            open(p,"w",newline='').write(t)
        q=subprocess.run(["git","-C",d,"diff"],capture_output=True)
        open(s+"/patch.diff","wb").write(q.stdout)
    finally: shutil.rmtree(d)
    if cpp: open(s+"/demo.cpp","w").write(cpp)
    if py: open(s+"/demo.py","w").write(py)
    open(s+"/demo.sh","w").write(sh or (CPP if cpp else PY)); os.chmod(s+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(s+"/meta.json","w"),indent=1)
