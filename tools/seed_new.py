"""helper: seed_new.new(id, prop, [(file, old, new)], demo_go, needs, breaks, cli=False)"""
import subprocess, json, os, shutil, tempfile
def new(id, prop, edits, demo, needs, breaks, cli=False):
    d="/verif/seeded/"+id; os.makedirs(d, exist_ok=True)
    w=tempfile.mkdtemp(prefix="seedn", dir="/tmp")
    try:
        for f,_,_ in edits:
            for side in "ab":
                os.makedirs(os.path.dirname(f"{w}/{side}/{f}") , exist_ok=True); shutil.copy("/repo/"+f, f"{w}/{side}/{f}")
        for f,o,n in edits:
            s=open(f"{w}/b/{f}").read(); assert s.count(o)>=1,(id,f,o); assert s.count(o)==1,("ambiguous",id,f,o,s.count(o))
            open(f"{w}/b/{f}","w").write(s.replace(o,n))
        out=subprocess.run(["git","diff","--no-index","--no-prefix","a","b"],cwd=w,capture_output=True,text=True).stdout
        open(d+"/patch.diff","w").write(out)
    finally: shutil.rmtree(w)
    out=open(d+"/patch.diff").read()
    open(d+"/main.go","w").write(demo)
    m={"needs":needs,"what_it_breaks":breaks}
    if cli: m["cli"]=True
    subprocess.run(["python3","/verif/tools/mkseed.py",id,prop],input=json.dumps(m),text=True,check=True)
