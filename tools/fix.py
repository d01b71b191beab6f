import subprocess
def fix(f, edits, msg):
    q='/repo/'+f; s=open(q).read()
    for o,n in edits:
        assert s.count(o)==1,(o,s.count(o)); s=s.replace(o,n)
    open(q,'w').write(s)
    subprocess.check_call(["git","-C","/repo","commit","-qam",msg])
