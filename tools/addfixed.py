"""usage: addfixed.py PROP COMMIT_SUBJECT_SUBSTRING... : records fix commits of /repo in known_findings.json"""
import json, subprocess, sys
K = '/verif/known_findings.json'
def log():
    return [l.split(' ', 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()]
def add(prop, sub):
    k = json.load(open(K))
    m = [(h, s) for h, s in log() if sub in s and s.startswith("fix:")]
    assert len(m) == 1, (sub, m)
    h, s = m[0]
    if any(e.get("commit") == h for e in k):
        return
    k.append(dict(property=prop, case="", what="fixed: property=%s %s %s" % (prop, h, s[5:]), status="fixed", commit=h))
    json.dump(k, open(K, 'w'), indent=1)
if __name__ == "__main__":
    for s in sys.argv[2:]:
        add(sys.argv[1], s)
