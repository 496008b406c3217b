"""newseed.make(id, property, [(file, old, new)], needs, breaks, demo): writes seeded/<id> (patch against /repo's HEAD)."""
import os, json, subprocess, tempfile, shutil
V = "/verif"


def make(id, prop, edits, needs, breaks, demo):
    d = os.environ.get("SEEDS", V + "/seeded") + "/" + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(dir="/tmp")
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (w, w), shell=True, check=True)
    for f, old, new in edits:
        s = open(w + "/" + f).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(w + "/" + f, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, text=True).stdout)
    shutil.rmtree(w)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.py", "w").write(demo)
    shutil.copy(V + "/tools/seedkit/demo.sh", d + "/demo.sh")
