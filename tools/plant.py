"""Development helper: plant.py new ID FILE <<< 'OLD\n====\nNEW'  writes seeded/ID/patch.diff;
plant.py try ID...  confirms the planted bug (tests pass, demo) and runs its property's check on it."""
import json, os, subprocess, sys
V = "/verif/seeded"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def clean():
    assert not sh("git -C /repo status --short").stdout.strip(), "repo not clean"


def new(i, f, text):
    clean()
    p = os.path.join("/repo", f)
    s = open(p).read()
    for part in text.split("\n####\n"):
        old, new_ = part.split("\n====\n")
        old, new_ = old.strip("\n"), new_.strip("\n")
        assert s.count(old) == 1, (s.count(old), old)
        s = s.replace(old, new_)
    open(p, "w").write(s)
    os.makedirs(V + "/" + i, exist_ok=True)
    d = sh("git -C /repo diff").stdout
    sh("git -C /repo checkout -- .")
    mode = "a" if os.environ.get("APPEND") else "w"
    open(V + "/" + i + "/patch.diff", mode).write(d)


def tests():
    out = "/tmp/plant_t.json"
    sh("bash /opt/vp/test.sh " + out)
    r = json.load(open(out))
    base = json.load(open("/opt/vp/BASELINE.json"))
    st = base.get("stable") or base.get("passed") or base.get("tests")
    passed = set(r.get("passed", []))
    return all(t in passed for t in st), sorted(set(st) - passed)


def try_(ids, check=True):
    for i in ids:
        clean()
        d = V + "/" + i
        m = json.load(open(d + "/meta.json"))
        r = [i, m["property"]]
        tmp = "/tmp/plant_demo/" + i
        sh("mkdir -p /tmp/plant_demo && cp -a %s %s" % (d, tmp))
        a = sh("bash %s/demo.sh" % tmp, cwd="/repo")
        r.append("demo clean %d" % a.returncode)
        if a.returncode:
            print(a.stdout[-800:], a.stderr[-1500:])
        try:
            ap = sh("git -C /repo apply %s/patch.diff" % d)
            if ap.returncode:
                print(i, "DOES NOT APPLY", ap.stderr)
                continue
            b = sh("bash %s/demo.sh" % tmp, cwd="/repo")
            r.append("demo patched %d (%s)" % (b.returncode, (b.stdout + b.stderr).strip().splitlines()[-1][-150:] if (b.stdout + b.stderr).strip() else ""))
            ok, miss = tests()
            r.append("tests ok" if ok else "TESTS FAIL %s" % miss)
            if check:
                props = [m["property"]] + os.environ.get("ALSO", "").split()
                for p in props:
                    c = sh("VERIF_SEED=1 timeout 900 /verif/check.sh %s quick" % p)
                    v = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
                    r.append("%s rc=%d %s" % (p, c.returncode, v[:1]))
                    if c.returncode not in (0, 1):
                        print(c.stdout[-500:], c.stderr[-1500:])
        finally:
            sh("git -C /repo checkout -- .")
            sh("rm -rf /tmp/plant_demo/" + i)
        print(" | ".join(r), flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "new":
        new(sys.argv[2], sys.argv[3], sys.stdin.read())
    else:
        try_(sys.argv[2:], sys.argv[1] == "try")
