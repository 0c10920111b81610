#!/usr/bin/env python3
"""plant.py [--all|--checks C01,C02] [-j N] ID...   tries planted bugs in scratch copies (bind-mounted over /repo and /verif)
and prints: demo on the clean tree, build, stable tests, demo with the patch, verdict of the property's check."""
import sys, os, json, subprocess, shutil, tempfile, concurrent.futures as cf, argparse, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*"); ap.add_argument("--checks", default=""); ap.add_argument("--all", action="store_true")
ap.add_argument("-j", type=int, default=3); ap.add_argument("--no-check", action="store_true"); ap.add_argument("--tier", default="quick"); ap.add_argument("--seed", default="1")
ap.add_argument("--save", default="")
A = ap.parse_args()
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def ns(repo, verif, cmd, timeout=1000):
    sh = "mount --bind %s /repo && mount --bind %s /verif && cd /repo && %s" % (repo, verif, cmd)
    try:
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", sh], capture_output=True, text=True, timeout=timeout,
                           env=dict(os.environ, VERIF_TIER=A.tier, VERIF_SEED=A.seed))
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return -1, "timeout"
def one(i):
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="plant-" + i + "-", dir="/tmp")
    res = dict(id=i, property=meta["property"])
    try:
        repo, ver, dem = tmp + "/repo", tmp + "/verif", tmp + "/demo"
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        os.mkdir(ver)
        subprocess.run("cp -a %s/bin %s/harness %s/spec %s/*.json* %s/; mkdir -p %s/evidence %s/out" % (V, V, V, V, ver, ver, ver), shell=True)
        shutil.copytree(d, dem, ignore=lambda *_: ["patch.diff", "meta.json"])
        rc, out = ns(repo, ver, "timeout 290 bash %s/demo.sh" % dem)
        res["clean_demo"] = rc
        if rc != 0:
            res["out"] = out[-1500:]
        r = subprocess.run(["git", "-C", repo, "apply", "--whitespace=nowarn", d + "/patch.diff"], capture_output=True, text=True)
        if r.returncode:
            res["apply"] = r.stderr; return res
        # the removed lines must be original
        base = subprocess.run(["git", "-C", repo, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
        mine = 0; orig = 0
        cur = None
        for l in subprocess.run(["git", "-C", repo, "diff", "-U0"], capture_output=True, text=True).stdout.splitlines():
            if l.startswith("--- a/"): cur = l[6:]
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m and cur:
                a, n = int(m.group(1)), int(m.group(2) or 1)
                if n:
                    bl = subprocess.run(["git", "-C", repo, "blame", "-s", "-L", "%d,%d" % (a, a + n - 1), "HEAD", "--", cur], capture_output=True, text=True).stdout
                    for b in bl.splitlines():
                        if base.startswith(b.split()[0].lstrip("^")): orig += 1
                        else: mine += 1
        res["lines"] = "orig %d mine %d" % (orig, mine)
        env = ". /opt/vp/env.sh; "
        rc, out = ns(repo, ver, env + "go build ./...")
        res["build"] = rc
        if rc: res["out"] = out[-1500:]; return res
        rc, out = ns(repo, ver, env + "export GODEBUG=randautoseed=0; go test -json -vet=off -count=1 -timeout 10m ./...")
        passed = set()
        for l in out.splitlines():
            try: e = json.loads(l)
            except Exception: continue
            if e.get("Action") == "pass" and e.get("Test"): passed.add(e["Package"] + "/" + e["Test"])
        res["tests_failed"] = sorted(STABLE - passed)
        rc, out = ns(repo, ver, "timeout 290 bash %s/demo.sh" % dem)
        res["patched_demo"] = rc
        res["demo_out"] = out[-300:]
        if not A.no_check:
            ck = [c for c in A.checks.split(",") if c] or [meta["property"]]
            if A.all:
                sys.path.insert(0, V + "/bin")
                from props import PROPS
                ck = sorted(PROPS)
            res["checks"] = {}
            for c in ck:
                rc, out = ns(repo, ver, "cd /verif && bin/check " + c)
                v = re.findall(r"VIOLATION property=(\S+)", out)
                why = re.findall(r"breaks (.*)", out)
                res["checks"][c] = (rc, v, why[:1] or out[-400:] if rc else "")
        return res
    except Exception as e:
        res["exc"] = repr(e); return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
ids = A.ids or sorted(os.listdir(V + "/seeded"))
allres = []
with cf.ThreadPoolExecutor(A.j) as ex:
    for r in ex.map(one, ids):
        allres.append(r)
        valid = r.get("clean_demo") == 0 and r.get("build") == 0 and not r.get("tests_failed", 1) and r.get("patched_demo", 0) != 0
        caught = any(v[0] == 1 and r["property"] in v[1] for v in r.get("checks", {}).values())
        print(("VALID " if valid else "INVALID "), ("CAUGHT " if caught else "MISSED "), r["id"], r["property"], r.get("lines"),
              {c: (v[0], v[2] if v[0] != 0 else "") for c, v in r.get("checks", {}).items() if v[0] != 0 or not A.all}, flush=True)
        if not valid:
            print("   ", {k: v for k, v in r.items() if k not in ("checks",)}, flush=True)
if A.save: json.dump(allres, open(A.save, "w"), indent=1)
