"""Developer tool (not used by any check): turns bug descriptions into /verif/seeded/<id>/.

    seedtool.py make SEEDS.py [ID...]     SEEDS.py calls S(id, prop, needs, breaks, edits, demo)
    seedtool.py tests [ID...]             run the stable test suite with each patch (bind mount in a user namespace)
    seedtool.py run [ID...] [--all] [-- C01 C02]   run checks (own property by default) against each patch
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, "seeded"); BASE = "1da3731"; PY = "/opt/venv/bin/python"


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    return d


def original_lines(root, patch):
    """how many removed lines of the patch belong to the original repository / to own commits"""
    out = [0, 0]
    files = {}
    for ln in patch.splitlines():
        if ln.startswith("--- a/"):
            f = ln[6:]
        m = re.match(r"@@ -(\d+)", ln)
        if m:
            n = int(m[1]); continue
        if ln.startswith("-") and not ln.startswith("---"):
            files.setdefault(f, []).append(n); n += 1
        elif ln.startswith(" "):
            n += 1
    for f, ns in files.items():
        bl = sh(["git", "-C", "/repo", "blame", "-s", f]).stdout.splitlines()
        for i in ns:
            out[0 if bl[i - 1].startswith("^") else 1] += 1
    return out


def demo(d, root):
    return sh(["bash", os.path.join(d, "demo.sh")], cwd=root, timeout=300)


def make(src, ids):
    helper = os.path.join(os.path.dirname(os.path.abspath(src)), "dm.py")

    def S(id, prop, needs, breaks, edits, body):
        if ids and id not in ids:
            return
        w = copy(); root = w + "/repo"
        try:
            for e in edits:
                f, old, new = e[:3]
                p = os.path.join(root, "deepquantum", f); t = open(p, encoding="utf-8").read()
                cnt = t.count(old)
                nth = e[3] if len(e) > 3 else None
                if cnt == 0 or (cnt > 1 and nth is None):
                    print(id, "EDIT matches", cnt, "times:", old[:60]); return
                if nth is None:
                    t = t.replace(old, new)
                else:
                    i = -1
                    for _ in range(nth + 1):
                        i = t.index(old, i + 1)
                    t = t[:i] + new + t[i + len(old):]
                open(p, "w", encoding="utf-8").write(t)
            patch = sh(["git", "-C", root, "diff"]).stdout
            orig = original_lines(root, patch)
            d = os.path.join(SEEDED, id)
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            open(d + "/patch.diff", "w").write(patch)
            open(d + "/demo.py", "w").write("from dm import *\n" + body.strip() + "\nprint('ok')\n")
            shutil.copy(helper, d + "/dm.py")
            open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=2\n'
                                            'exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
            a = demo(d, "/repo"); b = demo(d, root)
            good = a.returncode == 0 and b.returncode != 0 and "FAIL" in b.stdout and orig[0] > 0
            print(id, "OK" if good else "BAD", "orig/own lines", orig, "clean", a.returncode, "patched", b.returncode, b.stdout.strip()[-150:])
            if not good:
                print(a.stdout[-600:], b.stdout[-600:])
        finally:
            shutil.rmtree(w)
    exec(compile(open(src).read(), src, "exec"), {"S": S})


def patched(id):
    w = copy()
    r = sh(["git", "-C", w + "/repo", "apply", os.path.join(SEEDED, id, "patch.diff")])
    if r.returncode:
        raise SystemExit("%s does not apply: %s" % (id, r.stdout))
    return w


def tests(ids):
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for id in ids:
        w = patched(id)
        try:
            r = sh(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/out.json" % (w, w)])
            res = json.load(open(w + "/out.json"))
            bad = [t for t in stable if t not in res["passed"]]
            print(id, "tests pass" if not bad else "TESTS FAIL %s" % bad, flush=True)
            if not bad:
                open("/tmp/sd/tested", "a").write(id + "\n")
        except Exception as e:
            print(id, "ERROR", e, r.stdout[-500:])
        finally:
            shutil.rmtree(w)


def run(ids, props):
    allp = json.load(open(VERIF + "/MANIFEST.json"))
    allp = [c.get("property") or c.get("property_id") or c["id"] for c in allp["checks"]]
    for id in ids:
        meta = json.load(open(os.path.join(SEEDED, id, "meta.json")))
        ps = props or [meta["property"]]
        if ps == ["ALL"]:
            ps = allp
        w = patched(id)
        try:
            sh("cp -a %s/check %s/mon %s/known_findings.txt %s/" % (VERIF, VERIF, VERIF, w))
            hit = []
            for p in ps:
                r = sh([w + "/check", p, "quick"], cwd=w, env=dict(os.environ, VERIF_REPO=w + "/repo", VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
                if r.returncode == 1 and "VIOLATION property=" + p in r.stdout:
                    hit.append(p)
                elif r.returncode != 0:
                    hit.append(p + "?rc%d" % r.returncode); print(r.stdout[-600:])
            print(id, meta["property"], "CAUGHT" if meta["property"] in hit else ("-" if meta["property"] not in ps else "MISSED"), "by", hit, flush=True)
        finally:
            shutil.rmtree(w)


if __name__ == "__main__":
    cmd, rest = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        make(rest[0], rest[1:])
    else:
        props = []
        if "--" in rest:
            i = rest.index("--"); props = rest[i + 1:]; rest = rest[:i]
        ids = rest or sorted(os.listdir(SEEDED))
        tests(ids) if cmd == "tests" else run(ids, props)
