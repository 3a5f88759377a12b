"""development aid: python3 tools/seed.py ID... : builds seeded/ID from tools/seeds/ID.seed and confirms it
(demo on both trees, stable tests, original lines), then says which checks catch it."""
import sys, re, os, json, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "8b0576a"
import threading
LOCK = threading.Semaphore(2)
def sh(cmd, **k): return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)
def parse(i):
    s = open(V + "/tools/seeds/%s.seed" % i).read()
    head, demo = s.split("--- demo\n", 1)
    meta = dict(re.findall(r"^(property|needs|breaks): *(.*)$", head, flags=re.M))
    edits, path = [], None
    for blk in re.split(r"^(?=file:|<<<)", head, flags=re.M):
        if blk.startswith("file:"): path = "interoperability/" + blk.split("\n")[0][5:].strip()
        elif blk.startswith("<<<"):
            m = re.match(r"<<<\n(.*?)\n?===\n(.*?)\n?>>>", blk, flags=re.S); edits.append((path, m.group(1), m.group(2)))
    return meta, edits, demo
def isolated(repo, cmd, timeout=600):
    return sh(["unshare", "-Urmn", "bash", "-c", "mount --bind %s /repo && ip link set lo up; cd /repo; %s" % (repo, cmd)], timeout=timeout)
def do(i, tests=True):
    meta, edits, demo = parse(i)
    d = tempfile.mkdtemp(prefix="seed"); repo = d + "/repo"; log = []
    try:
        sh(["cp", "-a", "/repo", repo])
        out = V + "/seeded/" + i
        os.makedirs(out, exist_ok=True)
        for f in ("demo.sh", "lib.py"): shutil.copy(V + "/tools/seeds/" + f, out + "/" + f)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom lib import *\n' + demo + "\nrun(t)\n")
        for path, a, b in edits:
            s = open(repo + "/" + path).read()
            if s.count(a) != 1: return i, ["EDIT MATCHES %d TIMES: %s" % (s.count(a), a[:60])]
            s = s.replace(a, b); open(repo + "/" + path, "w").write(s); compile(s, path, "exec")
        p = sh(["git", "-C", repo, "diff"]).stdout
        open(out + "/patch.diff", "w").write(p)
        json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        # original lines?
        n = orig = 0; path = None
        for line in p.split("\n"):
            if line.startswith("--- a/"): path = line[6:]
            m = re.match(r"@@ -(\d+)", line)
            if m: ln = int(m.group(1)) - 1
            elif path and line[:1] in (" ", "-") and not line.startswith("---"):
                ln += 1
                if line[0] == "-":
                    n += 1
                    bl = sh(["git", "-C", "/repo", "blame", "-s", "-l", "-L", "%d,%d" % (ln, ln), BASE + "..HEAD", "--", path]).stdout
                    orig += bl.startswith("^")
        log.append("original lines %d/%d" % (orig, n))
        c = isolated("/repo", "bash %s/demo.sh" % out); log.append("clean=%d" % c.returncode)
        if c.returncode: log.append(c.stderr[-600:] + c.stdout[-200:])
        c = isolated(repo, "bash %s/demo.sh" % out); log.append("patched=%d %s" % (c.returncode, (c.stderr.strip().split("\n") or [""])[-1][:90]))
        if tests:
          for again in (0, 1):
            with LOCK:
              c = isolated(repo, "bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh %s/out.json" % d)
            r = json.load(open(d + "/out.json")); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            if all(x in r["passed"] for x in st): break
          if 1:
            r = json.load(open(d + "/out.json")); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            bad = [x for x in st if x not in r["passed"]]; log.append("tests " + ("ok" if not bad else "FAIL %s" % bad))
        ids = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
        own = meta["property"]; res = {}
        if "-o" in sys.argv: ids = [own for own in [meta["property"]] if own in ids]
        for x in ids:
            q = sh([sys.executable, "-m", "sa.run", x], cwd=V, env=dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=d))
            res[x] = q.returncode
            if x == own and q.returncode == 1: log.append([l for l in q.stdout.split("\n") if l and not l.startswith("KNOWN")][0][:170])
        mp = V + "/seeded/%s/meta.json" % i; m = json.load(open(mp)); m["caught_by"] = [x for x in ids if res[x] == 1]; json.dump(m, open(mp, "w"), indent=1)
        log.append("own check: %s; caught by %s %s" % ({0: "MISSED", 1: "caught", None: "no check"}.get(res.get(own), "BROKEN"), [x for x in ids if res[x] == 1], ["%s BROKEN" % x for x in ids if res[x] not in (0, 1)] or ""))
    finally: shutil.rmtree(d)
    return i, log
if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    with ThreadPoolExecutor(5) as ex:
        for i, log in ex.map(lambda i: do(i, "-n" not in sys.argv), a): print("==", i); print("   " + "\n   ".join(log)); sys.stdout.flush()
