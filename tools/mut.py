"""development aid: python3 tools/mut.py FILE.mut [CHECK...] ; the file holds  @@ path-below-interoperability/mqtt [checks]  then  <<< old  ===  new >>> blocks.
Each mutant is applied alone to a scratch copy and the checks are run; one line is printed per mutant and check."""
import sys, re, os, shutil, tempfile, subprocess
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def parse(fn):
    out, path, checks = [], None, []
    for blk in re.split(r"^(?=@@|<<<)", open(fn).read(), flags=re.M):
        if blk.startswith("@@"):
            w = blk.split("\n")[0][2:].split(); path, checks = w[0], w[1:]
        elif blk.startswith("<<<"):
            m = re.match(r"<<<([^\n]*)\n(.*?)\n?===\n(.*?)\n?>>>", blk, flags=re.S)
            out.append((path, m.group(1).split() or checks, m.group(2), m.group(3)))
    return out
def run1(m, only):
    path, checks, a, b = m
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree("/repo/interoperability", d + "/interoperability", ignore=shutil.ignore_patterns("__pycache__"))
        f = d + "/interoperability/" + ("" if os.path.exists(d + "/interoperability/" + path) else "mqtt/") + path
        s = open(f).read()
        want = "C"
        if s.count(a) < 1: return [(m, "?", "NOT FOUND")]
        s2 = s.replace(a, b, 1)
        open(f, "w").write(s2)
        try: compile(s2, f, "exec")
        except SyntaxError as e: return [(m, "?", "SYNTAX %s" % e)]
        res = []
        for c in only or checks:
            keep = c.startswith("="); c = c.lstrip("=")
            p = subprocess.run([sys.executable, "-m", "sa.run", c], cwd=V, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d), capture_output=True, text=True)
            out = (p.stdout.strip().split("\n") or [""])[0] if p.returncode in (0, 1) else (p.stdout + p.stderr).strip().split("\n")[-1]
            lines = [l for l in p.stdout.split("\n") if l and not l.startswith("KNOWN")]
            st = {0: "quiet", 1: "CAUGHT"}.get(p.returncode, "BROKEN")
            ok = (st == "quiet") if keep else (st == "CAUGHT")
            res.append((m, c, ("ok   " if ok else "**** ") + st + " " + ((lines[0] if lines else out)[:230] if p.returncode in (0, 1) else out[:400])))
        return res
    finally: shutil.rmtree(d)
if __name__ == "__main__":
    quiet = "-q" in sys.argv
    if quiet: sys.argv.remove("-q")
    ms, nok = parse(sys.argv[1]), 0
    with ThreadPoolExecutor(8) as ex:
        for rs in ex.map(lambda m: run1(m, sys.argv[2:]), ms):
            for m, c, r in rs:
                if r.startswith("ok"): nok += 1
                if quiet and r.startswith("ok"): continue
                print("[%s] %s => %s\n      %s" % (c, " ".join(m[2].split())[:90], " ".join(m[3].split())[:90], r))
    print("%d as expected" % nok)
