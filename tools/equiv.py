"""development aid: python3 tools/equiv.py [-c C01,C02] [-j 7] FILE.eq... : applies all the rewritings of the files, which
change no behaviour, to one scratch copy of /repo and runs the checks, which must stay quiet.
A file holds  file: PATH-below-interoperability  then  <<< old  ===  new >>>  blocks."""
import sys, re, os, shutil, subprocess, tempfile, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refac import one, V
a = sys.argv[1:]
def opt(f, d=None):
    if f not in a: return d
    i = a.index(f); v = a[i + 1]; del a[i:i + 2]; return v
keep = opt("-k"); checks = opt("-c"); jobs = int(opt("-j", 7))
checks = checks.split(",") if checks else sorted(f[:-3].upper() for f in os.listdir(V + "/sa/rules") if f[0] == "c" and f[1:3].isdigit())
root = tempfile.mkdtemp(prefix="equiv")
try:
    subprocess.check_call(["git", "clone", "-q", "/repo", root + "/r"])
    n = 0
    for fn in a:
        path = None
        for blk in re.split(r"^(?=file:|<<<\n)", open(fn).read(), flags=re.M):
            if blk.startswith("file:"): path = root + "/r/interoperability/" + blk[5:].split()[0]
            elif blk.startswith("<<<"):
                m = re.match(r"<<<\n(.*?)\n===\n(.*?)\n?>>>", blk, flags=re.S); s = open(path).read()
                if s.count(m.group(1)) != 1: print("found %d times in %s: %s" % (s.count(m.group(1)), path[len(root):], m.group(1)[:150])); continue
                s = s.replace(m.group(1), m.group(2)); compile(s, path, "exec"); open(path, "w").write(s); n += 1
    bad = 0
    with cf.ThreadPoolExecutor(jobs) as ex:
        for x, (rc, o) in zip(checks, ex.map(lambda x: one(root + "/r", x, root + "/ev"), checks)):
            und = [l for l in o.splitlines() if l.startswith("UNDECIDED")]
            if rc or und:
                bad += rc != 0
                for l in ([l for l in o.splitlines() if l.strip() and not l.startswith("KNOWN")][:3] if rc else und[:2]): print("   %s rc=%d %s" % (x, rc, l[:260]))
    print("%d rewritings; %s" % (n, "%d NOT QUIET" % bad if bad else "quiet"))
finally:
    if keep: shutil.rmtree(keep, True); shutil.move(root + "/r", keep)
    shutil.rmtree(root)
