"records the parameters' names of the repository's functions (see sa/norm.py)"
import ast, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from sa.norm import functions, params, survey, TABLE
trees = {}
top, out = os.environ.get("VERIF_REPO", "/repo") + "/interoperability", {}
for d, _, fs in os.walk(top):
    for f in fs:
        if f.endswith(".py"):
            p = os.path.join(d, f); m = os.path.relpath(p, top)[:-3].replace(os.sep, ".")
            if m.endswith("__init__"): m = m[:-len(".__init__")] if "." in m else ""
            try: t = ast.parse(open(p, "rb").read())
            except SyntaxError: continue
            r = {q: params(n) for q, n in functions(t) if len(params(n)) > 0}
            if r and (m.startswith("mqtt.") or m.startswith("mbt") or m.startswith("specifications") or m in ("run_proxy", "run_restart_proxy", "startbroker")): out[m] = r; trees[m] = t
defs, attrs, _ = survey(trees)
json.dump({"params": out, "defs": defs, "attrs": {a: sorted(v) for a, v in attrs.items()}}, open(TABLE, "w"), indent=0, sort_keys=True)
print(sum(map(len, out.values())), "functions")
