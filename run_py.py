import sys, importlib
sys.path[:0] = ["/verif/lib", "/verif/contracts"]
sys.dont_write_bytecode = True
import pyvc
for m in sys.argv[1].split(","): importlib.import_module(m)
sel = sys.argv[2] if len(sys.argv) > 2 else ""
seen=set()
for p, specs in pyvc.REGISTRY.items():
    for s in specs:
        if sel in s["title"] and id(s["fn"]) not in seen:
            seen.add(id(s["fn"]))
            o = pyvc.run_one(s)
            print(f"{p} {s['title']}  [{o['paths']} paths {o['time']:.1f}s]", o["error"] or "")
            if o["error"]: print(o["trace"])
            for r in o["results"]:
                print("   ", r["status"], r["backend"], f"{r['time']:.2f}", r["name"], r.get("reason") or "")
                if r["status"] == "failed": print("       ", (r["model"] or "").replace("\n", "; ")[:600])
