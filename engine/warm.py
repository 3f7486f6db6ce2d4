"""compile every registered harness once (fills build/ccache); results are discarded"""
import sys, os, json, importlib, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, HERE + "/../specs"]
idx = json.load(open(HERE + "/../specs/index.json"))
seen = set()
for pid in sorted(idx):
    try:
        P = importlib.import_module(idx[pid]).PROPS[pid]
        hs = P.get("harness", [])
        hs = hs() if callable(hs) else hs
        for h in (hs if isinstance(hs, list) else [hs]):
            if h.name in seen: continue
            seen.add(h.name)
            try: h.build(); print("warmed", h.name)
            except Exception as e: print("not warmed", h.name, str(e)[:200])
            shutil.rmtree(os.path.dirname(h.exe) if hasattr(h, "exe") else "/nonexistent/x", ignore_errors=True)
    except Exception as e: print(pid, e)
