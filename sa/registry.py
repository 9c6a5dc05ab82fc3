"""Properties -> rules"""
import importlib

MODULES = ["params", "views", "values", "names", "info", "legal", "units", "gwp", "times", "adapters", "frames", "select", "series", "ops", "atomic", "align", "append", "convert", "build"]
PROPERTIES = {}


def _load():
    for m in MODULES:
        mod = importlib.import_module("sa.rules." + m)
        for pid, d in mod.RULES.items():
            p = PROPERTIES.setdefault(pid, {"rules": [], "explain": "", "assumptions": []})
            p["rules"] += d["rules"]
            p["explain"] = (p["explain"] + " " + d.get("explain", "")).strip()
            p["only"] = p.get("only") or d.get("only")
            p["assumptions"] += d.get("assumptions", [])


_load()
