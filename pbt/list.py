"""Prints the sub-checks of a property as JSON."""
import importlib, json, pathlib, sys, warnings
HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE)); sys.path.insert(0, "/repo")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
prop = sys.argv[1]
importlib.import_module("checks." + json.loads((HERE / "index.json").read_text())[prop])
import core
print(json.dumps({"subs": [{"name": s.name, "quick": s.quick, "thorough": s.thorough, "shards": s.shards, "serial": s.serial} for s in core.SUBS[prop]],
                  "rule": core.RULES.get(prop, ""), "assumptions": core.ASSUMPTIONS.get(prop, [])}))
