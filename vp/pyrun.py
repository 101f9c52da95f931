import warnings; warnings.simplefilter('ignore')
import importlib, json, sys
spec = json.load(open(sys.argv[1]))
m = importlib.import_module(spec["module"])
r = getattr(m, spec["fn"])(spec["work"], spec["rdir"], **spec["kw"])
json.dump(r, open(sys.argv[2], "w"))
