"""Replay of C29: r29_run.py MODULE LIBRARY, the case in JSON on standard input."""
import array, importlib.util, json, sys
s = importlib.util.spec_from_file_location("lc3", sys.argv[1])
m = importlib.util.module_from_spec(s)
s.loader.exec_module(m)
c = json.load(sys.stdin)
x = bytes(c["data"])
out = {}
try:
    o = (m.Decoder if c["dec"] else m.Encoder)(10000, 48000, c["n"], libpath=sys.argv[2])
    if c["dec"]:
        r = o.decode(x, c["depth"])
    elif c["depth"] is None and c["floats"]:
        r = o.encode(list(array.array("f", x)), c["bytes"])
    else:
        r = o.encode(x, c["bytes"], c["depth"])
    out["result"] = list(r.tobytes() if isinstance(r, array.array) else bytes(r))
    out["type"] = type(r).__name__
except Exception as e:
    out["exception"] = [k.__name__ for k in type(e).__mro__]
    out["text"] = repr(e)
print(json.dumps(out))
