"""run programs sent line by line (JSON {"src": ...}) against the compiled module; answer with the list `out`"""
import sys, json, os, struct, copy
mod_dir = sys.argv[1]
sys.path.insert(0, mod_dir)
chan = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)  # nothing else may write into the channel
try:
    import dess_pyo3
except BaseException as e:
    chan.write("import: %s: %s\n" % (type(e).__name__, str(e)[:300].replace("\n", " ")))
    chan.flush()
    sys.exit(0)

def enc(v):
    if v is None:
        return "none"
    t = type(v)
    if t is bool:
        return "bool %d" % v
    if t is int:
        return "int %d" % v
    if t is float:
        return "float " + struct.pack(">d", v).hex()
    if t is str:
        return "str " + v
    if t is bytes:
        return "bytes " + v.hex()
    if t is list:
        return "[" + ", ".join(enc(x) for x in v) + "]"
    if hasattr(v, "to_bincode"):
        return t.__name__ + " " + v.to_bincode().hex()
    return "? " + t.__name__

def attempt(f):
    """what a call that must be refused does"""
    try:
        r = f()
    except Exception as e:
        return "raised"
    except BaseException as e:
        return "panicked: " + str(e)[:300]
    return "accepted: " + enc(r)[:300]

base = {n: getattr(dess_pyo3, n) for n in dir(dess_pyo3) if not n.startswith("_")}
base.update(enc=enc, copy=copy, attempt=attempt)
chan.write("ready\n"); chan.flush()
for line in sys.stdin:
    out = []
    ns = dict(base, out=out)
    try:
        exec(compile(json.loads(line)["src"], "<case>", "exec"), ns)
        r = {"out": out}
    except Exception as e:
        r = {"out": out, "exc": "%s: %s" % (type(e).__name__, str(e)[:400])}
    except BaseException as e:
        if type(e).__name__ != "PanicException":
            raise
        r = {"out": out, "exc": "PanicException: " + str(e)[:400]}
    chan.write(json.dumps(r) + "\n")
    chan.flush()
