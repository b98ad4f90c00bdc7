"""Executes the calls it reads, one list per line, on the extension module."""
import gc, importlib.machinery, importlib.util, json, sys

loader = importlib.machinery.ExtensionFileLoader("logreduce_rust", sys.argv[1])
m = importlib.util.module_from_spec(importlib.util.spec_from_loader("logreduce_rust", loader))
loader.exec_module(m)
KINDS = {"PyCapsule": 0}


def text(x):
    # lone surrogates cannot be sent as utf-8
    return x if isinstance(x, str) else "".join(map(chr, x))


def run(calls):
    regs, out = {}, []
    for c in calls:
        op, to, args = c["op"], c.get("to"), c.get("args", [])
        try:
            if op == "process":
                out.append([m.process(text(x)) for x in args])
                continue
            if op == "del":
                regs.pop(to, None)
                gc.collect()
                out.append(None)
                continue
            if op == "copy":
                regs[to] = regs.get(c["of"])
                out.append(None)
                continue
            if op == "index":
                v = m.index([text(x) for x in args])
            elif op == "index_mat":
                v = m.index_mat([text(x) for x in args])
            elif op == "search":
                v = [m.search(regs.get(c["of"]), text(x)) for x in args]
            elif op == "search_mat":
                v = m.search_mat(regs.get(c["of"]), [text(x) for x in args])
            elif op == "save_mat":
                v = bytes(m.save_mat(regs.get(c["of"])))
            elif op == "load_mat":
                v = m.load_mat(regs.get(c["of"]))
            elif op == "cut":
                v = regs[c["of"]][: c["size"]]
            elif op == "generate":
                v = m.generate(c["size"])
            elif op == "foreign":
                import datetime

                v = datetime.datetime_CAPI
            else:
                raise SystemExit("bad op " + op)
            if to is not None:
                regs[to] = v
            if isinstance(v, bytes):
                v = v.hex()
            elif type(v).__name__ == "PyCapsule":
                v = "capsule"
            out.append(v)
        except BaseException as e:
            if isinstance(e, (SystemExit, KeyboardInterrupt)):
                raise
            if to is not None:
                regs.pop(to, None)
            out.append({"error": type(e).__name__})
    return out


for line in sys.stdin:
    sys.stdout.write(json.dumps(run(json.loads(line))) + "\n")
    sys.stdout.flush()
