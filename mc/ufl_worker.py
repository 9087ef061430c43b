"""Run in a fresh interpreter (other hash seed): rebuild every description and
print what this process observes; also load pickles written by the parent."""
import json
import pickle
import sys


def main():
    tier, path = sys.argv[1], sys.argv[2]
    from mc import uflspec
    out = []
    with open(path, "rb") as f:
        items = pickle.load(f)
    for spec, blob in items:
        e = uflspec.build(uflspec.tup(spec))
        rec = {"hash": str(hash(e)), "repr": repr(e), "str": str(e)}
        try:
            q = pickle.loads(blob)
            rec["unpickled"] = bool(q == e and e == q and hash(q) == hash(e) and repr(q) == repr(e))
        except Exception as exc:
            rec["unpickled"] = "%s: %s" % (type(exc).__name__, exc)
        out.append(rec)
    json.dump(out, sys.stdout)


if __name__ == "__main__":
    main()
