import sys, json
import rustsat
from rustsat import Lit, Clause, Cnf, VarManager
from rustsat.encodings.am1 import Bimander, Bitwise, Commander, Ladder, Pairwise
from rustsat.encodings.card import Totalizer
from rustsat.encodings.pb import GeneralizedTotalizer, DynamicPolyWatchdog, BinaryAdder

CLS = {c.__name__: c for c in [Lit, Clause, Cnf, VarManager, Bimander, Bitwise, Commander, Ladder, Pairwise, Totalizer, GeneralizedTotalizer, DynamicPolyWatchdog, BinaryAdder]}

def dec(a, v):
    if isinstance(a, list):
        return [dec(x, v) for x in a]
    if isinstance(a, dict):
        if "l" in a:
            return Lit(a["l"])
        if "c" in a:
            return Clause([Lit(x) for x in a["c"]])
        if "v" in a:
            return v[a["v"]]
        if "s" in a:
            return slice(*a["s"])
        if "t" in a:
            return tuple(dec(x, v) for x in a["t"])
    return a

def out(r):
    if isinstance(r, Lit):
        return {"l": r.to_ipasir()}
    if isinstance(r, Clause):
        return {"c": [x.to_ipasir() for x in r]}
    if isinstance(r, Cnf):
        return {"f": [[x.to_ipasir() for x in c] for c in r]}
    if isinstance(r, (list, tuple)):
        return [out(x) for x in r]
    if r is None or isinstance(r, (bool, int, str)):
        return r
    return {"o": type(r).__name__}

OPS = {
    "neg": lambda a: -a,
    "eq": lambda a, b: a == b,
    "ne": lambda a, b: a != b,
    "lt": lambda a, b: a < b,
    "le": lambda a, b: a <= b,
    "gt": lambda a, b: a > b,
    "ge": lambda a, b: a >= b,
    "hasheq": lambda a, b: hash(a) == hash(b),
    "len": lambda a: len(a),
    "str": lambda a: str(a),
    "repr": lambda a: repr(a),
    "get": lambda a, i: a[i],
    "list": lambda a: list(a),
    "iter": lambda a: iter(a),
    "iteriter": lambda a: iter(a) is a,
    "next": lambda a: next(a),
    "in": lambda a, b: b in a,
    "rev": lambda a: list(reversed(a)),
    "index": lambda a, b: [i for i in range(len(a)) if a[i] == b],
    "unpack": lambda a: (lambda *x: list(x))(*a),
}

for line in sys.stdin:
    v, res = {}, []
    for st in json.loads(line):
        try:
            kind, dst, name, args, kw = st
            a = [dec(x, v) for x in args]
            k = {x: dec(y, v) for x, y in kw.items()}
            if kind == "new":
                r = CLS[name](*a, **k)
            elif kind == "op":
                r = OPS[name](*a)
            else:
                r = getattr(a[0], name)(*a[1:], **k)
            if dst is not None:
                v[dst] = r
            res.append({"ok": out(r)})
        except BaseException as e:
            res.append({"exc": type(e).__name__, "msg": str(e)})
    sys.stdout.write(json.dumps(res) + "\n")
    sys.stdout.flush()
