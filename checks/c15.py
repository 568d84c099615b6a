"""C15: references between entries resolve to the final position of the referenced entry."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from dirgen import *

QUICK = TIER != "thorough"
MODES = {"r": ["r"], "c": ["k"], "cr": ["k", "r"], "rc": ["r", "k"], "none": None}


def from_model(m):
    """A terminal state of DirSort as a directory."""
    n1, n2 = m["n1"], m["n2"]
    where = lambda x: (0, x - 1) if x <= n1 else (1, x - n1 - 1)
    stores, idx = [], []
    for si, (lo, n) in enumerate(((1, n1), (n1 + 1, n2))):
        if n == 0:
            continue
        rows = []
        for x in range(lo, lo + n):
            t = where(m["ref"][x - 1])
            rows.append({"v": None, "vals": {"k": u(m["plain"][x - 1]), "r": ["ref", t[0], t[1]], "id": u(x)}})
        stores.append({"common": [["u", "k"], ["u", "r"], ["u", "id"]], "variants": [], "sort": MODES[m["mode"][si]], "rows": rows})
        idx.append({"name": "full%d" % si, "store": si, "count": n, "off": ["n", 0], "key": 0})
        idx.append({"name": "at%d" % si, "store": si, "count": 1, "off": ["ref", si, n // 2], "key": 0})
        # the offset of an index is a bound position too
    for i in idx:
        if i["name"].startswith("at"):
            i["count"] = 1
    return {"label": "model %s" % json.dumps(m), "must": m["ok"], "dir": {"vs": [], "stores": stores, "idx": idx}}


def random_refs(r, sizes, keyed):
    """Several stores, references anywhere. `keyed`: "plain" sorts on plain keys (any pattern has an order),
    "forest" sorts a store on the position of the parent, a forest (with self references as roots)."""
    ns = len(sizes)
    vs = [r.choice(["plain", "indexed"])]
    stores, idx = [], []
    for si, n in enumerate(sizes):
        kind = r.choice("usa")
        sort = ["k"] if r.randrange(3) else None
        two = bool(r.randrange(2))
        forest = keyed == "forest" and si == 0
        variants = [["A", [["u", "va"], ["s", "sv"]]], ["B", [["u", "vb"]]]] if r.randrange(3) == 0 else []
        common = [["u", "r"], ["a", "k", r.choice([0, 1, 3]), 0] if kind == "a" else [kind, "k"], ["u", "id"]]
        if two:
            common.append(["u", "r2"])
        if forest:
            common.append(["u", "parent"])
            sort = r.choice([["parent"], ["parent", "k"]])
        rows = []
        span = r.choice([2, 5, 300, 70000])
        pat = r.randrange(5)
        for x in range(n):
            v = r.randrange(span)
            if pat == 0:
                v = n - x
            if pat == 1:
                v = x
            key = u(v) if kind == "u" else s(v - span // 2) if kind == "s" else a(b"%05d" % v if r.randrange(2) else b"%d" % v)
            t = r.randrange(ns)
            q = r.choice(["last", "any", "self", "first"])
            row = {"last": sizes[t] - 1, "first": 0, "self": x if t == si else 0, "any": r.randrange(sizes[t])}[q]
            vals = {"k": key, "r": [r.choice(["ref", "wref"]), t, row], "id": u(x)}
            if two:
                t2 = r.randrange(ns)
                vals["r2"] = ["ref", t2, r.randrange(sizes[t2])]
            if forest:
                # the parent of x is any earlier row (or itself)
                pr = x if x == 0 or r.randrange(8) == 0 else r.randrange(max(0, x - 30), x)
                vals["parent"] = ["ref", 0, pr]
            vn = None
            if variants:
                vn = r.choice("AB")
                t3 = r.randrange(ns)
                y = r.randrange(sizes[t3])
                vals.update({"va": ["ref", t3, y], "sv": ["sref", t3, y]} if vn == "A" else {"vb": ["wref", t3, y]})
            rows.append({"v": vn, "vals": vals})
        if forest:
            # shuffle the insertion order: parents may come after their children
            perm = list(range(n))
            r.shuffle(perm)
            inv = {old: new for new, old in enumerate(perm)}
            rows = [rows[old] for old in perm]
            stores_remap = inv
        stores.append({"common": common, "variants": variants, "sort": sort, "rows": rows})
        if forest:
            remap0 = stores_remap
        idx.append({"name": "full%d" % si, "store": si, "count": n, "off": ["n", 0], "key": 0})
        for k in range(2):
            idx.append({"name": "at%d.%d" % (si, k), "store": si, "count": 0, "off": ["ref", si, r.randrange(n)], "key": 0})
    if keyed == "forest":
        for st in stores:
            for w in st["rows"]:
                for k, v in w["vals"].items():
                    if v[0] in ("ref", "wref", "sref") and v[1] == 0:
                        w["vals"][k] = [v[0], 0, remap0[v[2]]]
    return {"label": "random %s %s" % (keyed, sizes), "must": True, "dir": {"vs": vs, "stores": stores, "idx": idx}}


def run(chk):
    model(chk, "DirSort", "DirSort_B.cfg")
    model(chk, "DirSort", "DirSort_C.cfg")
    model(chk, "DirSort", "DirSort_E.cfg")
    r = random.Random(SEED * 1000 + 15)
    b = build()
    ms = []
    for cfg in ("DirSort_A_emit.cfg", "DirSort_D_emit.cfg", "DirSort_F_emit.cfg"):
        cs, res = tlc_emit("DirSort", cfg)
        chk.add(states=res["distinct"], transitions=res["states"], models_checked=1)
        log(cfg, len(cs), "terminal states, not arranged:", sum(1 for x in cs if not x["ok"]))
        if QUICK and len(cs) > 3000:
            # keep every kind: those the loop cannot arrange are few to need
            cs = r.sample(cs, 3000)
        ms += cs
    with Scratch("c15") as d, Pool(b, d) as p:
        R = Runner(p)
        cases = [from_model(m) for m in ms]
        k = 1 if QUICK else 12
        for _ in range(200 * k):
            cases.append(random_refs(r, [r.choice([1, 2, 5, 9]) for _ in range(r.choice([1, 2, 3]))], "plain"))
        for _ in range(60 * k):
            cases.append(random_refs(r, [r.choice([1, 3, 20, 60]) for _ in range(r.choice([1, 2]))], "forest"))
        # positions over one byte: the size of the property depends on the final positions
        for _ in range(40 * k):
            cases.append(random_refs(r, [r.choice([255, 256, 257, 300, 400]), r.choice([2, 255, 256, 257, 300])], r.choice(["plain", "forest"])))
        for _ in range(8 * k):
            cases.append(random_refs(r, [r.choice([2, 10]), 3000], "plain"))
        if not QUICK:
            cases.append(random_refs(r, [10, 66000], "plain"))
        for i in range(0, len(cases), 4000):
            part = cases[i:i + 4000]
            ev = R.events(part)
            judge(chk, "C15", part, ev, "c15")
            for cse, e in list(zip(part, ev))[-2:]:
                chk.sample({"case": cse["label"][:200], "built": e["built"]})
    chk.add(model_patterns_replayed=len(ms), random_patterns=len(cases) - len(ms))


if __name__ == "__main__":
    main(run, "C15", "model_checking")
