"""C03: sorted stores follow the reader's order; lookup finds exactly what was written."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from dirgen import *

QUICK = TIER != "thorough"


def key_pool(r, kind, fixed):
    """A pool of key values which are hard to order."""
    st = r.randrange(6)
    if kind == "u":
        if st == 0:
            return [u(x) for x in UB]
        if st == 1:
            w = r.randrange(1, 8)
            return [u(x) for x in (0, 1, 255, 256, 2**(8 * w) - 1, 2**(8 * w), 2**(8 * w) + 1, 2**(8 * w - 1))]
        if st == 2:
            return [u(r.randrange(8)) for _ in range(8)]
        return [u(r.randrange(2**r.randrange(1, 65))) for _ in range(40)]
    if kind == "s":
        if st == 0:
            return [s(x) for x in SB]
        if st == 1:
            return [s(x) for x in range(-5, 6)]
        w = r.randrange(1, 64)
        return [s(r.randint(-2**w, 2**w - 1)) for _ in range(40)]
    # arrays
    if st == 0:
        alph = r.choice([b"ab", b"\x00\x01", b"\x00\xff", b"\x7f\x80"])
        return [a(rbytes(r, r.randrange(0, fixed + 4), alph)) for _ in range(40)]
    if st == 1:
        p = rbytes(r, fixed, b"\x00a")
        return [a(p[:k]) for k in range(fixed + 1)] + [a(p + rbytes(r, k, b"\x00a")) for k in range(0, 5)] + \
               [a(p[:max(0, fixed - 1)] + b"\xff"), a(p + b"\xff" * 3), a(b""), a(b"\x00"), a(b"\x00\x00")]
    if st == 2:
        return [a(b"x" * k) for k in list(range(0, fixed + 4)) + [254, 255, 256, 257, 300]]
    if st == 3:
        # same inline prefix, tails of the value store in every order
        p = rbytes(r, fixed)
        return [a(p + bytes([k]) * n) for k in (0, 1, 127, 128, 255) for n in (0, 1, 2, 3)]
    if st == 4:
        return [a(("%d" % (r.randrange(1000))).encode()) for _ in range(40)]
    return [a(rbytes(r, r.randrange(0, 40))) for _ in range(40)]


def near(r, v):
    """Keys close to v."""
    if v[0] == "u":
        x = int.from_bytes(bytes(v[1]), "little")
        return [u(y) for y in (x - 1, x + 1, x ^ 0x100, x << 8 & (2**64 - 1), x >> 8) if 0 <= y < 2**64]
    if v[0] == "s":
        x = int.from_bytes(bytes(v[1]), "little", signed=True)
        return [s(y) for y in (x - 1, x + 1, -x, x ^ 0x80) if -2**63 <= y < 2**63]
    b = bytes(v[1])
    out = [b + b"\x00", b + b"\xff", b[:-1], b[1:], b + b]
    if b:
        out += [b[:-1] + bytes([b[-1] ^ 1]), bytes([b[0] ^ 0x80]) + b[1:], b[:len(b) // 2]]
    return [a(x) for x in out if len(x) <= 1400]


def sorted_case(r, n):
    vs = [r.choice(["plain", "indexed"]) for _ in range(2)]
    nk = r.choice([1, 1, 1, 2, 3])
    kinds = [r.choice("uusaaa") for _ in range(nk)]
    common, keys, pools = [], [], []
    order = list(range(nk))
    for i, k in enumerate(kinds):
        f = r.choice([0, 0, 1, 2, 3, 4, 8, 31])
        name = "k%d" % i
        common.append([k, name, f, r.randrange(2)] if k == "a" else [k, name])
        keys.append(name)
        pool = key_pool(r, k, f)
        if nk > 1:
            pool = pool[:r.choice([2, 3, 5, 40])]
        pools.append(pool)
    common.append(["u", "id"])
    extra = rand_props(r, "x", 2, r.randrange(0, 2))
    common += extra
    variants = []
    if r.randrange(4) == 0:
        variants = [["A", [["u", "va"]]], ["B", []]]
    r.shuffle(common)
    r.shuffle(order)
    sort = [keys[i] for i in order]
    uniq = r.randrange(2)
    rows, seen = [], set()
    for i in range(n):
        ks = [r.choice(p) for p in pools]
        if uniq and json.dumps(ks) in seen:
            continue
        seen.add(json.dumps(ks))
        vals = {"k%d" % j: v for j, v in enumerate(ks)}
        vals["id"] = u(i)
        for p in extra:
            if p[0] != "p":
                vals[p[1]] = column(r, p[0], 1, 0)[0]
        vn = None
        if variants:
            vn = r.choice("AB")
            if vn == "A":
                vals["va"] = u(r.randrange(300))
        rows.append({"v": vn, "vals": vals})
    n = len(rows)
    idx = []
    windows(r, n, "full0", 0, idx)
    finds = []
    for ix in idx:
        q = []
        targets = rows if len(rows) <= 12 else r.sample(rows, 12)
        for w in targets:
            for m in range(1, len(sort) + 1):
                ks = sort[:m]
                vals = [w["vals"][k] for k in ks]
                q.append({"k": ks, "vals": vals, "sorted": True})
                alt = near(r, vals[-1])
                for v in r.sample(alt, min(2, len(alt))):
                    q.append({"k": ks, "vals": vals[:-1] + [v], "sorted": True})
            q.append({"k": ["id"], "vals": [w["vals"]["id"]], "sorted": False})
        for _ in range(3):
            vals = [r.choice(pools[i]) for i in order]
            q.append({"k": sort, "vals": vals, "sorted": True})
        finds.append({"idx": ix["name"], "q": q})
    return {"label": "sorted %s %s %d" % (",".join(kinds[i] for i in order), vs, n), "must": True, "finds": finds,
            "dir": {"vs": vs, "stores": [{"common": common, "variants": variants, "sort": sort, "rows": rows}], "idx": idx}}


def unsorted_case(r, n):
    """Linear search in a store which is not sorted."""
    x = sorted_case(r, n)
    x["dir"]["stores"][0]["sort"] = None
    for f in x["finds"]:
        for q in f["q"]:
            q["sorted"] = False
    x["label"] = "un" + x["label"]
    return x


def several(r):
    """Several stores, sharing value stores, some sorted."""
    x = sorted_case(r, r.randrange(2, 25))
    y = sorted_case(r, r.randrange(2, 25))
    d, e = x["dir"], y["dir"]
    d["stores"].append(e["stores"][0])
    for i in e["idx"]:
        d["idx"].append(dict(i, name=i["name"] + "b", store=1))
    for f in y["finds"]:
        x["finds"].append({"idx": f["idx"] + "b", "q": f["q"]})
    x["label"] = "several " + x["label"]
    return x


def small_exhaustive(r):
    """Every store of at most 3 keys over a small set of strings, every prefix length, both kinds of value store."""
    import itertools
    S = [b"", b"a", b"b", b"aa", b"ab", b"ba", b"aba"]
    out = []
    for kind in ("plain", "indexed"):
        for f in (0, 1, 2):
            for rows in list(itertools.product(S, repeat=2)) + r.sample(list(itertools.product(S, repeat=3)), 40 if QUICK else 343):
                rr = [{"v": None, "vals": {"k": a(k), "id": u(i)}} for i, k in enumerate(rows)]
                out.append({"label": "small %s %d %s" % (kind, f, rows), "must": True,
                            "finds": [{"idx": "full0", "q": [{"k": ["k"], "vals": [a(x)], "sorted": True} for x in S]}],
                            "dir": {"vs": [kind], "stores": [{"common": [["a", "k", f, 0], ["u", "id"]], "variants": [], "sort": ["k"], "rows": rr}],
                                    "idx": [{"name": "full0", "store": 0, "count": len(rr), "off": ["n", 0], "key": 0}]}})
    return out


def run(chk):
    model(chk, "DirFind", "DirFind.cfg")
    model(chk, "DirCodec", "DirCodec.cfg")
    model(chk, "DirSort", "DirSort_C.cfg")
    r = random.Random(SEED * 1000 + 3)
    b = build()
    with Scratch("c03") as d, Pool(b, d) as p:
        R = Runner(p)
        cases = small_exhaustive(r)
        k = 1 if QUICK else 12
        cases += [sorted_case(r, r.choice([1, 2, 3, 5, 8, 13, 30])) for _ in range(900 * k)]
        cases += [unsorted_case(r, r.choice([1, 2, 5, 13])) for _ in range(150 * k)]
        cases += [several(r) for _ in range(200 * k)]
        # parallel sort and wide identifiers need larger stores
        cases += [sorted_case(r, r.choice([200, 400])) for _ in range(30 * k)]
        cases += [sorted_case(r, 3000) for _ in range(1 if QUICK else 6)]
        nq = 0
        for i in range(0, len(cases), 3000):
            part = cases[i:i + 3000]
            ev = R.events(part)
            judge(chk, "C03", part, ev, "c03")
            nq += sum(len(f["q"]) for e in ev for f in e["finds"])
            for cse, e in list(zip(part, ev))[-2:]:
                chk.sample({"case": cse["label"], "queries": sum(len(f["q"]) for f in e["finds"])})
        chk.add(stores=len(cases), lookups=nq)


if __name__ == "__main__":
    main(run, "C03", "model_checking")
