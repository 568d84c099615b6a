"""C02: entries read back with exactly the values they were written with."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from dirgen import *

QUICK = TIER != "thorough"


def one_store(common, rows, variants=(), vs=("plain",), sort=None):
    n = len(rows)
    idx = [{"name": "full0", "store": 0, "count": n, "off": ["n", 0], "key": 0}]
    if n > 2:
        idx.append({"name": "mid", "store": 0, "count": n - 2, "off": ["n", 1], "key": 0})
        idx.append({"name": "empty", "store": 0, "count": 0, "off": ["n", n], "key": 0})
        idx.append({"name": "last", "store": 0, "count": 1, "off": ["n", n - 1], "key": 0})
    return {"vs": list(vs), "stores": [{"common": common, "variants": list(variants), "sort": sort, "rows": rows}], "idx": idx}


def rows_of(name, vals):
    return [{"v": None, "vals": {name: v}} for v in vals]


def targeted(r):
    out = []

    def add(label, d, must=True, **k):
        out.append(dict({"label": label, "dir": d, "must": must, "typed": True}, **k))

    # every integer boundary alone, with zero, and paired with its neighbours
    for x in UB:
        add("u1 %d" % x, one_store([["u", "p"]], rows_of("p", [u(x)])))
        add("u2 %d" % x, one_store([["u", "p"]], rows_of("p", [u(0), u(x), u(1)])))
    for x in SB:
        add("s1 %d" % x, one_store([["s", "p"]], rows_of("p", [s(x)])))
        add("s2 %d" % x, one_store([["s", "p"]], rows_of("p", [s(0), s(x), s(-1)])))
        add("s3 %d" % x, one_store([["s", "p"]], rows_of("p", [s(x), s(max(-2**63, -x) if x != -2**63 else 2**63 - 1)])))
    # arrays: every prefix length against every length around it
    for kind in ("plain", "indexed"):
        for f in range(0, 32):
            lens = sorted({0, 1, max(0, f - 1), f, f + 1, f + 2, 255 if f % 4 == 0 else 9, 256 if f % 4 == 0 else 10})
            add("array fixed %d %s" % (f, kind), one_store([["a", "p", f, 0], ["u", "q"]], [
                {"v": None, "vals": {"p": a(rbytes(r, n)), "q": u(i)}} for i, n in enumerate(lens)], vs=[kind]))
        # equal prefixes with different tails, equal tails with different prefixes
        add("shared %s" % kind, one_store([["a", "p", 2, 0], ["a", "q", 0, 0]], [
            {"v": None, "vals": {"p": a(b"ab" + t), "q": a(t)}} for t in (b"", b"x", b"xy", b"xyz", b"y", b"", b"x")], vs=[kind]))
        for n in (65535, 65536, 70000, 1 << 20):
            add("long %d %s" % (n, kind), one_store([["a", "p", 3, 0]], rows_of("p", [["g", ["r", n, 1]], a(b""), a(b"abcd")]), vs=[kind]))
            add("const long %d %s" % (n, kind), one_store([["a", "p", 0, 0]], rows_of("p", [["g", ["r", n, 1]]] * 3), vs=[kind]))
        # value store larger than one and two bytes of identifiers
        for cnt, ln in ((255, 1), (256, 1), (257, 2), (300, 5), (1200, 60)):
            vals = [a((i.to_bytes(2, "big") + rbytes(r, ln))[:max(ln, 2)]) for i in range(cnt)]
            add("store of %dx%d %s" % (cnt, ln, kind), one_store([["a", "p", 0, 0]], rows_of("p", vals), vs=[kind]))
            add("store of %dx%d %s+1" % (cnt, ln, kind), one_store([["a", "p", 1, 0]], rows_of("p", vals), vs=[kind]))
    # the size of the data of a plain store decides of the size of the identifiers
    for tot in (254, 255, 256, 257, 65534, 65535, 65536, 65537):
        half = tot // 2
        for kind in ("plain", "indexed"):
            add("data %d %s" % (tot, kind), one_store([["a", "p", 0, 0]], rows_of("p", [
                ["g", ["r", half, 1]], ["g", ["r", tot - half, 2]], a(b""), ["g", ["r", half, 1]]]), vs=[kind]))
    for p in (0, 1, 255, 256, 65535):
        for x in CB:
            add("content %d %d" % (p, x), one_store([["c", "p"]], rows_of("p", [c(p, x)])))
            add("content2 %d %d" % (p, x), one_store([["c", "p"]], rows_of("p", [c(p, x), c(1, 0), c(p, 1)])))
            add("content3 %d %d" % (p, x), one_store([["c", "p"]], rows_of("p", [c(p, x), c(p, 0), c(p, 1)])))
    # variants: sizes in any order, empty, padded
    for sizes in ((0, 3), (3, 0), (0, 0), (1, 17), (17, 16), (40, 0, 1), (2, 2, 2)):
        variants = [["var%d" % i, [["a", "p%d_%d" % (i, k), 1, 0] for k in range(n // 3)] + [["u", "u%d_%d" % (i, k)] for k in range(n % 3)]]
                    for i, n in enumerate(sizes)]
        rows = fill_rows(r, [["u", "c0"]], variants, 9)
        add("variants %s" % (sizes,), one_store([["u", "c0"]], rows, variants))
        rows = fill_rows(r, [], variants, 9)
        add("variants %s only" % (sizes,), one_store([], rows, variants))
    for pad in (1, 2, 15, 16):
        add("padding %d" % pad, one_store([["u", "p"], ["p", pad], ["s", "q"]], fill_rows(r, [["u", "p"], ["s", "q"]], [], 5)))
        vv = [["v0", [["p", pad], ["u", "x"]]], ["v1", [["u", "y"], ["p", pad]]], ["v2", [["p", pad]]]]
        add("variant padding %d" % pad, one_store([["u", "p"]], fill_rows(r, [["u", "p"]], vv, 9), vv))
    # many variants
    for nv in (2, 10, 60, 126):
        vv = [["n%d" % i, [["u", "x"]]] for i in range(nv)]
        rows = [{"v": "n%d" % i, "vals": {"x": u(i)}} for i in range(nv)]
        add("%d variants" % nv, one_store([], rows, vv))
    # a property of the same name in several variants, of different kinds
    vv = [["A", [["u", "x"]]], ["B", [["s", "x"]]], ["C", [["a", "x", 2, 0]]], ["D", [["c", "x"]]]]
    add("same name", one_store([], [{"v": "A", "vals": {"x": u(300)}}, {"v": "B", "vals": {"x": s(-300)}},
                                    {"v": "C", "vals": {"x": a(b"hello")}}, {"v": "D", "vals": {"x": c(2, 70000)}},
                                    {"v": "B", "vals": {"x": s(7)}}, {"v": "A", "vals": {"x": u(0)}}], vv))
    # names
    add("long names", one_store([["u", "p" * 255], ["u", "é" * 100]], [{"v": None, "vals": {"p" * 255: u(1), "é" * 100: u(2)}}]))
    # contents really in the container
    add("local contents", one_store([["c", "p"], ["u", "q"]], [{"v": None, "vals": {"p": ["lc", i], "q": u(i)}} for i in (2, 0, 1, 1)]),
        contents=[{"g": ["t", 50 * i + 1, i], "hint": "d"} for i in range(3)])
    # several entry stores sharing value stores
    d = one_store([["a", "p", 1, 0], ["a", "q", 0, 1]], [{"v": None, "vals": {"p": a(b"abc%d" % i), "q": a(b"z%d" % i)}} for i in range(5)],
                  vs=["plain", "indexed"])
    d["stores"].append({"common": [["a", "x", 0, 1], ["a", "y", 2, 0]], "variants": [], "sort": None,
                        "rows": [{"v": None, "vals": {"x": a(b"z%d" % i), "y": a(b"abc%d" % i)}} for i in range(7)]})
    d["idx"].append({"name": "full1", "store": 1, "count": 7, "off": ["n", 0], "key": 0})
    add("two stores", d)
    # many rows
    n = 1500
    add("many rows", one_store([["u", "p"], ["a", "q", 2, 0]], [{"v": None, "vals": {"p": u(i * i), "q": a(b"%d" % (i % 700))}} for i in range(n)]))
    return out


def limits(r):
    """What may not be representable: creation fails, or everything reads back exactly."""
    out = []

    def add(label, d):
        out.append({"label": "limit " + label, "dir": d, "must": False, "typed": True})

    for f in (32, 33, 40, 63, 64, 96, 128, 255):
        add("fixed %d" % f, one_store([["a", "p", f, 0]], rows_of("p", [a(rbytes(r, n)) for n in (0, 5, f, f + 3)])))
        add("fixed %d one" % f, one_store([["a", "p", f, 0], ["u", "q"]], [{"v": None, "vals": {"p": a(rbytes(r, f)), "q": u(9)}}]))
    for p in (0, 17, 18, 32, 33, 48, 64, 81, 128, 129, 144, 255):
        add("padding %d" % p, one_store([["u", "p"], ["p", p], ["u", "q"]], [{"v": None, "vals": {"p": u(i), "q": u(7 * i)}} for i in range(3)]))
        add("padding %d variant" % p, one_store([], [{"v": "A", "vals": {"q": u(7 * i)}} for i in range(3)] + [{"v": "B", "vals": {}}],
                                                [["A", [["p", p], ["u", "q"]]], ["B", []]]))
    for n in (256, 257, 300, 511, 512, 70000):
        add("name of %d" % n, one_store([["u", "p" * n], ["u", "q"]], [{"v": None, "vals": {"p" * n: u(1), "q": u(2)}}]))
        vv = [["v" * n, [["u", "x"]]], ["w", []]]
        add("variant name of %d" % n, one_store([["u", "q"]], [{"v": "v" * n, "vals": {"q": u(1), "x": u(2)}}, {"v": "w", "vals": {"q": u(5)}}], vv))
        d = one_store([["u", "q"]], rows_of("q", [u(4), u(8)]))
        d["idx"].append({"name": "i" * n, "store": 0, "count": 1, "off": ["n", 1], "key": 0})
        add("index name of %d" % n, d)
    for n in (253, 254, 255, 256, 257, 300):
        add("%d properties" % n, one_store([["u", "p%d" % i] for i in range(n)], [{"v": None, "vals": {"p%d" % i: u(i) for i in range(n)}}]))
        add("%d value stores" % n, one_store([["a", "p", 0, n - 1], ["a", "q", 0, 0]], [{"v": None, "vals": {"p": a(b"last"), "q": a(b"first")}},
                                                                                       {"v": None, "vals": {"p": a(b"x"), "q": a(b"")}}], vs=["plain"] * n))
    for n in (127, 128, 129, 200, 254, 255, 256, 257, 300):
        vv = [["n%d" % i, []] for i in range(n)]
        add("%d variants" % n, one_store([["u", "q"]], [{"v": "n%d" % i, "vals": {"q": u(i)}} for i in range(n)], vv))
    # long property names: the description of the store goes over 64 KiB
    for cnt, ln in ((250, 255), (250, 200), (255, 255)):
        names = [("%03d" % i) + "n" * (ln - 3) for i in range(cnt)]
        add("description %dx%d" % (cnt, ln), one_store([["u", x] for x in names], [{"v": None, "vals": {x: u(i) for i, x in enumerate(names)}}]))
    # indexed value store with many values: its tail goes over 64 KiB
    for cnt in (20000, 33000, 70000):
        d = one_store([["a", "p", 0, 0]], rows_of("p", [a(i.to_bytes(3, "big")) for i in range(cnt)]), vs=["indexed"])
        d["idx"] = d["idx"][:1]
        if cnt == 70000 and QUICK:
            continue
        out.append({"label": "limit indexed store of %d" % cnt, "dir": d, "must": False})
    for big in (1 << 24) - 1, 1 << 24, (1 << 24) + 5:
        for f in (0, 2):
            for kind in ("plain", "indexed"):
                add("array of %d fixed %d %s" % (big, f, kind), one_store([["a", "p", f, 0], ["u", "q"]], [
                    {"v": None, "vals": {"p": ["g", ["z", big, 0]], "q": u(3)}}, {"v": None, "vals": {"p": a(b"abc"), "q": u(4)}}], vs=[kind]))
    # values of the wrong kind
    for k, v in (("u", s(-1)), ("s", u(2**63)), ("u", a(b"x")), ("a", u(3)), ("c", u(3)), ("s", s(-5)), ("u", c(1, 1))):
        p = [k, "p"] + ([0, 0] if k == "a" else [])
        add("kind %s %s" % (k, v[0]), one_store([p], rows_of("p", [v, v])))
        if k == "a":
            add("kind a2 %s" % v[0], one_store([["a", "p", 3, 0], ["u", "q"]], [{"v": None, "vals": {"p": v, "q": u(1)}}]))
    # a missing value
    add("missing value", one_store([["u", "p"], ["u", "q"]], [{"v": None, "vals": {"p": u(1)}}]))
    return out


def run(chk):
    model(chk, "DirCodec", "DirCodec.cfg")
    model(chk, "DirCodec", "DirCodec3.cfg")
    r = random.Random(SEED * 1000 + 2)
    b = build()
    nrand = 2500 if QUICK else 40000
    with Scratch("c02") as d, Pool(b, d) as p:
        R = Runner(p)
        cases = targeted(r) + [{"label": "random %d" % i, "dir": rand_dir(r), "must": True, "typed": True} for i in range(nrand)]
        go(chk, R, cases, "c02")
        lim = limits(r)
        go(chk, R, lim, "c02-limits")
    rb = build("release")
    with Scratch("c02r") as d, Pool(rb, d) as p:
        go(chk, Runner(p), lim, "c02-limits-release")
        go(chk, Runner(p), targeted(r), "c02-release")
    chk.add(random_cases=nrand, limit_cases=2 * len(lim))


def go(chk, R, cases, tag):
    for k in range(0, len(cases), 4000):
        part = cases[k:k + 4000]
        ev = R.events(part)
        judge(chk, "C02", part, ev, tag)
        for cse, e in list(zip(part, ev))[:2]:
            chk.sample({"case": cse.get("label"), "built": e["built"], "indexes": len(e["idx"])})
        if tag.startswith("c02-limits"):
            log(tag, "refused:", sum(1 for e in ev if not e["built"]), "of", len(ev))


if __name__ == "__main__":
    main(run, "C02", "model_checking")
