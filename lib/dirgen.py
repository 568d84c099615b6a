"""Directories: generators, execution on the real code, events for spec/DirCase.tla (C02, C03, C15)."""
import random
from vrun import *


def u(x):
    return ["u", list(x.to_bytes(8, "little"))]


def s(x):
    return ["s", list(x.to_bytes(8, "little", signed=True))]


def a(b):
    return ["a", list(b)]


def c(pack, cid):
    return ["c", pack, list(cid.to_bytes(4, "little"))]


UB = sorted({max(0, min(2**64 - 1, 2**(8 * w) + d)) for w in range(0, 9) for d in (-2, -1, 0, 1)} |
            {2**(8 * w - 1) + d for w in range(1, 9) for d in (-1, 0)} | {0, 1, 100})
SB = sorted({max(-2**63, min(2**63 - 1, sg * 2**(8 * w - 1) + d)) for w in range(1, 9) for d in (-2, -1, 0, 1) for sg in (1, -1)} |
            {max(-2**63, min(2**63 - 1, sg * 2**(8 * w) + d)) for w in range(1, 9) for d in (-1, 0) for sg in (1, -1)} | {0, 1, -1})
CB = [0, 1, 255, 256, 65535, 65536, 2**24 - 1, 2**24, 2**32 - 1]
LB = [0, 1, 2, 3, 4, 7, 30, 31, 32, 33, 254, 255, 256, 257, 1000]


def rbytes(r, n, alphabet=None):
    if alphabet:
        return bytes(r.choice(alphabet) for _ in range(n))
    return r.randbytes(n)


def column(r, kind, n, fixed=0, ids=False):
    """n values of one property. Several strategies, boundary heavy."""
    if kind in "us":
        B, mkv = (UB, u) if kind == "u" else (SB, s)
        st = r.randrange(6)
        if st == 0:
            v = r.choice(B)
            return [mkv(v)] * n
        if st == 1:
            # one extreme value decides of the width
            big, small = r.choice(B), r.choice([0, 1])
            k = r.randrange(n) if n else 0
            return [mkv(big if i == k else small) for i in range(n)]
        if st == 2:
            w = r.randrange(1, 65)
            lo, hi = (0, 2**w - 1) if kind == "u" else (-2**(w - 1), 2**(w - 1) - 1)
            return [mkv(r.randint(lo, hi)) for _ in range(n)]
        if st == 3:
            lo, hi = r.sample(B, 2)
            return [mkv(r.choice([lo, hi])) for _ in range(n)]
        if st == 4 and kind == "s":
            return [mkv(-abs(r.choice(B)) if r.randrange(2) else r.choice([0, -1])) if True else None for _ in range(n)]
        return [mkv(r.choice(B)) for _ in range(n)]
    if kind == "a":
        st = r.randrange(7)
        if st == 0:
            v = a(rbytes(r, r.choice(LB)))
            return [v] * n
        if st == 1:
            L = r.choice(LB[:8])
            return [a(rbytes(r, L)) for _ in range(n)]
        if st == 2:
            p = rbytes(r, fixed, b"ab")
            return [a(p + rbytes(r, r.randrange(0, 4), b"ab")) for _ in range(n)]
        if st == 3:
            return [a(rbytes(r, max(0, fixed + r.choice([-1, 0, 1, 2])), b"\x00\xff")) for _ in range(n)]
        if st == 4:
            k = r.randrange(n) if n else 0
            big = r.choice([255, 256, 257, 1400, 65535, 65536, 70000])
            return [["g", ["r", big, r.randrange(1 << 20)]] if (i == k and big > 1400) else
                    a(rbytes(r, big if i == k else r.randrange(3))) for i in range(n)]
        if st == 5:
            return [a(b"") for _ in range(n)]
        return [a(rbytes(r, r.choice(LB))) for _ in range(n)]
    if kind == "c":
        st = r.randrange(4)
        if st == 0:
            p = r.choice([0, 1, 255, 256, 65535])
            return [c(p, r.choice(CB)) for _ in range(n)]
        if st == 1:
            p, x = r.choice([0, 1, 255, 256, 65535]), r.choice(CB)
            return [c(p, x)] * n
        if st == 2:
            return [c(r.choice([1, 2, 255]), r.randrange(300)) for _ in range(n)]
        return [c(r.choice([0, 1, 254, 255, 256, 257, 65535]), r.choice(CB)) for _ in range(n)]
    raise ToolError(kind)


def rand_props(r, prefix, nvs, n, allow_pad=True):
    out = []
    for i in range(n):
        k = r.choice("uuussaaac" + ("p" if allow_pad else ""))
        if k == "p":
            out.append(["p", r.choice([1, 2, 7, 16])])
        elif k == "a":
            out.append(["a", "%s%d" % (prefix, i), r.choice([0, 0, 1, 2, 3, 5, 8, 31]), r.randrange(nvs)])
        else:
            out.append([k, "%s%d" % (prefix, i)])
    return out


def windows(r, n, name, store, idx):
    """Indexes on a store of n rows, the first one covers it."""
    idx.append({"name": name, "store": store, "count": n, "off": ["n", 0], "key": 0})
    for k in range(r.randrange(1, 4)):
        off = r.randint(0, n)
        idx.append({"name": "%s.%d" % (name, k), "store": store, "count": r.randint(0, n - off), "off": ["n", off],
                    "key": 0})


def rand_dir(r, nrows=None, sort=False):
    """A random directory, no reference."""
    vs = [r.choice(["plain", "indexed"]) for _ in range(r.randrange(1, 4))]
    stores, idx = [], []
    for si in range(r.choice([1, 1, 2, 3])):
        common = rand_props(r, "c", len(vs), r.randrange(0, 5))
        variants = []
        if r.randrange(2):
            for v in range(r.choice([1, 2, 3, 4])):
                variants.append(["var%d" % v, rand_props(r, "v%d_" % v, len(vs), r.choice([0, 1, 2, 3]))])
        if not common and not variants:
            common = [["u", "c0"]]
        n = nrows if nrows is not None else r.choice([0, 1, 1, 2, 3, 5, 8, 20])
        rows = fill_rows(r, common, variants, n)
        stores.append({"common": common, "variants": variants, "sort": None, "rows": rows})
        windows(r, n, "full%d" % si, si, idx)
    return {"vs": vs, "stores": stores, "idx": idx}


def fill_rows(r, common, variants, n):
    cols = {p[1]: column(r, p[0], n, p[2] if p[0] == "a" else 0) for p in common if p[0] != "p"}
    vcols = [{p[1]: column(r, p[0], n, p[2] if p[0] == "a" else 0) for p in v[1] if p[0] != "p"} for v in variants]
    rows = []
    for i in range(n):
        vals = {k: col[i] for k, col in cols.items()}
        vn = None
        if variants:
            vi = r.randrange(len(variants))
            vn = variants[vi][0]
            vals.update({k: col[i] for k, col in vcols[vi].items()})
        rows.append({"v": vn, "vals": vals})
    return rows


# ------------------------------------------------------------------ execution
def harness_dir(d):
    idx = []
    for i in d["idx"]:
        j = dict(i)
        j["off"] = i["off"][1] if i["off"][0] == "n" else ["ref", i["off"][1], i["off"][2]]
        idx.append(j)
    return {"vs": d["vs"], "stores": d["stores"], "idx": idx}


class Runner:
    def __init__(self, pool):
        self.pool = pool
        self.cache = {}

    def norm(self, v):
        if v[0] != "g":
            return v
        k = json.dumps(v[1])
        if k not in self.cache:
            self.cache[k] = self.pool.one({"id": 0, "op": "arrobs", "g": v[1]})["res"]
        return self.cache[k]

    def event(self, case):
        """case: {"dir", "must", "contents", "finds": [{"idx","q":[{k,vals,sorted}]}], "typed"} -> event"""
        d = case["dir"]
        spec = {"mode": "one", "comp": ["none"], "contents": case.get("contents", []), "dir": harness_dir(d)}
        q = {"idx": [i["name"] for i in d["idx"]], "typed": case.get("typed", False), "check": False,
             "finds": {f["idx"]: f["q"] for f in case.get("finds", [])}}
        r = self.pool.one({"id": 0, "op": "dircase", "spec": spec, "q": q})
        res = r.get("res") or {"built": r.get("outcome") == "done" or False, "why": r["outcome"]}
        if r["outcome"] in ("crash", "hang"):
            # neither a result nor an error
            res = {"built": True, "dumped": False}
        dump = res.get("dump") if res.get("dumped") else {}
        finds = []
        for f in case.get("finds", []):
            got = dump.get("finds", {}).get(f["idx"], [])
            qs = []
            for i, qq in enumerate(f["q"]):
                g = got[i] if i < len(got) else {"lin": -2, "bin": -2, "def": -2}
                qs.append({"k": qq["k"], "vals": [self.norm(v) for v in qq["vals"]], "lin": g["lin"],
                           "bin": g["bin"] if qq.get("sorted", True) else -9, "def": g["def"]})
            finds.append({"idx": f["idx"], "q": qs})
        fulls = []
        for si in range(len(d["stores"])):
            fulls.append(next(i["name"] for i in d["idx"] if i["store"] == si and i["off"] == ["n", 0] and
                              i["count"] == len(d["stores"][si]["rows"])))
        ev = {"must": case["must"], "built": res["built"], "dumped": bool(res.get("dumped")), "why": res.get("why") or "",
              "addrs": [x["addr"] for x in res.get("adds", [])], "handles": res.get("handles", []), "fulls": fulls,
              "idx": dump.get("idx", {}), "typed": dump.get("typed", {}), "finds": finds if res.get("dumped") else [],
              "dir": {"stores": [{"variants": [[v[0]] for v in st["variants"]], "sort": st["sort"] or [],
                                  "rows": [{"v": w["v"] or "", "vals": {k: self.norm(v) for k, v in w["vals"].items()}}
                                           for w in st["rows"]]} for st in d["stores"]],
                      "idx": [{"name": i["name"], "store": i["store"], "count": i["count"], "off": i["off"]} for i in d["idx"]]}}
        return ev

    def events(self, cases):
        with concurrent.futures.ThreadPoolExecutor(self.pool.n) as ex:
            return list(ex.map(self.event, cases))


def judge(chk, prop, cases, events, tag):
    """TLC's verdict; reports violations."""
    os.environ["PROP"] = prop
    bad, st = tlc_cases("DirCase", events, tag)
    for i in bad:
        e = events[i]
        chk.violation("%s: case %s is not a behaviour of the directory model (built=%s dumped=%s why=%s)" % (
            tag, cases[i].get("label", i), e["built"], e["dumped"], e["why"][:200]), {"case": cases[i], "event": e})
    chk.add(states=st["distinct"], transitions=st["distinct"], traces_validated_against_impl=len(events))
    return bad
