"""Whole containers: creation, complete reading, events of spec/ContainerCase.tla (C01, C08, C10, C11, C14)."""
from fmtgen import *


def b4(x):
    return list(x.to_bytes(4, "little"))


def fulls_of(d):
    return [next(i["name"] for i in d["idx"] if i["store"] == si and i["off"] == ["n", 0] and i["count"] == len(st["rows"]))
            for si, st in enumerate(d["stores"])]


EMPTY_DIR = {"vs": [], "stores": [], "idx": []}


def one_store_dir(n):
    return {"vs": ["plain"], "stores": [{"common": [["u", "id"], ["a", "name", 0, 0]], "variants": [], "sort": None,
                                         "rows": [{"v": None, "vals": {"id": u(i), "name": a(b"entry %d" % i)}} for i in range(n)]}],
            "idx": [{"name": "full0", "store": 0, "count": n, "off": ["n", 0], "key": 0}]}


def packids(case):
    if case["mode"] == "manual":
        return [p["id"] for p in case["packs"]]
    return [1] + [x["id"] for x in case.get("extra", [])]


def blank(case, norm):
    d = case["dir"]
    return {"built": False, "opened": False, "why": "", "reads": [], "packs": [], "idx": {}, "check": "", "handles": [], "addrs": [],
            "fulls": fulls_of(d), "c": {"packids": packids(case), "adds": [], "missing": [], "dedup": bool(case.get("dedup"))},
            "dir": {"stores": [{"variants": [[v[0]] for v in st["variants"]], "sort": st["sort"] or [],
                                "rows": [{"v": w["v"] or "", "vals": {k: norm(v) for k, v in w["vals"].items()}}
                                         for w in st["rows"]]} for st in d["stores"]],
                    "idx": [{"name": i["name"], "store": i["store"], "count": i["count"], "off": i["off"]} for i in d["idx"]]}}


def probes(ids, counts):
    out = []
    for p in ids:
        c = counts.get(p, 0)
        out += [[p, b4(min(x, 2**32 - 1))] for x in (c, c + 1, c + 4095, 2**31, 2**32 - 1)]
    for p in (0, 1, 2, 4, 7, 255, 256, 65535):
        if p not in ids:
            out += [[p, b4(0)]]
    return out


def counts_of(adds):
    c = {}
    for x in adds:
        c.setdefault(x["pack"], set()).add(tuple(x["addr"][1]))
    return {k: len(v) for k, v in c.items()}


def readback(pool, ev, path, case, r, timeout=120, raw=False):
    """Reads the container at path and completes the event."""
    ids = ev["c"]["packids"]
    addrs = [a["addr"] for a in ev["c"]["adds"]]
    uniq = [list(x) for x in {(x[0], tuple(x[1])) for x in addrs}]
    uniq = [[x[0], list(x[1])] for x in sorted(uniq)] + probes(ids, counts_of(ev["c"]["adds"]))
    if r is not None:
        r.shuffle(uniq)
    q = {"idx": [i["name"] for i in case["dir"]["idx"]], "addrs": uniq, "check": True}
    g = pool.one({"id": 0, "op": "dump", "path": path, "q": q}, timeout)
    if g["outcome"] != "done":
        ev["why"] = "reading: %s %s" % (g["outcome"], g.get("msg", ""))
        return ev
    d = g["res"]
    if isinstance(d, list):
        ev["why"] = "opening: %s" % d
        return ev
    ev.update(opened=True, idx=d["idx"], check=d["check"], reads=list(map(list, zip(uniq, d["contents"]))),
              packs=[[p, x] for p, x in enumerate(d["packs"]) if p > 0])
    if raw:
        return ev
    # pack id 0 is the directory in every packaging made by the creators
    for x in ev["reads"] + ev["packs"]:
        if x[1][0] == "missing":
            x[1] = ["missing"]
    return ev


class Con(Maker):
    def __init__(self, pool, root):
        super().__init__(pool, root)
        self.R = Runner(pool)

    def container(self, case, r=None, keep=False):
        f = self.folder()
        ev = blank(case, self.R.norm)
        s = self.spec(case, f)
        b = self.pool.one({"id": 0, "op": "build", "spec": s}, timeout=case.get("timeout", 150))
        if b["outcome"] == "done" and b["res"]["ok"]:
            res = b["res"]
            ev.update(built=True, handles=res["handles"], addrs=[x["addr"] for x in res["adds"]])
            ev["c"]["adds"] = [{k: x[k] for k in ("obs", "pack", "addr")} for x in res["adds"]]
            ev["prog"] = [p for p in res["prog"]] if case.get("prog") else []
            readback(self.pool, ev, s["out"], case, r)
        else:
            ev["why"] = "%s %s" % (b["outcome"], b.get("res", {}).get("err", b.get("msg", "")))
        if keep:
            ev["folder"] = f
        else:
            shutil.rmtree(f)
        return ev

    def containers(self, cases, seed=0):
        with concurrent.futures.ThreadPoolExecutor(self.pool.n) as ex:
            return list(ex.map(lambda ic: self.container(ic[1], random.Random(seed + ic[0])), enumerate(cases)))


def judge_con(chk, cases, events, tag):
    evs = [{k: v for k, v in e.items() if k not in ("prog", "folder")} for e in events]
    bad, st = tlc_cases("ContainerCase", evs, tag)
    for i in bad:
        e = events[i]
        chk.violation("%s: case %s is not read back as the logical container (built=%s opened=%s %s)" % (
            tag, cases[i].get("label", i), e["built"], e["opened"], e["why"][:200]), {"case": cases[i], "event": e})
    chk.add(states=st["distinct"], transitions=st["distinct"], traces_validated_against_impl=len(events))
    return bad
