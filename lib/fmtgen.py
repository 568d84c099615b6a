"""Containers written by the real creator, as events of spec/FormatCase.tla (C14, C16)."""
import threading
from dirgen import *
import jbkfile

ALG = {"none": 0, "lz4": 1, "lzma": 2, "zstd": 3}
COMPS = [["none"], ["lz4", 0], ["lz4", 3], ["lz4", 15], ["lzma", 0], ["lzma", 6], ["lzma", 9], ["zstd", -5], ["zstd", 1], ["zstd", 5],
         ["zstd", 19]]


def rand_contents(r, n=None, big=False):
    out = []
    n = r.choice([0, 1, 2, 3, 5, 9]) if n is None else n
    for i in range(n):
        k = r.choice("zcrtehpx")
        ln = r.choice([0, 1, 2, 3, 40, 100, 239, 240, 250, 254, 255, 256, 257, 300, 1000, 1500, 4095, 4096, 4097])
        if big and r.randrange(6) == 0:
            ln = r.choice([65535, 65536, 65537, 70000, 300000, 2**24 - 1, 2**24, 2**24 + 1]) if k in "zct" else \
                r.choice([65530, 65535, 65536, 65537, 70000, 300000])
        e = {"g": [k, ln, r.randrange(1 << 16) if k != "c" else r.randrange(256)], "hint": r.choice("ynd"),
             "src": r.choice(["mem", "mem", "file", "range", "tail"])}
        if out and r.randrange(5) == 0:
            e["g"] = r.choice(out)["g"]
        out.append(e)
    return out


def small_dir(r, ncontents=0, sort=True):
    """Directories without big arrays (their bytes are in the event)."""
    while True:
        d = rand_dir(r)
        if any(v[0] == "g" for st in d["stores"] for w in st["rows"] for v in w["vals"].values()):
            continue
        n = sum(len(v[1]) if v[0] == "a" else 8 for st in d["stores"] for w in st["rows"] for v in w["vals"].values())
        if n > 5000:
            continue
        break
    if sort:
        for st in d["stores"]:
            ks = [p[1] for p in st["common"] if p[0] in "usa"]
            if ks and r.randrange(3) == 0:
                st["sort"] = r.sample(ks, r.randint(1, min(2, len(ks))))
        # references
        for st in d["stores"]:
            if st["rows"] and r.randrange(3) == 0:
                t = r.randrange(len(d["stores"]))
                if d["stores"][t]["rows"]:
                    st["common"].append(["u", "ref"])
                    for w in st["rows"]:
                        w["vals"]["ref"] = [r.choice(["ref", "wref"]), t, r.randrange(len(d["stores"][t]["rows"]))]
            if st["rows"] and ncontents and r.randrange(3) == 0:
                st["common"].append(["c", "lc"])
                for w in st["rows"]:
                    w["vals"]["lc"] = ["lc", r.randrange(ncontents)]
    return d


def names_of(d):
    out = set()
    for st in d["stores"]:
        out |= {p[1] for p in st["common"] if p[0] != "p"}
        for v in st["variants"]:
            out.add(v[0])
            out |= {p[1] for p in v[1] if p[0] != "p"}
    out |= {i["name"] for i in d["idx"]}
    return {n: list(n.encode()) for n in out}


class Maker:
    def __init__(self, pool, root):
        self.pool, self.root = pool, root
        self.n = 0
        self.lock = threading.Lock()

    def folder(self):
        with self.lock:
            self.n += 1
            d = os.path.join(self.root, "f%d" % self.n)
        os.mkdir(d)
        return d

    def spec(self, case, folder):
        """case: mode, comp, contents, dedup, extra [{id, comp, contents}], dir, (manual) packs"""
        s = {"mode": case["mode"], "comp": case["comp"], "contents": case.get("contents", []), "dedup": case.get("dedup", False),
             "dir": harness_dir(case["dir"]), "out": os.path.join(folder, "out.jbk"), "delay": case.get("delay", 0),
             "extra": [dict(x, path=os.path.join(folder, "extra%d.jbkc" % x["id"])) for x in case.get("extra", [])]}
        for k in ("plan", "finwait"):
            if k in case:
                s[k] = case[k]
        if case["mode"] == "manual":
            s["packs"] = [dict(p, file=os.path.join(folder, p["loc"])) for p in case["packs"]]
            s.update(dirloc="dir.jbkd", dirfile=os.path.join(folder, "dir.jbkd"), out=os.path.join(folder, "out.jbkm"),
                     dirpos=case.get("dirpos", 0), pfree=case.get("pfree", []))
            for k in ("dfree", "mfree"):
                if k in case:
                    s[k] = case[k]
        return s

    def event(self, case, keep=False):
        f = self.folder()
        r = self.pool.one({"id": 0, "op": "build", "spec": self.spec(case, f)}, timeout=120)
        d = case["dir"]
        ev = {"built": False, "why": r["outcome"], "files": [], "adds": [], "handles": [], "addrs": [], "nameb": names_of(d), "algs": [],
              "dedup": bool(case.get("dedup")), "vendor": [0x4a, 0x56, 1, 2],
              "dir": {"stores": [{"variants": [[v[0]] for v in st["variants"]], "sort": st["sort"] or [],
                                  "rows": [{"v": w["v"] or "", "vals": w["vals"]} for w in st["rows"]]} for st in d["stores"]],
                      "idx": [{"name": i["name"], "store": i["store"], "count": i["count"], "off": i["off"], "key": i["key"]}
                              for i in d["idx"]]}}
        if case["mode"] == "manual":
            ev["algs"] = [[p["id"], ALG[p["comp"][0]]] for p in case["packs"]]
        else:
            ev["algs"] = [[1, ALG[case["comp"][0]]]] + [[x["id"], ALG[x["comp"][0]]] for x in case.get("extra", [])]
        if r["outcome"] == "done" and r["res"]["ok"]:
            res = r["res"]
            ev.update(built=True, why="", adds=[{k: a[k] for k in ("obs", "hint", "pack", "addr")} for a in res["adds"]],
                      handles=res["handles"], addrs=[a["addr"] for a in res["adds"]])
            for n in sorted(os.listdir(f)):
                ev["files"].append(jbkfile.file_event(self.pool, os.path.join(f, n)))
        elif r["outcome"] == "done":
            ev["why"] = r["res"]["err"]
        if not keep:
            shutil.rmtree(f)
        else:
            ev["folder"] = f
        return ev

    def events(self, cases):
        with concurrent.futures.ThreadPoolExecutor(self.pool.n) as ex:
            return list(ex.map(self.event, cases))


def slim(ev):
    return {k: v for k, v in ev.items() if k not in ("files",)}


def judge_format(chk, prop, cases, events, tag):
    os.environ["PROP"] = prop
    bad, st = tlc_cases("FormatCase", events, tag)
    for i in bad:
        e = events[i]
        chk.violation("%s: the bytes of case %s do not decode to what was written (built=%s %s)" % (
            tag, cases[i].get("label", i), e["built"], e["why"][:200]), {"case": cases[i], "event": e})
    chk.add(states=st["distinct"], transitions=st["distinct"], traces_validated_against_impl=len(events))
    return bad


def rand_case(r, big=False, i=0):
    mode = r.choice(["one", "two", "none", "manual"])
    c = {"mode": mode, "comp": r.choice(COMPS), "label": "random %s %d" % (mode, i)}
    if mode == "manual":
        c["packs"] = [{"id": k, "loc": "p%d.jbkc" % k, "comp": r.choice(COMPS), "contents": rand_contents(r, big=big)}
                      for k in r.sample([1, 2, 3, 255, 256, 65535], r.choice([0, 1, 2, 3]))]
        c["dirpos"] = r.randrange(3)
        n = sum(len(p["contents"]) for p in c["packs"])
    else:
        c["contents"] = rand_contents(r, big=big)
        c["dedup"] = bool(r.randrange(2))
        n = len(c["contents"])
        if r.randrange(3) == 0:
            c["extra"] = [{"id": k, "comp": r.choice(COMPS), "contents": rand_contents(r)} for k in r.sample([2, 3, 300], r.choice([1, 2]))]
            n += sum(len(x["contents"]) for x in c["extra"])
    c["dir"] = small_dir(r, n)
    return c
