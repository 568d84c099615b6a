"""Alterations of the files of real containers, as events of spec/DamageCase.tla (C04, C05, C06)."""
from congen import *

MASKS = [0x01, 0xff, 0x80]


def rich_dir(n=4, pack=1):
    """A small directory with every kind of property and of store."""
    rows = []
    for i in range(n):
        var = ["f", "g"][i % 2]
        vals = {"id": u(i * 7), "name": a(b"entry-%d" % i), "tag": a(b"ab%d" % i), "c": ["lc", i % 3]}
        if var == "f":
            vals.update(sz=u(3 + i * 300), sg=s(-i))
        else:
            vals.update(to=a(b"x" * (i + 1)))
        rows.append({"v": var, "vals": vals})
    st = {"common": [["u", "id"], ["a", "name", 2, 1], ["a", "tag", 4, 0], ["c", "c"]],
          "variants": [["f", [["u", "sz"], ["s", "sg"]]], ["g", [["a", "to", 0, 2]]]], "sort": ["name"], "rows": rows}
    rows2 = [{"v": None, "vals": {"k": u(5), "n": a(b"second")}} for i in range(2)]
    st2 = {"common": [["u", "k"], ["a", "n", 1, 1]], "variants": [], "sort": None, "rows": rows2}
    return {"vs": ["plain", "indexed", "plain"], "stores": [st, st2],
            "idx": [{"name": "all", "store": 0, "count": n, "off": ["n", 0], "key": 0},
                    {"name": "part", "store": 0, "count": n - 2, "off": ["n", 1], "key": 1},
                    {"name": "two", "store": 1, "count": 2, "off": ["n", 0], "key": 0}]}


def txt(n, seed):
    return {"g": ["t", n, seed], "hint": "y"}


def noise(n, seed):
    return {"g": ["r", n, seed], "hint": "n"}


def small_cases():
    cs = lambda: [txt(90, 1), noise(40, 2), txt(1, 3), {"g": ["z", 0, 0], "hint": "y"}, noise(130, 4), txt(200, 5)]
    out = []
    for mode, comp in (("one", ["none"]), ("one", ["zstd", 5]), ("one", ["lz4", 3]), ("one", ["lzma", 1]), ("two", ["zstd", 1]),
                       ("none", ["lz4", 1])):
        out.append({"label": "%s/%s" % (mode, comp[0]), "mode": mode, "comp": comp, "contents": cs(), "dir": rich_dir()})
    out.append({"label": "one/zstd with another pack", "mode": "one", "comp": ["zstd", 1], "contents": cs(), "dir": rich_dir(),
                "extra": [{"id": 2, "comp": ["none"], "contents": [txt(30, 9), noise(10, 8)]}]})
    out.append({"label": "manual two packs", "mode": "manual", "comp": ["none"], "dirpos": 1, "dir": rich_dir(),
                "packs": [{"id": 1, "loc": "p1.jbkc", "comp": ["lzma", 0], "contents": cs()},
                          {"id": 3, "loc": "p3.jbkc", "comp": ["zstd", 3], "contents": [txt(77, 4)]}],
                "pfree": [], "mfree": [7] * 24, "dfree": [9] * 24})
    return out


def chunk_cases():
    """Clusters which are decoded in several steps, and more of them."""
    out = []
    for comp in (["zstd", 5], ["lz4", 3], ["lzma", 1]):
        out.append({"label": "several chunks/%s" % comp[0], "mode": "one", "comp": comp, "dir": EMPTY_DIR,
                    "contents": [txt(9000, 1), txt(3000, 2), {"g": ["c", 12000, 65], "hint": "y"}, txt(20, 5)]})
    return out


def dense_dir(r):
    """A random directory which has entries and values in the stores."""
    for _ in range(30):
        d = small_dir(r, 0)
        if sum(len(st["rows"]) for st in d["stores"]) >= 2:
            break
    return d


def _table():
    t = []
    for i in range(256):
        c = i << 24
        for _ in range(8):
            c = ((c << 1) ^ 0x1EDC6F41) & 0xffffffff if c & 0x80000000 else (c << 1) & 0xffffffff
        t.append(c)
    return t


CRC = _table()


def crc(b):
    c = 0xffffffff
    for x in b:
        c = ((c << 8) & 0xffffffff) ^ CRC[(c >> 24) ^ x]
    return c.to_bytes(4, "big")


def blocks(d, pos, size, kind):
    """The checksummed blocks of a pack, with the CRC which follows them: [(position in the file, length)]"""
    num = lambda p, n: int.from_bytes(d[pos + p:pos + p + n], "little")
    so = lambda p: (num(p + 2, 6), num(p, 2))
    out = [(0, 60), (64, 60)]
    ck = num(40, 8)

    def vstore(p):
        t, n = so(p)
        sz = num(t + 1, 8) if d[pos + t] == 0 else num(t + 10, d[pos + t + 9])
        return [(t, n), (t - 4 - sz, sz)]
    if kind == "m":
        n = num(64, 2)
        out += [(ck - 256 * (n - i), 252) for i in range(n)] + vstore(66)
    elif kind == "c":
        out += [(num(64, 8), 4 * num(80, 4)), (num(72, 8), 8 * num(84, 4))]
        out += [so(num(72, 8) + 8 * i) for i in range(num(84, 4))]
    elif kind == "d":
        ix, es, vs = num(64, 8), num(72, 8), num(80, 8)
        ni, ne, nv = num(88, 4), num(92, 4), num(96, 1)
        out += [(ix, 8 * ni), (es, 8 * ne), (vs, 8 * nv)] + [so(ix + 8 * i) for i in range(ni)]
        for i in range(nv):
            out += vstore(vs + 8 * i)
        for i in range(ne):
            t, n = so(es + 8 * i)
            out += [(t, n), (t - 4 - num(t + 1, 4) * num(t + 6, 2), num(t + 1, 4) * num(t + 6, 2))]
    return [(pos + p, n) for p, n in out if n > 0 and p + n + 4 <= size and crc(d[pos + p:pos + p + n]) == d[pos + p + n:pos + p + n + 4]]


def wide_cases():
    """Blocks of more than 4 KiB: they are mapped instead of read."""
    rows = [{"v": None, "vals": {"id": u(i * 3), "name": a(b"name of the entry %d" % (i * 7919)), "tag": a(b"%d" % i), "c": ["lc", i % 1500]}}
            for i in range(400)]
    st = {"common": [["u", "id"], ["a", "name", 3, 0], ["a", "tag", 0, 1], ["c", "c"]], "variants": [], "sort": ["id"], "rows": rows}
    d = {"vs": ["plain", "indexed"], "stores": [st], "idx": [{"name": "all", "store": 0, "count": 400, "off": ["n", 0], "key": 0}]}
    out = []
    for mode, comp in (("one", ["zstd", 1]), ("two", ["none"])):
        cs = [{"g": ["t", 3, 1], "hint": "y", "rep": 1500}] + [txt(600, i) for i in range(3)]
        out.append({"label": "wide blocks/%s" % mode, "mode": mode, "comp": comp, "dir": d, "contents": cs})
    return out


class Target:
    """A container on disk, with everything asked from it."""

    def __init__(self, M, case, prefix=b""):
        self.case = case
        ev = M.event(case, keep=True)
        if not ev["built"]:
            self.ok, self.why = False, ev["why"]
            shutil.rmtree(ev["folder"], ignore_errors=True)
            return
        self.ok = True
        self.folder = ev["folder"]
        self.entry = "out.jbkm" if case["mode"] == "manual" else "out.jbk"
        names = sorted(os.listdir(self.folder))
        if prefix:
            p = os.path.join(self.folder, self.entry)
            d = open(p, "rb").read()
            open(p, "wb").write(prefix + d)
        self.names = names
        self.data, self.files, self.packs = [], [], []
        for i, n in enumerate(names):
            d = open(os.path.join(self.folder, n), "rb").read()
            base = len(prefix) if n == self.entry else 0
            ps = jbkfile.scan_pack(d, base, len(d) - base)
            self.data.append(d)
            self.files.append({"name": list(n.encode()), "size": len(d), "segs": jbkfile.segments(d, ps), "base": base})
            for k in ps:
                if k["kind"] in ("jbkc", "jbkd", "jbkm"):
                    self.packs.append({"file": i, "pos": k["pos"], "size": k["size"], "uuid": list(d[k["pos"] + 10:k["pos"] + 26]),
                                       "kind": k["kind"][3]})
        addrs = sorted({(a[0], tuple(a[1])) for a in ev["addrs"]})
        self.addrs = [[x, list(y)] for x, y in addrs]
        # content packs: which address is which content
        ids = {}
        for k in self.packs:
            if k["kind"] == "m":
                d = self.data[k["file"]][k["pos"]:k["pos"] + k["size"]]
                ck, n = int.from_bytes(d[40:48], "little"), d[64] + 256 * d[65]
                for i in range(n):
                    x = d[ck - 256 * (n - i):ck - 256 * (n - i - 1)]
                    ids[tuple(x[:16])] = x[32] + 256 * x[33]
        at = lambda k: [[j, int.from_bytes(bytes(x[1]), "little")] for j, x in enumerate(self.addrs)
                        if k["kind"] == "c" and x[0] == ids.get(tuple(k["uuid"]))]
        self.req = {"op": "damage", "mem": True, "dir": self.folder, "files": names, "entry": self.entry,
                    "base": [f["base"] for f in self.files],
                    "packs": [[p["file"], p["uuid"], p["kind"], p["pos"], p["size"], at(p)] for p in self.packs],
                    "q": {"idx": [x["name"] for x in case["dir"]["idx"]], "ids": packids(case), "addrs": self.addrs}}

    def close(self):
        shutil.rmtree(self.folder, ignore_errors=True)

    def runs(self, alt):
        """The bytes which an alteration changes: [[file, pos, n]..] (from 1)"""
        out = []
        for x in alt.get("many", [alt]):
            f = x["f"]
            if "x" in x:
                out.append([f + 1, x["x"][0], 1])
                continue
            if "trunc" in x:
                out.append([f + 1, x["trunc"], len(self.data[f]) - x["trunc"]])
                continue
            if "w" not in x:
                # what is added changes no byte; what is replaced changes all
                out += [] if "app" in x else [[f + 1, 0, len(self.data[f])]]
                continue
            for p, b in x.get("w", []):
                i = 0
                while i < len(b):
                    if b[i] != self.data[f][p + i]:
                        j = i
                        while j < len(b) and b[j] != self.data[f][p + j]:
                            j += 1
                        out.append([f + 1, p + i, j - i])
                        i = j
                    else:
                        i += 1
        return out

    def sweep(self, masks, step=400):
        """Every byte with each mask."""
        for f, d in enumerate(self.data):
            for m in masks:
                for a in range(0, len(d), step):
                    yield dict(self.req, alts=[], range=[f, a, min(a + step, len(d)), m]), [
                        {"f": f, "x": [p, m]} for p in range(a, min(a + step, len(d)))]

    def truncations(self, step=200):
        for f, d in enumerate(self.data):
            for a in range(0, len(d), step):
                yield dict(self.req, alts=[], truncs=[f, a, min(a + step, len(d))]), [
                    {"f": f, "trunc": p} for p in range(a, min(a + step, len(d)))]

    def listed(self, alts, step=200):
        for a in range(0, len(alts), step):
            yield dict(self.req, alts=alts[a:a + step]), alts[a:a + step]

    def interesting(self):
        """Limits of the structures (only used to choose where to alter)."""
        out = []
        for f, d in enumerate(self.data):
            for k in jbkfile.scan_pack(d, self.files[f]["base"], len(d) - self.files[f]["base"]):
                ck = int.from_bytes(d[k["pos"] + 40:k["pos"] + 48], "little")
                out += [(f, k["pos"] + x) for x in (0, 60, 64, 124, 128)] + [(f, min(k["pos"] + ck + x, len(d))) for x in (-256, -4, 0, 33, 37)]
                out += [(f, c["pos"]) for c in k["clusters"]] + [(f, c["pos"] + c["n"]) for c in k["clusters"]]
                out.append((f, k["pos"] + k["size"] - 64))
        return [(f, p) for f, p in out if 0 <= p < len(self.data[f])]

    def single(self, r, n):
        """One byte, anywhere in the metadata or in the data."""
        out = []
        segs = [(f, p, len(b)) for f in range(len(self.data)) for p, b in self.files[f]["segs"]]
        for _ in range(n):
            f, p, ln = r.choice(segs)
            if r.randrange(5) == 0:
                p, ln = 0, len(self.data[f])
            out.append({"f": f, "x": [p + r.randrange(ln), r.choice([1, 2, 4, 8, 16, 32, 64, 128, 0xff, r.randrange(1, 256)])]})
        return out

    def random_alts(self, r, n):
        """Several bytes: zeroed, overwritten, swapped ranges; several files."""
        out = []
        pts = self.interesting()
        while len(out) < n:
            k = r.choice("zzoonnmsb")
            f, p = r.choice(pts) if r.randrange(2) else (lambda g: (g, r.randrange(len(self.data[g]))))(r.randrange(len(self.data)))
            d = self.data[f]
            p = max(0, min(len(d) - 1, p + r.choice([0, 0, 0, -1, 1, r.randrange(-40, 40)])))
            ln = min(len(d) - p, r.choice([1, 2, 3, 4, 8, 16, 36, 60, 64, 128, 256, 512, 1024, 4096, len(d)]))
            if k == "z":
                b = [0] * ln
            elif k == "o":
                b = [r.choice([0xff, 0x41, r.randrange(256)])] * ln
            elif k == "n":
                ln = min(ln, 300)
                b = [r.randrange(256) for _ in range(ln)]
            elif k == "b":
                # bytes of a number made huge or small
                ln = min(ln, 8)
                b = list(r.choice([b"\xff" * 8, b"\x00" * 8, b"\xff\xff\xff\x7f\0\0\0\0", b"\xff" * 7 + b"\x7f", b"\1" + b"\0" * 7]))[:ln]
            elif k == "s":
                # another part of the file, not aligned with a checksummed block
                ln = min(ln, 64)
                o = r.randrange(len(d) - ln + 1)
                b = list(d[o:o + ln])
                if len(set(b)) < 3:
                    continue
            else:
                ws = []
                for _ in range(r.randint(2, 6)):
                    g, q = r.choice(pts) if r.randrange(2) else (lambda g: (g, r.randrange(len(self.data[g]))))(r.randrange(len(self.data)))
                    ws.append({"f": g, "w": [[q, [self.data[g][q] ^ r.randrange(1, 256)]]]})
                byf = {}
                for w in ws:
                    byf.setdefault(w["f"], {})[w["w"][0][0]] = w["w"][0][1]
                alt = {"many": [{"f": g, "w": [[q, b] for q, b in sorted(m.items())]} for g, m in sorted(byf.items())]}
                out.append(alt)
                continue
            if bytes(b) == d[p:p + ln]:
                continue
            out.append({"f": f, "w": [[p, b]]})
        return out

    def forged(self, masks, r=None, n=None):
        """A byte of a block altered, and the CRC of the block computed again."""
        out = []
        for k in self.packs:
            d = self.data[k["file"]]
            for p, ln in blocks(d, k["pos"], k["size"], k["kind"]):
                # (with another magic it is another kind of pack)
                for q in range(p + 4 if p == k["pos"] else p, p + ln):
                    for m in masks:
                        b = bytearray(d[p:p + ln])
                        b[q - p] ^= m
                        out.append({"f": k["file"], "w": [[q, [b[q - p]]], [p + ln, list(crc(b))]]})
        if n is not None and len(out) > n:
            out = r.sample(out, n)
        return out

    def garbage(self, r, n):
        """Files which are extended, cut at the front, or not Jubako files at all."""
        out = []
        z = lambda ln: ["r", ln, r.randrange(1 << 20)]
        for f, d in enumerate(self.data):
            for ln in [1, 2, 3, 4, 7, 8, 63, 64, 65, 127, 128, 129, 255, 256, 4096, 10000] + [r.randrange(1, 3000) for _ in range(n)]:
                out += [{"f": f, "app": z(ln)}, {"f": f, "app": ["z", ln, 0]}, {"f": f, "head": z(ln)}]
            # extended with parts of itself
            tails = [d[:64], d[:64][::-1], d[-64:], d[:128], d[-200:], d, d[::-1], d[:len(d) // 2]]
            out += [{"f": f, "bytes": list(d + t)} for t in tails] + [{"f": f, "bytes": list(t + d)} for t in tails]
            out += [{"f": f, "bytes": list(t)} for t in tails]
            # cut at the front
            out += [{"f": f, "bytes": list(d[k:])} for k in sorted({1, 2, 3, 4, 60, 64, 127, 128, len(d) - 64, len(d) - 63, len(d) - 1} |
                                                                  {r.randrange(1, len(d)) for _ in range(n)}) if k < len(d)]
            # nothing of a Jubako file but what makes it look like one
            for magic in (b"jbkC", b"jbkm", b"jbkd", b"jbkc", b"jbk", b"jbkX"):
                for ln in (0, 4, 60, 124, 252, 4000):
                    out.append({"f": f, "bytes": list(magic + bytes(r.randrange(256) for _ in range(ln)))})
                    out.append({"f": f, "bytes": list(bytes(r.randrange(256) for _ in range(ln)) + magic[::-1])})
                    out.append({"f": f, "bytes": list(magic + bytes(ln))})
            for k in (60, 64, 124, 128, 200):
                out.append({"f": f, "bytes": list(d[:k]) + [r.randrange(256) for _ in range(r.randrange(1, 2000))]})
                out.append({"f": f, "bytes": [r.randrange(256) for _ in range(r.randrange(1, 2000))] + list(d[-k:])})
            for ln in [0, 1, 3, 4, 59, 60, 63, 64, 65, 127, 128, 1000, 100000]:
                out += [{"f": f, "all": z(ln)}, {"f": f, "all": ["z", ln, 0]}, {"f": f, "all": ["c", ln, 255]}, {"f": f, "all": ["t", ln, 3]}]
            for g, e in enumerate(self.data):
                if g != f:
                    out.append({"f": f, "bytes": list(e)})
                    out.append({"f": f, "bytes": list(e[:len(e) // 2] + d[len(d) // 2:])})
        return out

    def blanks(self):
        """Each 16 and 64 bytes set to zero, and to 0xff."""
        out = []
        for f, d in enumerate(self.data):
            for w in (16, 64):
                for p in range(0, len(d), w):
                    for v in (0, 0xff):
                        n = min(w, len(d) - p)
                        if bytes([v] * n) != d[p:p + n]:
                            out.append({"f": f, "w": [[p, [v] * n]]})
        return out


def run_batch(pool, req, alts, timeout, strict, found):
    """-> (base, results [(result, [alterations])], bad [(alteration, outcome)]); `found` counts the crashes of all the batches"""
    if len(found) >= 4:
        return None, [], []
    g = pool.one(dict(req, id=0), timeout)
    if g["outcome"] == "done" and not (strict and g["panics"]):
        return g["res"]["base"], [(res, [alts[i] for i in ix]) for res, ix in g["res"]["groups"]], []
    # one by one, to find which
    groups, bad, base = [], [], None
    if len(alts) == 1:
        found.append(1)
        return None, [], [(alts[0], "%s %s" % (g["outcome"], g.get("msg", g.get("rc", ""))))]
    h = len(alts) // 2
    for part in (alts[:h], alts[h:]):
        q = {k: v for k, v in req.items() if k not in ("range", "truncs")}
        q.update(alts=part, linger=30)
        b, gs, bd = run_batch(pool, q, part, max(15, timeout / 2), strict, found)
        base = base or b
        groups += gs
        bad += bd
    if not bad and len(found) < 4:
        # not seen again with less alterations: what happens in the background may have been late
        found.append(1)
        bad.append((alts, "the batch: %s %s" % (g["outcome"], g.get("msg", ""))))
    return base, groups, bad


def run_alts(pool, target, batches, timeout=30, strict=True):
    """All the batches, in parallel: the event of the container."""
    merged, bad, base, found = {}, [], None, []
    with concurrent.futures.ThreadPoolExecutor(pool.n) as ex:
        for b, gs, bd in ex.map(lambda x: run_batch(pool, x[0], x[1], timeout, strict, found), batches):
            base = base or b
            bad += bd
            for res, al in gs:
                merged.setdefault(json.dumps(res, sort_keys=True), []).extend(al)
    if base is None:
        # every batch crashed: the pristine container alone
        b, _, bd = run_batch(pool, dict(target.req, alts=[]), [[]], timeout, False, [])
        if b is None:
            bad += bd
            b = {"all": "none", "files": ["none"] * len(target.names), "packs": ["none"] * len(target.packs)}
        base = b
    groups = [(json.loads(k), v) for k, v in merged.items()]
    ev = {"files": target.files, "entry": target.names.index(target.entry) + 1,
          "packs": [dict(p, file=p["file"] + 1) for p in target.packs], "addrs": target.addrs, "base": base,
          "groups": [{"r": res, "alts": [target.runs(x) for x in al]} for res, al in groups],
          "bad": len(bad)}
    return ev, groups, bad


def judge_damage(chk, prop, targets, tag, jobs=6):
    """targets: [(target, event, groups, bad)]; a group which breaks the property is reported with its alterations."""
    os.environ["PROP"] = prop
    evs, where = [], []
    for ti, (t, ev, groups, bad) in enumerate(targets):
        for al, out in bad:
            chk.violation("%s: reading %s with %s: %s" % (tag, t.case["label"], json.dumps(al)[:200], out[:300]),
                          {"case": t.case, "alteration": al, "outcome": out})
        # events of a bounded size
        n, cur = 0, []
        order = sorted(range(len(groups)), key=lambda i: -len(groups[i][1]))
        for i in order:
            al = ev["groups"][i]["alts"]
            for k in range(0, len(al), 4000):
                cur.append(({"r": ev["groups"][i]["r"], "alts": al[k:k + 4000]}, groups[i][1][k:k + 4000]))
                n += len(al[k:k + 4000])
                if n >= 8000:
                    evs.append(dict(ev, groups=[c[0] for c in cur]))
                    where.append((ti, cur))
                    n, cur = 0, []
        if cur or not groups:
            evs.append(dict(ev, groups=[c[0] for c in cur]))
            where.append((ti, cur))
    bad, st = tlc_cases("DamageCase", evs, tag, jobs=min(jobs, len(evs)))
    for i in bad:
        ti, cur = where[i]
        t = targets[ti][0]
        ev1 = [dict(evs[i], groups=[{"r": g["r"], "alts": [x]}]) for g, al in cur for x in g["alts"]]
        al1 = [(x, g["r"]) for g, al in cur for x in al]
        # the groups, then the alterations
        gb, _ = tlc_cases("DamageCase", [dict(evs[i], groups=[g]) for g, al in cur], tag, jobs=6)
        shown = 0
        for k in gb:
            g, al = cur[k]
            pick = list(range(len(al)))[:300]
            one, _ = tlc_cases("DamageCase", [dict(evs[i], groups=[{"r": g["r"], "alts": [g["alts"][j]]}]) for j in pick], tag, jobs=6)
            for j in one[:2]:
                chk.violation("%s: %s altered by %s gives %s" % (tag, t.case["label"], json.dumps(al[j])[:300], json.dumps(g["r"])[:400]),
                              {"case": t.case, "alteration": al[j], "result": g["r"]})
                shown += 1
            if shown >= 6:
                break
        if not shown:
            chk.violation("%s: the observations of %s are refused" % (tag, t.case["label"]), {"case": t.case, "event": dict(evs[i], files=[])})
    chk.add(states=st["distinct"], transitions=st["distinct"], traces_validated_against_impl=sum(len(g["alts"]) for e in evs for g in e["groups"]))
    return bad
