"""Worlds of files of spec/Packages.tla realised on disk (C10, C11)."""
from congen import *


def walks(cfg, num, seed, keep, r):
    """Random histories of the specification: `keep` of the states visited by `num` walks."""
    out = tlc("Packaging", cfg, workers=1, extra=["-simulate", "num=%d" % num, "-depth", "9", "-seed", str(seed)], timeout=300)
    cases = [json.loads(json.loads(l)[5:]) for l in out["out"].splitlines() if l.startswith('"CASE ')]
    if not cases:
        print(out["out"][-3000:])
        raise ToolError("no walk from Packaging/%s" % cfg)
    m = re.search(r"number of states generated: (\d+)", out["out"])
    groups = {}
    for c in cases:
        groups.setdefault(json.dumps(c["hist"][:-1], sort_keys=True), []).append(c)
    gs = list(groups.values())
    res = []
    while len(res) < keep and gs:
        r.shuffle(gs)
        for g in gs:
            res.append(g.pop(r.randrange(len(g))))
            if len(res) >= keep:
                break
        gs = [g for g in gs if g]
    return res, int(m.group(1)) if m else len(cases)


def prefix_bytes(r, own):
    p = prefix_any(r, own)
    # not a valid header by accident
    return b"#" + p if (p + own)[:64] == own[:64] else p


def prefix_any(r, own):
    """What a pack may be embedded after: anything which is not a Jubako file itself."""
    k = r.randrange(9)
    if k == 0:
        h = bytearray(own[:64])
        h[63] ^= 1                          # a header whose checksum is wrong
        return bytes(h) + r.randbytes(r.choice([0, 1, 4000]))
    if k == 1:
        return bytes(r.choice([1, 63, 64, 65, 127, 128, 4096]))
    if k == 2:
        return b"\x7fELF" + r.randbytes(r.choice([60, 5000, 70000]))
    if k == 3:
        return own[-64:] + b"x" * r.randrange(3)   # a mirrored header in the wrong place
    if k == 4:
        return b"jb"
    if k == 5:
        return r.randbytes(r.choice([1, 2, 7, 8, 63, 64, 65, 100, 4095, 4096, 4097]))
    if k == 6:
        return own[1:]                      # another copy, cut
    if k == 7:
        return own[:63] if r.randrange(2) else b"text\n" * r.randrange(1, 3000)
    return r.randbytes(r.choice([300000, 1 << 20]))


class Base:
    """A container of mode m with k content packs, created once; a decoy container with the same pack ids."""

    def __init__(self, C, m, k, seed, rich=False):
        self.C, self.mode, self.n, self.seed = C, m, k, seed
        r = random.Random(seed)
        comp = lambda: r.choice([["none"], ["zstd", 1], ["lz4", 3], ["lzma", 3]])

        def contents(tag):
            return [{"g": ["t", 2000 + r.randrange(3000), tag], "hint": "y"}, {"g": ["r", 300 + r.randrange(50), tag + 1], "hint": "n"},
                    {"g": ["c", 0, 0], "hint": "d"}, {"g": ["x", r.randrange(1, 9), tag + 2], "hint": r.choice("ynd")}][:r.choice([2, 3, 4])]

        def case(tag, mm, kk):
            ids = [1] + r.sample([2, 3, 4, 7], 2) if mm != "manual" else r.sample([1, 2, 3, 7, 19, 300, 65535], 3)
            c = {"mode": mm, "comp": comp(), "label": "%s/%d" % (mm, kk)}
            if mm == "manual":
                c["packs"] = [{"id": ids[i], "loc": "p%d.jbkc" % ids[i], "comp": comp(), "contents": contents(tag + 10 * i)} for i in range(kk)]
                c["dirpos"] = r.randrange(kk + 1)
            else:
                c["contents"] = contents(tag)
                c["dedup"] = bool(r.randrange(2))
                c["extra"] = [{"id": ids[i], "comp": comp(), "contents": contents(tag + 10 * i)} for i in range(1, kk)]
            nb = sum(len(p["contents"]) for p in c.get("packs", [])) or len(c.get("contents", [])) + sum(len(x["contents"]) for x in c.get("extra", []))
            c["dir"] = small_dir(r, nb) if kk else EMPTY_DIR if r.randrange(2) else one_store_dir(4)
            return c, ids

        self.case, ids = case(100 + seed % 50, m, k)
        self.ids = {str(i + 1): ids[i] for i in range(k)}
        self.ev = C.container(self.case, keep=True)
        self.dir = self.ev.pop("folder")
        self.files = {}                      # model name -> bytes
        self.names = {"out": "out.jbkm" if m == "manual" else "out.jbk", "x": "xx.bin"}
        for i in range(k):
            self.names["p%d" % (i + 1)] = ("p%d.jbkc" if m == "manual" else "extra%d.jbkc") % ids[i]
        self.uuid, self.size = {}, {}
        used = set(self.names.values())
        self.pack_id([], b"", b"")
        self.ok = self.ev["built"] and bool(self.infos)
        if not self.ok:
            return
        for nm in sorted(os.listdir(self.dir)):
            p = os.path.join(self.dir, nm)
            data, packs = jbkfile.scan(p)
            if nm not in used:
                self.names["d" if any(x["kind"] == "jbkd" for x in packs) else "c"] = nm
            for x in packs:
                u = {"jbkm": "M", "jbkd": "D"}.get(x["kind"])
                if x["kind"] == "jbkc":
                    pid = int.from_bytes(self.pack_id(packs, data, data[x["pos"] + 10:x["pos"] + 26]), "little")
                    u = next((a for a, b in self.ids.items() if b == pid), None)
                if u:
                    self.uuid[u] = bytes(data[x["pos"] + 10:x["pos"] + 26])
                    self.size[u] = x["size"]
        for a, b in (("c", "cc.jbk"), ("d", "dd.jbk"), ("p1", "free1.bin"), ("p2", "free2.bin"), ("p3", "free3.bin")):
            self.names.setdefault(a, b)
        # ids and groups as recorded in the manifest
        self.group = {u: self.infos[v][1] for u, v in self.uuid.items() if v in self.infos}
        # decoys: the same ids, other contents
        ctx = case(7000 + seed, "manual", 1)[0]
        ctx["packs"][0]["id"] = ids[0] if k else 1
        d1 = C.container(ctx, keep=True)["folder"]
        self.bare = open(os.path.join(d1, ctx["packs"][0]["loc"]), "rb").read()
        whole = C.container(case(9000 + seed, "one", 1)[0], keep=True)["folder"]
        self.whole = open(os.path.join(whole, "out.jbk"), "rb").read()
        shutil.rmtree(d1)
        shutil.rmtree(whole)

    def pack_id(self, packs, data, uuid):
        """The id is in the manifest."""
        if not hasattr(self, "infos"):
            self.infos = {}
            for nm in sorted(os.listdir(self.dir)):
                dd, pp = jbkfile.scan(os.path.join(self.dir, nm))
                for x in pp:
                    if x["kind"] == "jbkm":
                        b = x["pos"]
                        ck, cnt = int.from_bytes(dd[b + 40:b + 48], "little"), int.from_bytes(dd[b + 64:b + 66], "little")
                        for i in range(cnt):
                            o = b + ck - 256 * (cnt - i)
                            self.infos[bytes(dd[o:o + 16])] = (bytes(dd[o + 32:o + 34]), dd[o + 35])
        return self.infos.get(bytes(uuid), (b"\xff\xff", 0))[0]

    def real(self, folder, x):
        return os.path.join(folder, x[0], self.names[x[1]])

    def text(self, x):
        return "" if x[1] == "" else self.names[x[1]] if not x[0] else x[0] + "/" + self.names[x[1]]

    def locate(self, data, u):
        # the last one: what a pack is embedded after may look like it
        for i in reversed(list(finds(data, self.uuid[u]))):
            if data[i - 10:i - 7] == b"jbk" and data[i - 7:i - 6] in b"cdm":
                return i - 10
        raise ToolError("pack %s not found" % u)

    def apply(self, folder, o, r):
        a = self.real(folder, o["src"][0]) if o["src"] else None
        d = self.real(folder, o["dst"]) if o["dst"][1] else None
        pool = self.C.pool
        if o["op"] == "concat":
            q = pool.one({"id": 0, "op": "concat", "files": [self.real(folder, x) for x in o["src"]], "out": d}, 60)
            return q["res"] if q["outcome"] == "done" else [q["outcome"], q.get("msg", "")]
        if o["op"] == "setloc":
            q = pool.one({"id": 0, "op": "setloc", "path": a, "uuid": list(self.uuid[o["u"]]), "loc": list(self.text(o["loc"]).encode())}, 60)
            return q["res"][:1] if q["outcome"] == "done" else [q["outcome"], q.get("msg", "")]
        if o["op"] == "prefix":
            data = open(a, "rb").read()
            open(a + ".tmp", "wb").write(prefix_bytes(r, data) + data)
            os.rename(a + ".tmp", a)
        elif o["op"] == "move":
            os.rename(a, d)
        elif o["op"] == "copy":
            shutil.copyfile(a, d)
        elif o["op"] == "remove":
            os.unlink(a)
        elif o["op"] == "mkdir":
            if os.path.exists(a):
                os.unlink(a)
            os.mkdir(a)
        elif o["op"] == "other":
            if os.path.exists(a):
                os.unlink(a)
            open(a, "wb").write(self.whole if o["u"] == "whole" else self.bare)
        elif o["op"] == "damage":
            data = bytearray(open(a, "rb").read())
            p = self.locate(data, o["u"])
            # a content pack starts with its raw or compressed contents after its headers
            p += 128 + r.randrange(4) if o["u"] in self.ids else 64 + r.randrange(36)
            data[p] ^= r.choice([1, 0x80, 0xff])
            open(a, "wb").write(data)
        return ["ok"]

    def play(self, case, seed, tag):
        """Realises a history, reads every file with a manifest: [event]."""
        r = random.Random(seed)
        folder = os.path.join(self.C.root, "w-" + tag)
        shutil.copytree(self.dir, folder)
        os.makedirs(os.path.join(folder, "sub"))
        done = []
        for o in case["hist"]:
            try:
                done.append(self.apply(folder, o, r))
            except OSError as e:
                raise ToolError("%s: %s" % (o, e))
            if done[-1][0] != "ok":
                break
        evs = []
        for d in ("", "sub"):
            for nm in self.names:
                p = self.real(folder, [d, nm])
                if os.path.isfile(p) and (self.holds_manifest(p) if done and done[-1][0] == "ok" or not done else nm == "out"):
                    ev = {k: v for k, v in self.ev.items() if k not in ("prog", "folder")}
                    ev["c"] = dict(ev["c"], packids=list(ev["c"]["packids"]))
                    ev.update(opened=False, why="", reads=[], packs=[], idx={}, check="")
                    path = p if r.randrange(3) else os.path.relpath(p, self.C.root)
                    readback(self.C.pool, ev, path, self.case, r, raw=True)
                    ev.update(mode=self.mode, n=self.n, hist=case["hist"], main=[d, nm], names=self.names, ids=self.ids or {"0": 0},
                              uuids={k: list(v) for k, v in self.uuid.items()}, sizes=self.size, groups=self.group, done=done,
                              dead=ev["why"] if ev["why"].startswith("reading") else "")
                    evs.append(ev)
        shutil.rmtree(folder)
        return evs

    def holds_manifest(self, p):
        data = open(p, "rb").read()
        i = data.find(self.uuid["M"])
        return i >= 0 and any(data[j - 10:j - 6] == b"jbkm" for j in finds(data, self.uuid["M"]))


def finds(data, x):
    i = data.find(x)
    while i >= 0:
        yield i
        i = data.find(x, i + 1)


def bases(chk, C, seed, rounds=1):
    out = {}
    for k in range(rounds):
        for m, n in (("one", 1), ("one", 2), ("one", 3), ("two", 1), ("two", 2), ("two", 3), ("none", 1), ("none", 2), ("none", 3),
                     ("manual", 0), ("manual", 1), ("manual", 2), ("manual", 3)):
            b = Base(C, m, n, seed * 100 + 17 * k + len(out))
            if b.ok:
                out.setdefault((m, n), []).append(b)
            else:
                chk.violation("the container %s with %d content packs is not created: %s" % (m, n, b.ev["why"][:200]), {"case": b.case})
    return out


def judge(chk, C, bs, cases, tag, seed):
    cs = [c for c in cases if (c["mode"], c["n"]) in bs]

    def go(ic):
        i, c = ic
        b = bs[(c["mode"], c["n"])]
        return b[i % len(b)].play(c, seed * 7919 + i, "%s%d" % (tag, i))
    with concurrent.futures.ThreadPoolExecutor(C.pool.n) as ex:
        res = list(ex.map(go, enumerate(cs)))
    evs = [e for es in res for e in es]
    of = [c for c, es in zip(cs, res) for e in es]
    bad, st = tlc_cases("PackagingCase", evs, "pk" + tag, jobs=8)
    for i in bad:
        e = evs[i]
        chk.violation("%s: %s is not read as the specification tells (mode %s, %d content packs, after %s: %s; opened=%s %s)" % (
            tag, e["main"], e["mode"], e["n"], [(o["op"], o["src"], o["dst"], o["u"], o["loc"]) for o in e["hist"]], e["done"], e["opened"], e["why"][:200]),
            {"case": of[i], "event": e})
    chk.add(states=st["distinct"], transitions=st["distinct"], traces_validated_against_impl=len(evs), histories=len(cs),
            operations=sum(len(c["hist"]) for c in cs), containers_read=len(evs),
            missing_answers=sum(1 for e in evs for x in e["reads"] + e["packs"] if x[1][0] == "missing"))
    if evs:
        e = evs[len(evs) // 2]
        chk.sample({"mode": e["mode"], "n": e["n"], "history": [[o["op"], o["src"], o["dst"], o["u"]] for o in e["hist"]], "main": e["main"],
                    "opened": e["opened"], "check": e["check"]})
    return evs
