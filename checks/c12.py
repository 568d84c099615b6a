"""C12: rewriting a pack location changes only that location; the manifest stays valid."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from congen import *

QUICK = TIER != "thorough"


def text_of(r, cls):
    """A location of the class, as text."""
    def pad(n, tail=""):
        w = len(tail.encode())
        return "".join(r.choice("abcdefghij-_.0123456789") for _ in range(n - w)) + tail
    if cls == "empty":
        return ""
    if cls == "short":
        return r.choice(["x", "p.jbkc", "a", "..", ".", "moved.jbk", "p1.jbkc", "dir.jbkd", "\x01", "a b"]) + (pad(r.randrange(4)) if r.randrange(2) else "")
    if cls == "utf8":
        return r.choice(["é", "日本語.jbkc", "🎉", "a\u0301", "ÿ", "\u00a0", "п" * r.randrange(1, 100)])
    if cls == "max":
        return pad(r.choice([213, 213, 213, 212, 211]))
    if cls == "maxutf8":
        return pad(213, r.choice(["é", "語", "🎉"]))
    if cls == "path":
        return r.choice(["sub/x", "./y", "/nowhere/x", "a/b/c/" + pad(9), "x\0y", "/", "sub/"])
    if cls == "any":
        pass
    return pad(r.randrange(214)) if r.randrange(2) else "é" * r.randrange(107)


def worlds(r):
    """Containers with manifests in every kind of place."""
    out = []
    k = 0
    for mode in ("one", "two", "none", "manual", "manual", "one"):
        c = rand_case(r, i=k)
        while c["mode"] != mode:
            c = rand_case(r, i=k)
        small = [{"g": [kk, n, 5 + j], "hint": h} for j, (kk, n, h) in enumerate([("t", 300, "y"), ("r", 40, "n"), ("c", 0, "d")])]
        if mode == "manual":
            c["packs"] = [{"id": x, "loc": "p%d.jbkc" % x, "comp": r.choice([["none"], ["zstd", 1]]), "contents": small} for x in r.sample([1, 2, 3, 256, 65535], 3 if k == 3 else 1)]
            c["dirpos"] = r.randrange(4)
            if k == 4:
                c["pfree"] = [[p["id"], [7, 8, 9]] for p in c["packs"]]
        else:
            c["contents"] = small
            c["extra"] = [{"id": x, "comp": ["none"], "contents": small[:2]} for x in ([2, 5] if k == 5 else [3] if k == 2 else [])]
        c["label"] = "world %d (%s)" % (k, mode)
        c["dir"] = small_dir(r, 3)
        out.append(c)
        k += 1
    return out


def parse_manifest(data, base, size):
    ck = int.from_bytes(data[base + 40:base + 48], "little")
    n = int.from_bytes(data[base + 64:base + 66], "little")
    return [(bytes(data[base + ck - 256 * (n - i):][:16]), ck - 256 * (n - i)) for i in range(n)], ck


def diffs(a, b):
    """Byte ranges of b which differ from a."""
    out, i, n = [], 0, min(len(a), len(b))
    if a == b:
        return out
    while i < n:
        if a[i] != b[i]:
            j = i
            while j < n and a[j] != b[j]:
                j += 1
            out.append([i, list(b[i:j])])
            i = j
        else:
            i += 1
    return out


class World:
    def __init__(self, C, case, seed):
        self.case, self.C = case, C
        ev = C.container(case, random.Random(seed), keep=True)
        self.ok, self.ev, self.dir = ev["built"] and ev["opened"], ev, ev.pop("folder")
        self.names = sorted(n for n in os.listdir(self.dir))
        self.uuids = {}           # file -> uuids of the packs in it
        for n in self.names:
            data, packs = jbkfile.scan(os.path.join(self.dir, n))
            self.uuids[n] = [data[p["pos"] + 10:p["pos"] + 26] for p in packs]
            for p in packs:
                if p["kind"] == "jbkm":
                    self.main, self.man = n, p
                    self.data = data
        self.infos, self.ck = parse_manifest(self.data, self.man["pos"], self.man["size"])

    def history(self, hist, seed, tag):
        """hist: [(pack index or 0, class or text)]"""
        r = random.Random(seed)
        d = os.path.join(self.C.root, "h-" + tag)
        os.mkdir(d)
        for n in self.names:
            shutil.copyfile(os.path.join(self.dir, n), os.path.join(d, n))
        where = {n: n for n in self.names}          # original name -> current name
        path = os.path.join(d, self.main)
        prev = self.data
        base = self.man["pos"]
        steps = []
        mask = [[o + 38, o + 256] for _, o in self.infos]
        for p, cls in hist:
            uuid = self.infos[(p - 1) % len(self.infos)][0] if p else r.choice(
                [bytes(16), r.randbytes(16), bytes(self.data[base + 10:base + 26]), bytes(self.data[10:26]) if base else r.randbytes(16),
                 self.infos[0][0][:15] + bytes([self.infos[0][0][15] ^ 1])])
            loc = text_of(r, cls)
            loc = loc.encode()[:213].decode("utf8", "ignore")
            res = self.C.pool.one({"id": 0, "op": "setloc", "path": path, "uuid": list(uuid), "loc": list(loc.encode())}, 60)
            res = res["res"] if res["outcome"] == "done" else [res["outcome"]]
            new = open(path, "rb").read()
            # the file follows its new name when it can have it
            home = [n for n in self.names if n != self.main and uuid in self.uuids[n]]
            if p and home and loc not in ("", ".", "..") and "/" not in loc and "\0" not in loc and len(loc.encode()) < 250 \
                    and not os.path.exists(os.path.join(d, loc)) and r.randrange(4):
                os.rename(os.path.join(d, where[home[0]]), os.path.join(d, loc))
                where[home[0]] = loc
            files = [[list(where[n].encode()), list(u)] for n in self.names for u in self.uuids[n]]
            sm = self.C.pool.one({"id": 0, "op": "prims", "path": path, "b3": [{"pos": base, "n": self.ck, "mask": mask}], "clusters": []}, 60)
            rd = self.C.pool.one({"id": 0, "op": "manifest", "path": path}, 60)
            ans = {"opened": False, "why": "", "idx": {}, "c": self.ev["c"], "reads": [], "packs": [], "check": ""}
            readback(self.C.pool, ans, path, self.case, r)
            steps.append({"uuid": list(uuid), "loc": list(loc.encode()), "res": res, "diffs": diffs(prev, new), "samesize": len(prev) == len(new),
                          "sum": sm["res"]["b3"][0] if sm["outcome"] == "done" else [], "files": files,
                          "read": rd["res"] if rd["outcome"] == "done" else {"count": -1, "infos": [], "check": rd["outcome"]},
                          "answers": {k: ans[k] for k in ("opened", "why", "idx", "reads", "check")}})
            prev = new
        shutil.rmtree(d)
        ev = {k: self.ev[k] for k in ("c", "dir", "handles", "addrs", "fulls")}
        ev.update(man={"base": base, "len": self.man["size"], "segs": [[base, list(self.data[base:base + self.man["size"]])]]},
                  inside=[list(u) for u in self.uuids[self.main]], steps=steps)
        return ev


def run(chk):
    model(chk, "Manifest", "Manifest_A.cfg")
    for c in ("bad1", "bad2", "bad3"):
        model_bad(chk, "Manifest", "Manifest_%s.cfg" % c)
    ms, res = tlc_emit("Manifest", "Manifest_emit.cfg")
    chk.add(states=res["distinct"], transitions=res["states"], models_checked=1)
    hists = [m["hist"] for m in ms]
    r = random.Random(SEED * 1000 + 12)
    b = build()
    with Scratch("c12") as d, Pool(b, d) as p:
        C = Con(p, d)
        ws = []
        for rnd in range(1 if QUICK else 8):
            for i, c in enumerate(worlds(r)):
                w = World(C, c, SEED + i)
                if not w.ok:
                    chk.violation("c12: %s cannot be created or read" % c["label"], {"case": c, "event": w.ev})
                else:
                    ws.append(w)
        jobs = []
        for i, h in enumerate(hists if not QUICK else r.sample(hists, 220)):
            jobs.append((ws[i % len(ws)], h))
        for i in range(40 if QUICK else 1500):
            w = ws[i % len(ws)]
            jobs.append((w, [(r.randrange(0, len(w.infos) + 1), r.choice(["empty", "short", "utf8", "max", "maxutf8", "path", "any", "any"]))
                             for _ in range(r.choice([3, 5, 8]))]))
        log("histories", len(jobs))
        with concurrent.futures.ThreadPoolExecutor(p.n) as ex:
            evs = list(ex.map(lambda x: x[1][0].history(x[1][1], SEED * 7919 + x[0], str(x[0])), enumerate(jobs)))
        bad, st = tlc_cases("ManifestCase", evs, "c12", jobs=8)
        for i in bad:
            chk.violation("c12: history %s on %s is not accepted" % (jobs[i][1], jobs[i][0].case["label"]),
                          {"case": jobs[i][0].case, "hist": jobs[i][1], "event": evs[i]})
        chk.add(states=st["distinct"], transitions=st["distinct"], traces_validated_against_impl=len(evs),
                rewrites=sum(len(e["steps"]) for e in evs))
        for e, j in list(zip(evs, jobs))[::max(1, len(jobs) // 4)]:
            chk.sample({"world": j[0].case["label"], "history": j[1], "results": [s["res"][0] for s in e["steps"]]})


if __name__ == "__main__":
    main(run, "C12", "model_checking")
