"""C09: creation is all-or-nothing at the destination path."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from congen import *

QUICK = TIER != "thorough"
ENOSPC, EIO, EXDEV, EINTR, EACCES, EEXIST, ENOENT = 28, 5, 18, 4, 13, 17, 2
FILES = ["c.jbk", "c.jbkc", "c..jbkd", "x.jbkc"]


def content(k, n, seed, hint="y", src="mem"):
    return {"g": [k, n, seed], "hint": hint, "src": src}


def spec(seed, mode, extra, comp="zstd", big=0, dedup=False, files=False):
    cs = [content("t", 40, seed), content("r", 30, seed + 1, "n"), content("r", 50, seed, "n", "file"), content("t", 25, seed + 9, "d", "range"),
          content("t", 0, 0)]
    if files:
        cs += [content("r", 90000, seed + 2, "n", "file"), content("t", 70000, seed + 3, "y", "tail")]
    for i in range(big):
        cs.append(content("t", 1500000, seed + 20 + i))
        cs.append(content("r", 300000, seed + 40 + i, "n", "file" if i % 2 else "mem"))
    d = one_store_dir(3 + seed % 3)
    return {"mode": mode, "comp": [comp], "contents": cs, "dir": harness_dir(d), "out": "{D}/c.jbk", "dedup": dedup,
            "extra": [{"id": 2, "comp": ["none"], "path": "{A}/x.jbkc", "contents": [content("r", 20, seed, "d"), content("t", 33, seed + 5)]}]
            if extra else []}


def worlds():
    """(label, case, exhaustive)"""
    out = []
    for mode in ("one", "two", "none"):
        for extra in (False, True):
            for prev in (True, False):
                comp = ("lz4", "none", "zstd")[len(out) % 3]
                c = {"spec": spec(1, mode, extra, comp), "files": FILES}
                if prev:
                    c["prev"] = spec(7, mode, extra, comp)
                out.append(("%s%s%s" % (mode, "+extra" if extra else "", "+previous" if prev else ""), c, True))
    return out


def wide_worlds(r, n):
    """Larger or unusual creations, at points taken at random."""
    out = []
    for i in range(n):
        mode = ("one", "two", "none")[i % 3]
        c = {"spec": spec(100 + i, mode, bool(i % 2), r.choice(["none", "lz4", "lzma", "zstd"]), big=r.choice([0, 0, 1, 4]),
                          dedup=bool(r.randrange(2)), files=bool(r.randrange(2))), "files": FILES, "rel": i % 4 == 1}
        if i % 3 != 2:
            pm = r.choice(["one", "two", "none"])
            c["prev"] = spec(200 + i, pm, bool(i % 2))
        out.append(("wide %d %s" % (i, mode), c, False))
    return out


def run(chk):
    r = random.Random(SEED * 1000 + 9)
    b, sh = build(), shim("fault") + ":" + shim("ncpu")
    for x in "ABCD":
        model(chk, "AtomicCreate", "AtomicCreate_%s.cfg" % x)
    for i in ((1, 3, 5, 6, 8, 9) if QUICK else range(1, 12)):
        model_bad(chk, "AtomicCreate", "AtomicCreate_bad%d.cfg" % i)
    vectors = {}
    for m in ("one", "two", "none"):
        for x in ("", "x"):
            for p in ("", "p"):
                cs, _ = tlc_emit("AtomicCreate", "AtomicCreate_emit_%s%s%s.cfg" % (m, x, p))
                vectors["%s%s%s" % (m, "+extra" if x else "", "+previous" if p else "")] = {
                    tuple(c["v"].get(k, "absent") for k in "ECDX") for c in cs}
    with Scratch("c09") as d, Pool(b, d, timeout=600) as p:
        def ask(c, faults):
            if QUICK and time.time() - T0 > 620:
                return "late"
            g = p.one(dict(c, id=0, op="atomic", shim=sh, timeout=8000 if QUICK else 20000, faults=faults))
            return g.get("res") if g["outcome"] == "done" and "failed" not in (g["res"] or {}) else None

        W = worlds() + wide_worlds(r, 24 if QUICK else 120)
        # something which cannot be replaced is at one of the paths
        stuck = [("%s, a folder at %s" % (m, FILES[o]), dict({"spec": spec(3, m, True), "files": FILES, "obstacle": o}, **pv), None)
                 for m in ("one", "two", "none") for o in range(4) for pv in ({}, {"prev": spec(5, m, True)})]
        # a creation comes over what a dead one left
        over = [("%s over what a dead creation left" % m, {"spec": spec(3, m, True), "first": spec(11, m, True, big=1 if k else 0, files=True), "files": FILES},
                 k) for m in ("one", "two", "none") for k in (0, 1)]
        base = p.map([dict(c, id=i, op="atomic", shim=sh, faults=[]) for i, (_, c, _) in enumerate(W)])
        jobs = []

        def add(label, c, faults):
            jobs.append((label, c, faults))

        for (label, c, full), g in zip(W, base):
            if g["outcome"] != "done" or "failed" in g["res"] or g["res"]["how"] != "ok":
                chk.add(creations_refused=1)
                log("creation refused", label, str(g)[:300])
                continue
            nb, no, nr, names = g["res"]["total"]
            chk.add(creations=1)
            if full:
                step = 1
                for kind, errno in (("killbyte", 0), ("errbyte", ENOSPC)):
                    for a in range(0, nb + 1, 150):
                        add(label, dict(c, few=True), [{"kind": kind, "from": a, "to": min(a + 150, nb + 1), "errno": errno}])
                add(label, c, [{"kind": "killop", "from": 0, "to": no, "errno": 0}])
                for errno in (EIO, EXDEV, EEXIST, EINTR, EACCES, ENOENT):
                    add(label, c, [{"kind": "errop", "from": 0, "to": no, "errno": errno}])
                add(label, c, [{"kind": "errops", "from": 0, "to": no, "errno": ENOSPC}])
                for k in range(0, 6 if QUICK else 16):
                    for errno in ((EXDEV,) if QUICK else (EXDEV, EIO)):
                        add(label, c, [{"kind": "errop", "from": 0, "to": no, "errno": errno, "then": k}])
                add(label, c, [{"kind": "short", "from": 1, "to": 40, "errno": 0}, {"kind": "intr", "from": 0, "to": 1}])
                add(label, c, [{"kind": "oncebyte", "from": 0, "to": nb, "step": 7 if QUICK else 1, "errno": EIO}])
                add(label, c, [{"kind": "inread", "from": 0, "to": nr, "errno": e} for e in (EIO, EINTR)])
            else:
                n = 12 if QUICK else 60
                at = lambda m: sorted({r.randrange(m + 1) for _ in range(n)} | {m - 1 - r.randrange(min(m - 1, 600)) for _ in range(n // 2)})
                add(label, c, [{"kind": "killbyte", "at": at(nb)}, {"kind": "errbyte", "at": at(nb), "errno": ENOSPC}])
                add(label, c, [{"kind": "killop", "at": at(no)}, {"kind": "errop", "at": at(no), "errno": EIO}])
                add(label, c, [{"kind": "oncebyte", "at": at(nb), "errno": ENOSPC}, {"kind": "inread", "at": at(max(2, nr))[:n], "errno": EIO}])
                add(label, c, [{"kind": "errop", "at": at(no), "errno": r.choice([EIO, EXDEV]), "then": r.randrange(12)}])
                add(label, c, [{"kind": "short", "at": [r.randrange(900, 9000)]}, {"kind": "intr", "at": [0]}])
        for label, c, _ in stuck:
            add(label, c, [{"kind": "none", "at": [0]}, {"kind": "killop", "from": 0, "to": 150, "step": 3 if QUICK else 1}])
        for label, c, k in over:
            firsts = ["killop:%d:0" % n for n in range(0, 190, 17 if QUICK else 4)] + ["killbyte:%d:0" % n for n in ((3000, 60000, 170000) if not k else (900000,))]
            for f in firsts:
                add(label, c, [{"kind": "none", "at": [0], "first": f}, {"kind": "killop", "at": [20, 60, 90, 100, 110, 120, 130, 140], "first": f}])
        r.shuffle(jobs)
        log("%d calls" % len(jobs))
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda j: ask(j[1], j[2]), jobs))
        events, src = [], []
        seen, hows = {}, {}
        for (label, c, faults), g in zip(jobs, res):
            if g == "late":
                chk.add(calls_skipped_for_time=1)
                continue
            if g is None:
                chk.add(calls_without_answer=1)
                continue
            chk.add(fault_points=sum(len(x["faults"]) for x in g["groups"]), points_not_reached=g["missed"], hung=g["hung"],
                    names_not_caught=1 if g["total"][3] else 0)
            for x in g["groups"]:
                hows[x["state"]["how"].split("/")[-1]] = hows.get(x["state"]["how"].split("/")[-1], 0) + len(x["faults"])
                if label in vectors:
                    seen.setdefault(label, set()).add(tuple(f["is"] for f in x["state"]["files"]))
            events.append({"plain": g["plain"], "groups": [{"state": x["state"]} for x in g["groups"]]})
            src.append((label, c, faults, g))
            if len(src) % 97 == 1:
                chk.sample({"creation": label, "sizes": g["sizes"], "results": [[x["state"]["how"], [f["is"] for f in x["state"]["files"]], len(x["faults"])]
                                                                                for x in g["groups"][:4]]})
        # how many of the states of the model were found on the real file system (coverage only)
        chk.add(model_destination_states=sum(len(v) for v in vectors.values()),
                model_destination_states_reached=sum(len(v & seen.get(k, set())) for k, v in vectors.items()))
        log("ends:", hows, "states of the model reached: %d of %d" % (sum(len(v & seen.get(k, set())) for k, v in vectors.items()),
                                                                     sum(len(v) for v in vectors.values())))
        bad, st = tlc_cases("AtomicCase", events, "c09")
        chk.add(states=st["distinct"], transitions=st["states"], traces_validated=len(events))
        told = {}
        for i in bad:
            label, c, faults, g = src[i]
            if told.setdefault(label, 0) >= 2:
                continue
            told[label] += 1
            worst = [x for x in g["groups"] if any(f["is"] == "new" and not (f["whole"] and f["verified"]) or f["is"] == "dir" for f in x["state"]["files"])
                     or x["state"]["files"][0]["is"] == "new" and not all(x["state"][k] for k in ("opens", "check", "found", "same"))
                     or any(h and f["is"] == "absent" for h, f in zip(x["state"]["had"], x["state"]["files"]))]
            chk.violation("creation %s interrupted by %s leaves %s" % (label, worst[0]["faults"][0] if worst else "nothing",
                                                                       json.dumps(worst[0]["state"]["files"]) if worst else json.dumps(g["plain"])),
                          {"creation": label, "case": c, "groups": [{"state": x["state"], "faults": x["faults"][:20]} for x in worst[:3]], "plain": g["plain"]})


if __name__ == "__main__":
    main(run, "C09", "fault_enumeration")
