"""C14: written bytes follow the documented layout; old files keep reading the same."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from congen import *

QUICK = TIER != "thorough"
CORPUS = os.path.join(VERIF, "corpus")


def corpus(pool, C):
    cases, evs = [], []
    for n in sorted(os.listdir(CORPUS)):
        d = os.path.join(CORPUS, n)
        k = json.load(open(os.path.join(d, "case.json")))
        case = k["case"]
        case["label"] = "corpus " + n
        ev = blank(case, C.R.norm)
        ev.update(built=True, handles=k["handles"], addrs=[x["addr"] for x in k["adds"]])
        ev["c"]["adds"] = k["adds"]
        out = os.path.join(d, "out.jbkm" if case["mode"] == "manual" else "out.jbk")
        readback(pool, ev, out, case, None)
        cases.append(case)
        evs.append(ev)
    return cases, evs


def widths(r):
    """Every width of the offsets of clusters and of the tables."""
    out = []
    for total in (254, 255, 256, 65534, 65535, 65536, 65537, 2**24 - 1, 2**24, 2**24 + 1):
        for comp in (["none"], ["zstd", 1], ["lz4", 1], ["lzma", 0]):
            if total > 70000 and comp[0] == "lzma":
                continue
            out.append({"label": "width %d %s" % (total, comp), "mode": "one", "comp": comp, "dir": EMPTY_DIR, "contents": [
                {"g": ["t", 1, 3], "hint": "y"}, {"g": ["t", total - 1, 3], "hint": "y"}]})
    for n in (4095, 4096, 4200):
        out.append({"label": "blobs %d" % n, "mode": "one", "comp": ["zstd", 1], "dir": EMPTY_DIR,
                    "contents": [{"g": ["t", 3, 3], "hint": r.choice("yn"), "rep": n}]})
    return out


def dirs(r, n):
    """Directories alone, more varied than those of the random containers."""
    out = []
    for i in range(n):
        d = small_dir(r, 0)
        out.append({"label": "dir %d" % i, "mode": "manual", "comp": ["none"], "packs": [], "dir": d, "dirpos": 0})
    return out


def run(chk):
    r = random.Random(SEED * 1000 + 14)
    b = build()
    k = 3 if QUICK else 30
    cases = widths(r) + dirs(r, 500 * k) + [rand_case(r, big=i % 10 == 0, i=i) for i in range(600 * k)]
    with Scratch("c14") as d, Pool(b, d) as p:
        C = Con(p, d)
        cc, ce = corpus(p, C)
        judge_con(chk, cc, ce, "corpus")
        chk.add(corpus_containers=len(cc))
        for i in range(0, len(cases), 1200):
            part = cases[i:i + 1200]
            ev = C.events(part)
            judge_format(chk, "C14", part, ev, "c14")
            for c, e in list(zip(part, ev))[-2:]:
                chk.sample({"case": c["label"], "files": [[bytes(f["name"]).decode(), f["size"]] for f in e["files"]]})
            chk.add(files_decoded=sum(len(e["files"]) for e in ev), packs_decoded=sum(len(f["packs"]) for e in ev for f in e["files"]))


if __name__ == "__main__":
    main(run, "C14", "translation_validation")
