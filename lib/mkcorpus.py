"""Makes /verif/corpus: containers written by the pinned version (give the path of a harness built against it).
Run once; the corpus is committed.  Only containers which the pinned version itself reads back right are kept."""
import sys
sys.path.insert(0, "/verif/lib")
from congen import *

OUT = os.path.join(VERIF, "corpus")


def cases(r):
    i = 0
    while True:
        c = rand_case(r, i=i)
        # short contents: the corpus is small
        for lst in [c.get("contents", [])] + [p["contents"] for p in c.get("packs", [])] + [x["contents"] for x in c.get("extra", [])]:
            for k in lst:
                k["g"] = [k["g"][0], min(k["g"][1], 700), k["g"][2]]
        i += 1
        yield c


def main():
    binary = sys.argv[1]
    r = random.Random(14)
    shutil.rmtree(OUT, ignore_errors=True)
    os.makedirs(OUT)
    seen = {}
    with Scratch("corpus") as d, Pool(binary, d) as p:
        C = Con(p, d)
        n = 0
        gen = cases(r)
        batch = [next(gen) for _ in range(1500)]
        evs = [C.container(c, None, keep=True) for c in batch]
        slim = [{k: v for k, v in e.items() if k not in ("prog", "folder")} for e in evs]
        bad, _ = tlc_cases("ContainerCase", slim, "corpus")
        print("pinned version wrong on", len(bad), "of", len(batch))
        for i, (c, e) in enumerate(zip(batch, evs)):
            if i in bad:
                continue
            feats = {"mode " + c["mode"], "comp %s" % c["comp"], "dedup %s" % c.get("dedup")}
            for st in c["dir"]["stores"]:
                feats.add("sort %s" % bool(st["sort"]))
                feats.add("variants %d" % len(st["variants"]))
                for pr in st["common"] + [q for v in st["variants"] for q in v[1]]:
                    feats.add("prop %s %s" % (pr[0], pr[2] if pr[0] == "a" else ""))
                    vals = [w["vals"][pr[1]] for w in st["rows"] if pr[0] != "p" and pr[1] in w["vals"]]
                    feats.add("const %s %s" % (pr[0], len(vals) > 1 and len(set(map(json.dumps, vals))) == 1))
                    for v in vals:
                        feats.add("value %s %s" % (v[0], len(v[1]) if v[0] == "a" else len(bytes(v[1]).rstrip(b"\0")) if v[0] in "us" else ""))
            for v in c["dir"]["vs"]:
                feats.add("store " + v)
            for k in c.get("packs", []) + c.get("extra", []):
                feats.add("comp %s" % k["comp"])
            new = [f for f in feats if seen.get(f, 0) < 2]
            if not new or n >= 60:
                continue
            for f in feats:
                seen[f] = seen.get(f, 0) + 1
            dst = os.path.join(OUT, "%02d" % n)
            shutil.copytree(e["folder"], dst)
            with open(os.path.join(dst, "case.json"), "w") as f:
                json.dump({"case": c, "adds": e["c"]["adds"], "handles": e["handles"], "reads": e["reads"]}, f, separators=(",", ":"))
            n += 1
        print(n, "containers,", len(seen), "features")


main()
