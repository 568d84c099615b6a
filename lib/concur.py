"""Concurrent readers (C07): schedules of SyncVec.tla and ClusterCache.tla on the real code, and free runs."""
import lzma
from congen import *
from dmg import rich_dir

CHUNK = 4096


def simulate(module, cfg, num, seed, depth=80):
    out = tlc(module, cfg, workers=1, extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)], timeout=300)
    cases = [json.loads(json.loads(l)[5:]) for l in out["out"].splitlines() if l.startswith('"CASE ')]
    if not cases:
        print(out["out"][-3000:])
        raise ToolError("no walk from %s/%s" % (module, cfg))
    seen, res = set(), []
    for c in cases:
        k = json.dumps(c, sort_keys=True)
        if k not in seen:
            seen.add(k)
            res.append(c)
    return res


def spread(r, n):
    """Bytes which compress a little, each offset distinguishable."""
    return bytes(r.randrange(97, 97 + 20) if r.randrange(4) else r.randrange(256) for _ in range(n))


def blob_sizes(r, total, kind):
    if kind == 0:
        return [total]
    if kind == 1:
        a = r.choice([1, 4095, 4096, 4097, 5000])
        b = r.choice([1, 100, 3000])
        return [a, total - a - b, b]
    a = sorted(r.sample(range(1, total), 4))
    return [y - x for x, y in zip([0] + a, a + [total])]


def small_cluster(M, r, comp, kind):
    """A container with one compressed cluster of three chunks."""
    total = 2 * CHUNK + r.choice([1, 2, 2000, CHUNK - 1, CHUNK])
    data = spread(r, total)
    sizes = blob_sizes(r, total, kind)
    parts, at = [], 0
    for s in sizes:
        parts.append(data[at:at + s])
        at += s
    g = [{"hex": p.hex()} for p in parts]
    case = {"mode": r.choice(["one", "two"]), "comp": [comp, 1], "dir": one_store_dir(len(g)), "contents": [{"g": x, "hint": "y"} for x in g]}
    f = M.folder()
    res = M.pool.one({"id": 0, "op": "build", "spec": M.spec(case, f)}, timeout=120)
    if res["outcome"] != "done" or not res["res"]["ok"]:
        return None
    return {"folder": f, "path": os.path.join(f, "out.jbk"), "g": g, "data": data, "total": total, "good": total, "comp": comp, "sizes": sizes}


def cut_short(M, r, c, good):
    """The same container, but the compressed data (lzma) ends after `good` bytes."""
    f = M.folder()
    done = False
    for n in os.listdir(c["folder"]):
        d = bytearray(open(os.path.join(c["folder"], n), "rb").read())
        # a `lzma alone` header: properties, dictionary, size
        m = re.search(rb"\x5d....(\xff{8}|.{2}\x00{6})", bytes(d), re.S)
        if m and not done:
            for k in (0, 1):
                raw = lzma.compress(c["data"][:good], format=lzma.FORMAT_ALONE, preset=6)
                if m.start() + len(raw) < len(d):
                    d[m.start():m.start() + len(raw)] = raw
                    done = True
                    break
        open(os.path.join(f, n), "wb").write(d)
    return dict(c, folder=f, path=os.path.join(f, "out.jbk"), good=good) if done else None


def request(c, walks):
    return {"id": 0, "op": "sync", "path": c["path"], "g": c["g"], "good": c["good"], "walks": walks}


def bigbuild(M, contents, comp, mode="one", d=None, extra=()):
    case = {"mode": mode, "comp": comp, "dir": d or one_store_dir(4), "contents": contents, "extra": list(extra)}
    f = M.folder()
    spec = M.spec(case, f)
    res = M.pool.one({"id": 0, "op": "build", "spec": spec, "quiet": True}, timeout=300)
    if res["outcome"] != "done" or not res["res"]["ok"]:
        raise ToolError("a container for concurrent readers could not be created: %s" % str(res)[:300])
    return f, os.path.join(f, "out.jbk")
