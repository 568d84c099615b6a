"""Development tool: runs the check of each planted bug against it. python3 lib/seed/run.py [ID...]
(applies the patch to /repo, runs the quick check, undoes it)."""
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
assert subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout == ""
for i in ids:
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    t = time.time()
    try:
        r = subprocess.run(["python3", "checks/%s.py" % prop.lower()], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=900)
        v = re.findall("VIOLATION property=%s" % prop, r.stdout)
        print("%-32s %s rc=%d %s %.0fs" % (i, prop, r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", time.time() - t), flush=True)
        if r.returncode == 2:
            print(r.stdout[-1500:])
    except subprocess.TimeoutExpired:
        print(i, "TIMEOUT", flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
