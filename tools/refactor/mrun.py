#!/usr/bin/env python3
# mrun.py OUT N SEED [FILE…]: runs the checks on N random mutants of /tmp/mutants.jsonl; those no check reports go to OUT.
import json, os, random, shutil, subprocess, sys, threading, queue, time
out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
only = sys.argv[4:]
skip = ("internal/rows/", "internal/arrow3/", "internal/render/", "internal/home/", "internal/test/", "internal/self/metrics/transform/error.go", "internal/retry")
ms = [json.loads(l) for l in open("/tmp/mutants.jsonl")]
ms = [m for m in ms if (any(m["File"].startswith(o) for o in only) if only else not m["File"].startswith(skip))]
random.Random(seed).shuffle(ms)
ms = ms[:n]
first = {"internal/visit/": "C10 C11 C12 C32", "internal/dataframe/": "C06 C07 C08 C15 C34", "internal/store/": "C15 C02 C05 C16", "internal/f2/": "C35 C34 C33",
 "internal/self/metrics/": "C31", "internal/self/trace/": "C30", "internal/shards/": "C09 C17 C19 C22 C20 C18", "cmd/": "C24 C39", "internal/transform/": "C01 C03 C32", "internal/js/": "C27 C28 C26",
 "internal/translate/": "C33 C34 C16", "internal/commands/": "C29 C39", "internal/service/": "C21 C36 C18 C24", "internal/data/": "C13 C14", "internal/view/": "C08 C04", "internal/batch/": "C04 C08", "internal/compile/": "C29", "internal/compress/": "C25"}
allids = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
env = dict(os.environ)
for l in subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env"], capture_output=True, text=True).stdout.splitlines():
    if "=" in l: k, v = l.split("=", 1); env[k] = v
W = int(os.environ.get("W", "7"))
shutil.copy("/verif/bin/rqstatic", "/tmp/rqs-mut")
q = queue.Queue()
for m in ms: q.put(m)
lock = threading.Lock(); stat = dict(caught=0, build=0, survived=0)
fo = open(out, "a"); fc = open(out + ".caught", "a")
def work(i):
    d = "/tmp/mw%d" % i
    shutil.rmtree(d, ignore_errors=True); shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    v = d + "-v"; os.makedirs(v + "/evidence", exist_ok=True); shutil.copy("/verif/known_findings.txt", v)
    e = dict(env, RQ_REPO=d, RQ_VERIF=v, RQ_FIRST="1", GOMAXPROCS="2")
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = d + "/" + m["File"]; src = open(p, "rb").read()
        open(p, "wb").write(src[:m["Off"]] + m["New"].encode() + src[m["End"]:])
        try:
            r = subprocess.run(["go", "build", "./..."], cwd=d, env=e, capture_output=True, text=True, timeout=120)
            if r.returncode != 0:
                # an import that is not used any more
                subprocess.run(["goimports", "-w", p], cwd=d, env=e, capture_output=True, timeout=60)
                r = subprocess.run(["go", "build", "./..."], cwd=d, env=e, capture_output=True, text=True, timeout=120)
            if r.returncode != 0:
                with lock: stat["build"] += 1
                continue
            ids = next((x.split() for k, x in first.items() if m["File"].startswith(k)), [])
            ids = ids + [x for x in allids if x not in ids]
            r = subprocess.run(["/tmp/rqs-mut", "check"] + ids + ["quick"], env=e, cwd=d, capture_output=True, text=True, timeout=600)
            hit = [l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            with lock:
                if hit or r.returncode != 0:
                    stat["caught"] += 1; fc.write(json.dumps(dict(m, by=hit)) + "\n"); fc.flush()
                else:
                    stat["survived"] += 1; fo.write(json.dumps(m) + "\n"); fo.flush()
                if sum(stat.values()) % 20 == 0: print(stat, flush=True)
        except subprocess.TimeoutExpired:
            with lock: stat["caught"] += 1
        finally:
            open(p, "wb").write(src)
    shutil.rmtree(d, ignore_errors=True); shutil.rmtree(v, ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]; print(stat)
