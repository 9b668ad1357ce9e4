#!/usr/bin/env python3
"""Lists the violations of a range of runs: survey.py KSIM PROP SEED FROM TO [workers]."""
import os, subprocess, sys, threading, collections, time

ksim, prop, seed, lo, hi = sys.argv[1], sys.argv[2], *map(int, sys.argv[3:6])
workers = int(sys.argv[6]) if len(sys.argv) > 6 else 8
found = collections.OrderedDict()
lock = threading.Lock()
t0 = time.time()


def add(key, idx, detail):
    with lock:
        found.setdefault(key, []).append((idx, detail))


def work(w):
    at = lo + w
    while at < hi:
        p = subprocess.Popen([ksim, "survey", prop, str(seed), str(at), str(workers), str(hi)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=dict(os.environ, KSIM_BT="1"))
        err = []
        t = threading.Thread(target=lambda: err.append(p.stderr.read()))
        t.start()
        for l in p.stdout:
            if l.startswith("@ "):
                at = int(l[2:])
            elif l.startswith("! "):
                i, rest = l[2:].split(" ", 1)
                key, detail = rest.split(" | ", 1)
                add(detail.split(": ")[0] if key.startswith("panic@") else key, int(i), detail.strip())
        rc = p.wait()
        t.join()
        if rc == 0:
            return
        where = [x.strip() for x in err[0].split("\n") if "keramics" in x and "at " in x]
        add(f"exit {rc} {where[0] if where else ''}", at, err[0][-300:] if not where else " ".join(where[:4]))
        at += workers


ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
[t.start() for t in ts]
[t.join() for t in ts]
for k, v in sorted(found.items(), key=lambda x: -len(x[1])):
    print(f"{len(v):6} {min(v)[0]:7}  {k}\n                  {min(v)[1][:300]}")
print(f"{time.time()-t0:.0f} s")
