#!/usr/bin/env python3
"""Writes a pool of images as real files, for demonstrations: mkimgs.py KSIM POOL PROP COUNT [SEED [MAXSIZE]]
POOL/PROP-RUN/: the files, and a line in POOL/LIST: directory, kind, main file."""
import os, subprocess, sys, json, shutil
ksim, pool, prop, count = sys.argv[1:4] + [int(sys.argv[4])]
seed = sys.argv[5] if len(sys.argv) > 5 else "900"
big = int(sys.argv[6]) if len(sys.argv) > 6 else 6 << 20
KIND = dict(C07="sparseimage", C08="sparsebundle", C09="vhd", C10="vhdx", C11="qcow", C12="udif", C13="ewf", C15="fat", C16="ext", C17="ntfs")
os.makedirs(pool, exist_ok=True)
run = made = 0
while made < count and run < 10 * count:
    name = f"{prop}-{run}"
    d = f"{pool}/{name}"
    case = subprocess.run([ksim, "case", prop, seed, str(run)], capture_output=True, text=True).stdout
    run += 1
    open("/tmp/mkimgs.json", "w").write(case)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run([ksim, "replay", "/tmp/mkimgs.json"], env=dict(os.environ, KSIM_DUMP=d), capture_output=True)
    if os.path.isdir(d + "/img"):
        for f in os.listdir(d + "/img"): os.rename(f"{d}/img/{f}", f"{d}/{f}")
        os.rmdir(d + "/img")
    used = int(subprocess.run(["du", "-s", "-k", d], capture_output=True, text=True).stdout.split()[0]) * 1024
    total = sum(os.path.getsize(os.path.join(a, f)) for a, _, fs in os.walk(d) for f in fs)
    if used > big or total > 1 << 34:
        shutil.rmtree(d); continue
    kind = KIND.get(prop)
    main = "volume"
    if os.path.exists(d + "/MAIN"):
        main = open(d + "/MAIN").read(); os.remove(d + "/MAIN")
    if prop != "C08" and not os.path.isfile(f"{d}/{main}"):
        print("skipped", name, os.listdir(d)); shutil.rmtree(d); continue
    if prop == "C14":
        b = open(f"{d}/{main}", "rb").read(4104)
        kind = "apm" if b[:2] == b"ER" else "gpt" if any(b[o:o+8] == b"EFI PART" for o in (512, 1024, 2048, 4096)) else "mbr"
    with open(pool + "/LIST", "a") as f: f.write(f"{name} {kind} {main}\n")
    made += 1
print(prop, made, "of", run)
