#!/usr/bin/env python3
"""Development tool (no check uses it): compares the images the harness encodes,
and what the library reads from them, with e2fsprogs.

  crosscheck.py ADAPTER MODULE CFG [COUNT [SEED]]

Replays scenarios of MODULE/CFG, keeps COUNT of the images and compares every
object with debugfs (the images have no bitmaps, so e2fsck cannot read them)."""
import sys, os, json, subprocess, tempfile, glob, re, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
os.environ["PATH"] += ":/usr/sbin:/sbin"
def debugfs(img, cmd):
    return subprocess.run(["debugfs", "-c", "-R", cmd, img], capture_output=True, timeout=120)

def walk(img):
    out = {}
    todo = [(b"", 2)]
    seen = set()
    while todo:
        path, ino = todo.pop()
        if ino in seen:
            continue
        seen.add(ino)
        r = debugfs(img, f"ls -p <{ino}>").stdout
        for m in re.finditer(rb"/(\d+)/(\d+)/(\d+)/(\d+)/([^/]*)/(\d*)/\n", r):
            if m[5] in (b".", b"..") or m[1] == b"0":
                continue
            p = path + b"/" + m[5]
            mode = int(m[2], 8)
            out[p] = (int(m[1]), mode, int(m[3]), int(m[4]))
            if mode & 0o170000 == 0o040000:
                todo.append((p, int(m[1])))
    return out

def main():
    adapter, module, cfg = sys.argv[1:4]
    count = int(sys.argv[4]) if len(sys.argv) > 4 else 8
    seed = int(sys.argv[5]) if len(sys.argv) > 5 else 1
    check.build()
    cx = check.Ctx("C01", "quick", seed)
    lines = cx.model(module, cfg)
    d = tempfile.mkdtemp(prefix="xc")
    try:
        lines = lines[:: max(1, len(lines) // (count * 3))]
        f = os.path.join(d, "s"); open(f, "w").write("".join(f"{i}\t{l}\n" for i, l in enumerate(lines)))
        env = dict(os.environ, E4V_DUMP=d, E4V_DUMP_MAX=str(count))
        subprocess.run([check.BIN, "replay", adapter, f, "--seed", str(seed), "--prop", "C01", "--timeout", "60"], env=env, stdout=subprocess.DEVNULL)
        bad = 0; objs = 0
        for img in sorted(glob.glob(d + "/*.img")):
            o = os.path.join(d, "o"); os.makedirs(o)
            w = [json.loads(x) for x in subprocess.run([check.BIN, "walk", img, o], capture_output=True, text=True).stdout.splitlines()]
            ref = walk(img)
            mine = {bytes.fromhex(x["path"]): x for x in w if "path" in x}
            for x in w:
                if "path" not in x or "err" in x:
                    print("library:", str(x)[:200])
            if set(ref) != set(mine):
                bad += 1
                print("names differ", [x[:40] for x in list(set(ref) ^ set(mine))[:4]], len(ref), len(mine))
            for p, x in mine.items():
                if p not in ref:
                    continue
                ino, mode, uid, gid = ref[p]
                objs += 1
                if "err" in x: continue
                if x["mode"] != mode & 0o7777 or x["uid"] != uid or x["gid"] != gid:
                    bad += 1; print("metadata", p[:60], x, ref[p])
                st = debugfs(img, f"stat <{ino}>").stdout.decode("latin1")
                m = re.search(r"Size: (\d+)", st)
                # debugfs shows the high half of the size of regular files and directories only.
                if m and int(m[1]) != (x["size"] if mode >> 12 in (4, 8) else x["size"] & 0xffffffff):
                    bad += 1; print("size", p[:60], x["size"], m[1])
                if isinstance(x.get("data"), int):
                    g = os.path.join(d, "g")
                    debugfs(img, f"dump <{ino}> {g}")
                    if open(g, "rb").read() != open(f"{o}/{x['data']}", "rb").read():
                        bad += 1; print("data differs", p[:60], x)
                    os.unlink(g)
                elif "data" in x:
                    print("library:", p[:60], x)
                if "link" in x:
                    t = re.search(r'Fast link dest: "(.*)"', st, re.S)
                    if t:
                        if t[1].encode("latin1").hex() != x["link"]:
                            bad += 1; print("link", p, t[1][:40], x["link"][:80])
                    else:
                        g = os.path.join(d, "g")
                        debugfs(img, f"dump <{ino}> {g}")
                        if os.path.exists(g):
                            if open(g, "rb").read().hex() != x["link"]:
                                bad += 1; print("slow link", p[:60])
                            os.unlink(g)
            shutil.rmtree(o); os.unlink(img)
        print(f"{adapter}: {objs} objects compared, {bad} differences")
    finally:
        shutil.rmtree(d, ignore_errors=True)
main()
