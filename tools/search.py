"""Coverage-guided search for calls to put before the specification.

Seeds are the calls of behaviours of the specification; libFuzzer varies them on the
library as it is now, keeps what reaches something new in it, and these calls become
"given" sessions: TLC decides what the answers are, replay compares."""
import glob, json, os, random, re, shutil, subprocess, time
import vf

def build():
    out = os.path.join(vf.BUILD, "search")
    os.makedirs(out, exist_ok=True)
    p = subprocess.run(["make", "-s", "-j%d" % vf.CORES, "-C", os.path.join(vf.VERIF, "harness"), "search",
                        "REPO=" + vf.REPO, "OUT=" + vf.BUILD], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise vf.Broken("search build failed:\n" + p.stdout[-3000:])
    return os.path.join(out, "fuzz")

MAX = 700
def pieces(units):
    out = b""
    for u in units:
        u = u[:511]
        out += bytes([len(u) >> 8, len(u) & 255]) + u
    return out
def split(d):
    i, out = 0, []
    while i + 2 <= len(d):
        z = (d[i] & 1) * 256 + d[i + 1]
        i += 2
        z = min(z, len(d) - i)
        out.append(d[i:i + z])
        i += z
    return out

def unescape(b):
    out, z = bytearray(), 0
    for c in b:
        if z >= 2 and c == 3:
            z = 0
            continue
        out.append(c)
        z = z + 1 if c == 0 else 0
    return bytes(out)

def seeds_of(events):
    """the inputs of the search a behaviour gives"""
    units, packets, raw = {1: [], 2: []}, {1: [], 2: []}, []
    for e in events:
        b, op, st = bytes(e["b"]), e["op"], e["st"]
        if op == "nalu":
            units[st].append(unescape(b))
        elif op in ("naluu", "nalub"):
            units[st].append(b)
        elif op == "payload":
            t = e["a"][0]
            units[st].append(bytes([(t * 2) & 127, 1]) + (unescape(b) if e["a"][1] == 0 else b[2:]))
        elif op in ("stream", "dump", "qp", "find", "cli") and (op != "dump" or e["a"][0] in (0, 4)):
            raw.append(bytes([0, 0]) + b)
            units[st] += [unescape(u) for u in re.split(b"\x00\x00\x00?\x01", b)[1:]]
        elif op == "lenstream":
            raw.append(bytes([1, e["a"][2] % 9]) + b)
        elif op in ("rtp", "rtpap", "rtpsingle", "rtpfu"):
            packets[st].append(b)
        elif op == "hvcc" or op == "dump" and e["a"][0] == 3:
            raw.append(bytes([3, 0]) + b)
        elif op == "sei":
            raw.append(bytes([4, 0]) + b)
            units[st].append(bytes([78, 1]) + b)
        elif op == "strps" and e["a"][0] == 0 and e["a"][1] < 8:
            raw.append(bytes([5, e["a"][1]]) + b)
    for st in (1, 2):
        if units[st]:
            raw.append(bytes([6, 0]) + pieces(units[st]))
            raw.append(bytes([6, 0]) + pieces(units[st][-4:]))
            raw.append(bytes([0, 0]) + b"".join(b"\0\0\1" + u for u in units[st]))
        if packets[st]:
            raw.append(bytes([2, 0]) + pieces(packets[st]))
    return [r for r in raw if 3 <= len(r) <= MAX]

def events_of(x):
    """the calls an input of the search stands for"""
    op, arg, b = x[0] % 8, x[1], x[2:]
    E = lambda o, st, b, a: {"op": o, "st": st, "b": list(b), "a": a}
    if op == 0:
        return [E("stream", 1, b, [1, 0]), E("dump", 2, b, [0, -1, 31])]
    if op == 1:
        return [E("lenstream", 1, b, [1, 0, arg % 9])]
    if op == 2:
        return [E("rtp", 1, u, [0]) for u in split(b)]
    if op == 3:
        return [E("hvcc", 1, b, [1, 0]), E("dump", 2, b, [3, -1, 31])]
    if op == 4:
        return [E("sei", 1, b, [1])]
    if op == 5:
        return [E("strps", 1, b, [0, arg % 8, 15])]
    if op == 6:
        return [E("naluu", 1, u, [1]) for u in split(b)] + [E("nalu", 2, u, [0]) for u in split(b)[-1:]]
    return [E("nalu", 1, u, [1]) for u in split(b)]

def search(seed_sessions, seconds, seed, limit, work):
    """sessions (lists of calls without answers) found in that time, at most limit of them"""
    exe = build()
    base = os.path.join(work, "search")
    shutil.rmtree(base, ignore_errors=True)
    sd = os.path.join(base, "seeds")
    os.makedirs(sd)
    rnd = random.Random(seed)
    n = 0
    for ev in seed_sessions:
        for x in seeds_of(ev):
            with open(os.path.join(sd, "%06d" % n), "wb") as f:
                f.write(x)
            n += 1
    if n == 0:
        return [], {"seeds": 0}
    ps = []
    for k in range(vf.CORES):
        d = os.path.join(base, "new%d" % k)
        os.makedirs(d)
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=2500:malloc_fill_byte=190:max_malloc_fill_size=4096"
        ps.append((d, subprocess.Popen([exe, d, sd, "-seed=%d" % (seed * 100 + k + 1), "-max_total_time=%d" % seconds, "-max_len=%d" % MAX,
                   "-len_control=0", "-use_counters=0", "-reduce_inputs=0", "-reload=0", "-print_final_stats=1", "-timeout=25", "-rss_limit_mb=2500", "-verbosity=1",
                   "-artifact_prefix=%s/crash-" % base],
                   stdout=subprocess.DEVNULL, stderr=open(os.path.join(base, "log%d" % k), "wb"), env=env, cwd=base)))
    for d, p in ps:
        try:
            p.wait(seconds + 120)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
    execs = 0
    for k in range(vf.CORES):
        with open(os.path.join(base, "log%d" % k), errors="replace") as f:
            m = re.search(r"number_of_executed_units: (\d+)", f.read())
        execs += int(m.group(1)) if m else 0
    inputs = [open(f, "rb").read() for f in sorted(glob.glob(base + "/crash-*"))]
    # one input for each thing that is new with respect to the seeds; the rest as far as there is room
    dirs = [d for d, _ in ps]
    total = sum(len(os.listdir(d)) for d in dirs)
    before = set(os.listdir(sd))
    try:
        subprocess.run([exe, "-merge=1", "-use_counters=0", "-timeout=25", "-rss_limit_mb=2500", "-artifact_prefix=%s/late-" % base, sd] + dirs,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"), timeout=200)
    except subprocess.TimeoutExpired:
        pass
    inputs += [open(f, "rb").read() for f in sorted(glob.glob(base + "/late-*"))]
    fs = sorted(os.path.join(sd, f) for f in os.listdir(sd) if f not in before)
    merged = len(fs)
    rnd.shuffle(fs)
    rest = sorted(f for d in dirs for f in glob.glob(d + "/*"))
    rnd.shuffle(rest)
    for f in fs + rest[:max(0, limit - len(inputs) - merged)]:
        inputs.append(open(f, "rb").read())
    seen, out = set(), []
    for x in inputs:
        if len(x) >= 3 and x not in seen:
            seen.add(x)
            ev = events_of(x)
            if ev:
                out.append(ev)
    shutil.rmtree(base, ignore_errors=True)
    return out[:limit], {"seeds": n, "executions": execs, "new": total, "covering": merged}

def media(seed, n):
    """sessions from the sample streams of the repository: units cut short, now and then damaged"""
    rnd = random.Random(seed)
    files = sorted(glob.glob(os.path.join(vf.REPO, "media", "*.265")) + glob.glob(os.path.join(vf.REPO, "video", "*.265")))
    out = []
    if not files:
        return out
    for k in range(n):
        d = open(files[k % len(files)], "rb").read()[:400000]
        us = re.split(b"\x00\x00\x00?\x01", d)[1:]
        head = [u for u in us[:12]]
        more = us[12:]
        a = rnd.randrange(0, max(1, len(more)))
        cut = [u[:rnd.choice((20, 40, 90, 200))] for u in head + more[a:a + 12]]
        cut = [u for u in cut if len(u) > 2]
        if k >= len(files):
            for _ in range(rnd.randrange(1, 6)):
                j = rnd.randrange(len(cut))
                u = bytearray(cut[j])
                i = rnd.randrange(2, min(len(u), 30)) if len(u) > 2 else 0
                u[i] ^= 1 << rnd.randrange(8)
                cut[j] = bytes(u)
        E = lambda o, st, b, a: {"op": o, "st": st, "b": list(b), "a": a}
        st = b"".join(rnd.choice((b"\0\0\1", b"\0\0\0\1")) + u for u in cut)
        ev = [E("stream", 1, st, [1, 0])] + [E("nalu", 2, u, [1]) for u in cut[:8]]
        ev += [E("qp", 1, st, []), E("dump", 2, st, [0, rnd.choice((0, -1)), rnd.randrange(32)]), E("rtp", 2, cut[-1], [0]),
               E("cli", 1, st, [4, 21, 2, 11, 1025]), E("cli", 1, st, [5, 21, 5, 7, 9, 13])]
        out.append(ev)
    return out
