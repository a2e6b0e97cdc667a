"""Binds the TLA+ specification to the library.

  build()      harness and command-line tool from /repo's working tree (ASan + UBSan)
  generate()   TLC runs spec/GenSession.tla: behaviours with the expected answers
  replay()     performs the behaviours on the library, compares every answer
  record()     performs given calls on the library, for spec/TraceSession.tla to judge
"""
import zlib
import glob, hashlib, json, os, queue, random, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SPEC = os.path.join(VERIF, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
CORES = 8

def note(msg):
    print("# " + msg, flush=True)

class Broken(Exception):
    """the machinery could not give an answer"""

# ------------------------------------------------------------------- building
def build():
    os.makedirs(BUILD, exist_ok=True)
    p = subprocess.run(["make", "-s", "-j%d" % CORES, "-C", os.path.join(VERIF, "harness"),
                        "REPO=" + REPO, "OUT=" + BUILD], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Broken("harness build failed:\n" + p.stdout[-3000:])
    cls, src = os.path.join(BUILD, "java"), os.path.join(VERIF, "java", "Bits.java")
    os.makedirs(cls, exist_ok=True)
    tgt = os.path.join(cls, "Bits.class")
    if not os.path.exists(tgt) or os.path.getmtime(tgt) < os.path.getmtime(src):
        p = subprocess.run(["javac", "-cp", TLAJAR, "-d", cls, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise Broken("javac failed:\n" + p.stdout[-3000:])

# ------------------------------------------------------------------------ TLC
def tlc(module, cfg, env, workdir, mem="6g", workers=CORES, timeout=840, pure=False):
    jars = ":".join(([] if pure else [os.path.join(BUILD, "java")]) + [TLAJAR] + sorted(glob.glob("/opt/veriftools/tla/*ommunity*.jar")))
    meta = os.path.join(workdir, "meta")
    cmd = ["java", "-Xss64m", "-Xmx" + mem, "-XX:+UseParallelGC", "-cp", jars, "tlc2.TLC",
           "-config", cfg, "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", module]
    e = dict(os.environ); e.update(env)
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as t:
        out, rc = (t.stdout or b"").decode(errors="replace") if isinstance(t.stdout, bytes) else (t.stdout or ""), -1
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out

def states_of(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    return tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)

def laws(members, seed, workdir):
    """TLC checks the laws {name: members} of spec/Laws.tla; states explored"""
    cfg = os.path.join(workdir, "laws.json")
    with open(cfg, "w") as f:
        json.dump({"seed": seed, "out": workdir, "given": "", "runs": [{"profile": "laws", "first": 1, "count": 1}],
                   "laws": [{"law": l, "count": n} for l, n in members.items()]}, f)
    rc, txt = tlc("Laws.tla", "Laws.cfg", {"GENCFG": cfg}, workdir)
    if rc != 0 or "No error has been found" not in txt:
        raise Broken("a law of the specification: " + " ".join([l for l in txt.split("\n") if "LAW BROKEN" in l][:3] or [txt[-1500:]]))
    return states_of(txt)

def generate(runs, seed, workdir, given="", pure=False):
    """runs: [(profile, first, count)]; returns {name: events} and the state counts"""
    out = os.path.join(workdir, "pure" if pure else "out")
    os.makedirs(out, exist_ok=True)
    cfg = os.path.join(workdir, "gen.json")
    with open(cfg, "w") as f:
        json.dump({"seed": seed, "out": out, "given": given,
                   "runs": [{"profile": p, "first": a, "count": n} for p, a, n in runs]}, f)
    rc, txt = tlc("GenSession.tla", "GenSession.cfg", {"GENCFG": cfg}, workdir, pure=pure)
    if rc != 0 or "No error has been found" not in txt:
        at = max(txt.find("Error:"), 0)
        raise Broken("TLC on GenSession: rc %d\n%s\n[...]\n%s" % (rc, txt[at:at + 1500], txt[-700:]))
    return out, states_of(txt)

# --------------------------------------------------------------------- harness
SAN = ("detect_leaks=1:detect_stack_use_after_return=1:abort_on_error=0:exitcode=77:allocator_may_return_null=0:"
       "max_allocation_size_mb=1024:hard_rss_limit_mb=3000:max_malloc_fill_size=1073741824:malloc_fill_byte=%d:"
       "free_fill_byte=%d:max_free_fill_size=1073741824")

class Harness:
    def __init__(self, fill=0xbe, exe=None, decoy=False):
        env = dict(os.environ)
        env.pop("VF_DECOY", None)
        if decoy:
            env["VF_DECOY"] = "1"
        env["ASAN_OPTIONS"] = SAN % (fill, fill ^ 0xff)
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
        self.err = open(os.path.join(BUILD, "harness-%d-%d.err" % (os.getpid(), id(self))), "w+b")
        self.p = subprocess.Popen([exe or os.path.join(BUILD, "harness")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, env=env)
    def ask(self, line, limit=30):
        """one request, one answer; None when the process died or hung"""
        self.why = ""
        timer = threading.Timer(limit, self._hang)
        timer.start()
        try:
            self.p.stdin.write(line.encode() + b"\n")
            self.p.stdin.flush()
            r = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            r = b""
        finally:
            timer.cancel()
        return r if r.endswith(b"\n") else None
    def _hang(self):
        self.why = "no answer within the time limit"
        self.p.kill()
    def report(self):
        self.p.wait()
        self.err.seek(0)
        t = self.err.read().decode(errors="replace")
        m = re.search(r"(ERROR: \w+Sanitizer: [^\n]*|runtime error: [^\n]*|Assertion[^\n]*|terminate called[^\n]*)", t)
        loc = re.search(r"#\d+ 0x\w+ in ([^\n]*/(?:src|include|tools)/[^\n]*)", t)
        return (self.why or (m.group(1) if m else "exit status %s" % self.p.returncode)) + \
               (" at " + loc.group(1) if loc else "")
    def close(self):
        """ends the process; its last words if it does not end well (leaks)"""
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(60)
        except subprocess.TimeoutExpired:
            self.p.kill()
        r = None
        if self.p.returncode not in (0, None):
            r = self.report()
        name = self.err.name
        self.err.close()
        os.unlink(name)
        self.p.stdout.close()
        return r

def request(e):
    return "O %s %d %s %s" % (e["op"], e["st"], bytes(e["b"]).hex() or "-",
                              ",".join(str(x) for x in e["a"]) or "-")

# ------------------------------------------------------------------ comparison
def diff(x, g, path, out, limit=8):
    """differences between expected x and got g; -1 in a bit position of a failed run is free"""
    if len(out) >= limit:
        return
    if type(x) is not type(g):
        out.append((path, x, g))
    elif isinstance(x, dict):
        for k in x.keys() | g.keys():
            if k == "use":
                continue    # what governs a slice, kept by the specification for its dump
            if k not in x:
                out.append((path + "." + k, None, g[k]))
            elif k not in g:
                out.append((path + "." + k, x[k], None))
            elif x[k] != g[k]:
                diff(x[k], g[k], path + "." + k, out, limit)
    elif isinstance(x, list):
        if len(x) != len(g):
            out.append((path + "#", x, g))
        for i, (a, b) in enumerate(zip(x, g)):
            if a != b:
                diff(a, b, "%s[%d]" % (path, i), out, limit)
    elif x != g:
        out.append((path, x, g))

def open_words(xo, go):
    return [go[k] if w == "*" and k < len(go) and go[k].isdigit() else w for k, w in enumerate(xo)]

def same(e, x, g):
    """all differences of one answer"""
    out = []
    xo, go = x["obs"], g["obs"]
    if e["op"] == "bits" and isinstance(go, list):
        # after a failed second part of a non-symmetric read the position is not specified
        for k, r in enumerate(xo):
            if r[3] == -1 and k < len(go):
                xo = xo[:k] + [r[:3] + go[k][3:]] + xo[k + 1:]
    if e["op"] == "dump" and isinstance(go, list):
        # a word the specification leaves open
        xo = open_words(xo, go)
    if e["op"] == "cli" and len(xo["out"]) == len(go["out"]):
        xo = {"rc": xo["rc"], "out": [open_words(a, b) for a, b in zip(xo["out"], go["out"])]}
    if xo != go:
        diff(xo, go, "obs", out)
    if len(x["pl"]) != len(g["pl"]):
        out.append(("pl#", x["pl"], g["pl"]))
    else:
        for k, (a, b) in enumerate(zip(x["pl"], g["pl"])):
            if not (a == b if a >= 0 else 0 <= b <= -1 - a):
                out.append(("pl[%d]" % k, a, b))
    for d in ("d1", "d2"):
        if x[d] != g[d]:
            diff(x[d], g[d], d, out)
    for name, a, b in zip(("branches", "bytes", "milliseconds"), x.get("cost", []), g.get("cost", [])):
        if b > a:
            out.append(("cost." + name, a, b))
    if g.get("ro") != 1:
        out.append(("ro", 1, 0))
    return out

class Mismatch:
    def __init__(self, name, k, events, diffs, crash=None):
        self.name, self.k, self.events, self.diffs, self.crash = name, k, events, diffs, crash
    def __str__(self):
        e = self.events[self.k] if self.k < len(self.events) else {"op": "end"}
        if self.crash:
            return "session %s call %d %s: %s" % (self.name, self.k + 1, e["op"], self.crash)
        p, x, g = self.diffs[0]
        s = lambda v: (lambda t: t if len(t) < 160 else t[:157] + "...")(json.dumps(v))
        return "session %s call %d %s: %s expected %s got %s" % (self.name, self.k + 1, e["op"], p, s(x), s(g))

CLI_FLAGS = {1: "--dump-all", 2: "--dump-length", 3: "--as-one-line", 4: "--no-as-one-line", 5: "--add-offset",
  6: "--no-add-offset", 7: "--add-length", 8: "--no-add-length", 9: "--add-parsed-length", 10: "--no-add-parsed-length",
  11: "--add-checksum", 12: "--no-add-checksum", 13: "--add-resolution", 14: "--no-add-resolution", 15: "--add-contents",
  16: "--no-add-contents", 17: "-d", 18: "--quiet"}
def run_cli(e):
    """one run of the command-line tool, in a scratch directory; returns (answer, what went wrong)"""
    n, a = e["a"][0], e["a"][1:]
    codes, hvcc = a[:n], bytes(a[n:])
    tmp = tempfile.mkdtemp(prefix="vf-cli-")
    try:
        path = {}
        for name, data in (("in", bytes(e["b"])), ("hvcc", hvcc)):
            path[name] = os.path.join(tmp, name)
            with open(path[name], "wb") as f:
                f.write(data)
        cmd = [os.path.join(BUILD, "h265nal")]
        to = one = None
        one = True
        for c in codes:
            if c in CLI_FLAGS:
                cmd.append(CLI_FLAGS[c])
                one = True if c == 3 else False if c == 4 else one
            elif c == 19:
                to = os.path.join(tmp, "out"); cmd += ["-o", to]
            elif c == 20:
                to = None; cmd += ["-o", "-"]
            elif c in (21, 22, 24):
                cmd += ["-i", {21: path["in"], 22: "-", 24: os.path.join(tmp, "none")}[c]]
            elif c in (25, 26, 27):
                # names that are nearly the name of the standard input
                name = {25: "i", 26: "-i", 27: "--"}[c]
                shutil.copyfile(path["in"], os.path.join(tmp, name))
                cmd += ["-i", name] if c == 25 else ["--infile=" + name]
            elif c == 23:
                cmd += ["--hvcc-file", path["hvcc"]]
            elif c < 900:
                cmd += ["--nalu-length-bytes", {90: "2x", 91: "2147483648", 92: "-99999999999999999999", 93: "4 "}.get(c) or str(c - 100)]
            else:
                cmd += ["--frames-per-second", {950: "x", 951: "2147483648", 952: "99999999999999999999", 953: "30.5"}.get(c) or str(c - 1000)]
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = SAN % (0xbe, 0xbe)
        env["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1:exitcode=77"
        try:
            p = subprocess.run(cmd, input=b"" if set(codes) & {25, 26, 27} else bytes(e["b"]), cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=60)
        except subprocess.TimeoutExpired:
            return None, "the tool does not end: " + " ".join(cmd[1:])
        err = p.stderr.decode(errors="replace")
        if p.returncode not in (0, 255) or "Sanitizer" in err or "runtime error" in err:
            return None, "the tool died (%d): %s" % (p.returncode, err[-3000:])
        out = p.stdout
        if to is not None:
            out, extra = (open(to, "rb").read() if os.path.exists(to) else b""), out
            if extra:
                out += b"[also on the standard output]" + extra
        text = out.decode(errors="replace").replace("{", " { ").replace("}", " } ")
        if p.returncode != 0:
            lines = [] if not text else [text.split()]
        elif one:
            lines = [l.split() for l in text.split("\n")]
            if lines and not lines[-1]:
                lines.pop()
        else:
            lines = [text.split()]
        return {"obs": {"rc": p.returncode, "out": lines}, "pl": [],
                "d1": {"vps": [], "sps": [], "pps": []}, "d2": {"vps": [], "sps": [], "pps": []}, "ro": 1}, None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def answer(r):
    """the driver's answer, or what it wrote instead (when calls disturb each other, or memory)"""
    try:
        return json.loads(r)
    except ValueError:
        return r[:300].decode(errors="replace")

def run_session(h, events, name=""):
    """list of (k, diffs); raises Died with k when the process ends"""
    found = []
    if h.ask("S %d" % zlib.crc32(name.encode())) is None:
        raise Died(0, h.report())
    for k, e in enumerate(events):
        if e["op"] == "cli":
            g, why = run_cli(e)
            if why:
                raise Died(k, why)
            r = json.dumps(g).encode()
        else:
            r = h.ask(request(e))
        if r is None:
            raise Died(k, h.report())
        h.last = r
        if h.keep is not None:
            i = r.rfind(b',"cost"')
            h.keep.append(r[:i] if i > 0 else r)
        g = answer(r)
        d = [("answer", "one", g)] if isinstance(g, str) else same(e, e["x"], g) if "x" in e else []
        if d:
            found.append((k, d))
    r = h.ask("E")
    if r is None:
        raise Died(len(events), h.report())
    ch = answer(r)
    ch = ch["changed"] if isinstance(ch, dict) and "changed" in ch else [str(ch)]
    if ch:
        found.append((len(events) - 1, [("changed", [], ch)]))
    return found

class Died(Exception):
    def __init__(self, k, why):
        self.k, self.why = k, why

def build_threads():
    os.makedirs(os.path.join(BUILD, "threads"), exist_ok=True)
    p = subprocess.run(["make", "-s", "-j%d" % CORES, "-C", os.path.join(VERIF, "harness"), "threads",
                        "REPO=" + REPO, "OUT=" + BUILD], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Broken("threads build failed:\n" + p.stdout[-3000:])

def side_by_side(batch, each):
    """the sessions of the batch at once, each on so many threads; (index, call, differences) of the
    answers that are not as specified, or what the sanitizer said"""
    exe = os.path.join(BUILD, "threads", "driver")
    text = []
    for name, events in batch:
        text.append("S %d" % zlib.crc32(name.encode()))
        text += [request(e) for e in events]
        text.append("E")
    env = dict(os.environ)
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=77:report_signal_unsafe=0"
    try:
        p = subprocess.run([exe], input=("\n".join(text) + "\nR %d\n" % each).encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=env, timeout=300)
    except subprocess.TimeoutExpired:
        return [], "no end within the time limit"
    if p.returncode:
        t = p.stderr.decode(errors="replace")
        m = re.search(r"(WARNING: ThreadSanitizer: [^\n]*|terminate called[^\n]*|[^\n]*ERROR[^\n]*)", t)
        loc = re.search(r"#\d+ ([^\n]*/(?:src|include|tools)/[^\n]*)", t)
        return [], (m.group(1) if m else "exit status %d %s" % (p.returncode, t[-300:])) + (" at " + loc.group(1) if loc else "")
    lines, at, found = p.stdout.split(b"\n"), 0, []
    for i, (name, events) in enumerate(batch):
        for _ in range(each):
            for k, e in enumerate(events):
                g = answer(lines[at + 1 + k])
                d = [("answer", "one", g)] if isinstance(g, str) else same(e, {**e["x"], "cost": []}, g)
                if d:
                    found.append((i, k, d))
            ch = answer(lines[at + 1 + len(events)])
            if ch != {"changed": []}:
                found.append((i, len(events) - 1, [("changed", [], ch)]))
            at += len(events) + 2
    return found, ""

def concurrent(sessions, on_mismatch, wide=8, each=2):
    """sessions on threads: what is not as specified, or a data race, found again alone if it can be"""
    n = 0
    for first in range(0, len(sessions), wide):
        batch = []
        for name, ev in sessions[first:first + wide]:
            if isinstance(ev, str):
                ev = json.load(open(ev))
            ev = [e for e in ev if e["op"] != "cli"]
            batch.append((name, ev))
        n += len(batch) * each
        found, why = side_by_side(batch, each)
        if not found and not why:
            continue
        for name, ev in batch:
            f, w = side_by_side([(name, ev)], 4)
            if f or w:
                batch, found, why = [(name, ev)], f, w
                break
        if why:
            on_mismatch(Mismatch(batch[0][0], len(batch[0][1]), batch[0][1], [], "with threads: " + why))
        else:
            i, k, d = found[0]
            on_mismatch(Mismatch(batch[i][0], k, batch[i][1], [("memory.threads " + p, x, g) for p, x, g in d]))
    return n

def replay(sessions, on_mismatch, cores=CORES, twice=True, progress=None):
    """sessions: iterable of (name, events).  Every session is performed twice, by processes whose
    fresh memory holds different bytes, the second with inputs all at one address and every call
    after a decoy (see the harness); on_mismatch(Mismatch) for everything that is not as
    specified, confirmed by a run of its own."""
    q = queue.Queue(maxsize=64)
    stats = {"sessions": 0, "calls": 0, "ops": {}}
    lock = threading.Lock()
    def confirm(name, events, k, decoy):
        h = Harness(0x00, decoy=decoy); h.keep = None
        try:
            for kk, d in run_session(h, events, name):
                if kk == k:
                    return d
        except Died as d:
            return d.why
        finally:
            h.close()
        return None
    trouble = []
    def work():
        try:
            inner()
        except BaseException as e:
            trouble.append(repr(e))
            while q.get() is not None:
                pass
    def inner():
        hs = [None, None]
        fills = [0xbe, 0x01]
        while True:
            item = q.get()
            if item is None:
                break
            name, events = item
            if isinstance(events, str):
                with open(events) as f:
                    events = json.load(f)
            outs = []
            bad = []
            for z in range(2 if twice else 1):
                if hs[z] is None:
                    hs[z] = Harness(fills[z], decoy=z == 1)
                hs[z].keep = []
                try:
                    bad.append(run_session(hs[z], events, name))
                    outs.append(hs[z].keep)
                except Died as d:
                    hs[z].close(); hs[z] = None
                    on_mismatch(Mismatch(name, d.k, events, [("crash", None, d.why)], d.why))
                    break
            at = set()
            for z, b in enumerate(bad):
                for k, d in b:
                    if k in at:
                        continue         # already so without decoys
                    at.add(k)
                    c = confirm(name, events, k, z == 1)
                    if c is None and all(p.startswith("cost.milli") for p, _, _ in d):
                        continue         # slow only once
                    if c is None:
                        d = [("differs-when-repeated",) + d[0][1:]] + d
                    on_mismatch(Mismatch(name, k, events, d))
            if len(outs) == 2 and outs[0] != outs[1]:
                k = next((i for i, (a, b) in enumerate(zip(*outs)) if a != b), 0)
                dd = []
                diff(answer(outs[0][k]), answer(outs[1][k]), "memory", dd)
                on_mismatch(Mismatch(name, k, events, dd or [("memory", None, None)]))
            with lock:
                stats["sessions"] += 1
                stats["calls"] += len(events)
                for e in events:
                    stats["ops"][e["op"]] = stats["ops"].get(e["op"], 0) + 1
        for h in hs:
            if h is not None:
                why = h.close()
                if why:
                    on_mismatch(Mismatch("process-end", 0, [], [("leak", None, why)], why))
    ts = [threading.Thread(target=work) for _ in range(cores)]
    for t in ts:
        t.start()
    for it in sessions:
        q.put(it)
    for _ in ts:
        q.put(None)
    for t in ts:
        t.join()
    if trouble:
        raise Broken("replay: " + trouble[0])
    return stats
