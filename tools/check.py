#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed n] [--replay file]"""
import argparse, glob, json, os, shutil, sys, tempfile, time, traceback, zlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, plan, search

EVID = os.path.join(vf.VERIF, "evidence")

def known():
    """entries 'known: property=<id> match=<text>' of the known-findings file"""
    out = []
    try:
        for line in open(os.path.join(vf.VERIF, "known-findings.txt")):
            if line.startswith("known: "):
                f = dict(w.split("=", 1) for w in line[7:].split(" ", 2)[:2])
                out.append((f["property"], f["match"], line.strip()))
    except FileNotFoundError:
        pass
    return out

class Report:
    def __init__(self, prop, scope):
        self.prop, self.scope, self.n, self.seen, self.outside = prop, scope, 0, set(), 0
        self.known_hit = set()
        self.sessions = {}
    def add(self, m):
        e = m.events[m.k] if m.k < len(m.events) else {"op": "end", "st": 1}
        if m.crash or any(p.split(".")[0].split("[")[0] in ("memory", "differs-when-repeated") for p, _, _ in m.diffs):
            ours = bool(m.crash) or self.prop == "C26"
        else:
            if m.name.startswith("pairs"):
                self.sessions.setdefault(m.name, []).append(m)
                m.twin_differs = False
            ours = any(self.scope(m, e, p, x, g) for p, x, g in m.diffs)
        if m.name.startswith("pairs") and not m.crash:
            return                       # judged at the end, with its twin
        self.count(m, ours)
    def count(self, m, ours):
        if not ours:
            self.outside += 1
            if self.outside <= 3:
                vf.note("outside this property: " + str(m)[:300])
            return
        text = str(m)
        for prop, match, line in known():
            if prop == self.prop and match in text:
                if line not in self.known_hit:
                    self.known_hit.add(line)
                    print("KNOWN-FINDING: property=%s %s" % (prop, line), flush=True)
                return
        self.n += 1
        if self.n > 5:
            return
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        path = os.path.join(EVID, "replays", "%s-%d.json" % (self.prop, self.n))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "session": m.name, "call": m.k, "crash": m.crash,
                       "differences": m.diffs[:8], "events": m.events[:m.k + 1]}, f)
        vf.note(text[:600])
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
    def finish(self):
        for name, ms in self.sessions.items():
            at = {m.k for m in ms}
            for m in ms:
                e = m.events[m.k]
                m.twin_differs = (m.k ^ 1) in at or e["op"] == "stream" or (e["op"] == "payload" and e["a"][1] != 0)
                self.count(m, any(self.scope(m, e, p, x, g) for p, x, g in m.diffs))

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    t0 = time.time()
    vf.build()
    if a.replay:
        r = json.load(open(a.replay))
        rep = Report(a.property, lambda *z: True)
        if r["crash"] and r["crash"].startswith("with threads"):
            vf.build_threads()
            vf.concurrent([(r["session"], r["events"])], rep.add)
        else:
            vf.replay([(r["session"], r["events"])], rep.add)
        rep.finish()
        sys.exit(1 if rep.n else 0)
    p = plan.PLAN[a.property]
    rep = Report(a.property, p["scope"])
    t = 1 if a.tier == "thorough" else 0
    cov = {"samples": []}
    tot = {"states": 0, "transitions": 0, "sessions": 0, "calls": 0, "given": 0, "ops": {}}
    work = tempfile.mkdtemp(prefix="vf-")
    seeds, every = [], max(1, sum(n[t] for n in p.get("runs", {}).values()) // 500)
    def carry_out(part, given=""):
        """TLC's behaviours of these runs, performed on the library"""
        out, (gen, dist) = vf.generate(part, a.seed, work, given)
        files = sorted(glob.glob(os.path.join(out, "*.json")))
        s = vf.replay([(os.path.basename(f)[:-5], f) for f in files], rep.add)
        tot["states"] += dist
        tot["transitions"] += gen - sum(n for _, _, n in part)
        tot["sessions"] += s["sessions"]; tot["calls"] += s["calls"]
        for k, v in s["ops"].items():
            tot["ops"][k] = tot["ops"].get(k, 0) + v
        if s["sessions"] != sum(n for _, _, n in part):
            raise vf.Broken("%d behaviours performed of %d" % (s["sessions"], sum(n for _, _, n in part)))
        if len(cov["samples"]) < 3 and files:
            ev = json.load(open(files[len(files) // 2]))
            cov["samples"].append({"session": os.path.basename(files[len(files) // 2])[:-5],
                "calls": [{"op": e["op"], "st": e["st"], "b": bytes(e["b"]).hex()[:160], "a": e["a"][:12]} for e in ev[:6]]})
        for k, f in enumerate(files):
            if p.get("search") and not given and k % every == 0 and os.path.getsize(f) < 2000000:
                seeds.append([{"op": e["op"], "st": e["st"], "b": e["b"], "a": e["a"]} for e in json.load(open(f))])
            os.unlink(f)
    def given(sessions):
        """the same for calls chosen outside the specification"""
        for first in range(0, len(sessions), 400):
            d = os.path.join(work, "given")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            part = sessions[first:first + 400]
            for k, ev in enumerate(part):
                with open(os.path.join(d, "%d.json" % (k + 1)), "w") as f:
                    json.dump(ev, f)
            carry_out([("given", 1, len(part))], d)
            tot["given"] += len(part)
    try:
        runs = [(name, n[t]) for name, n in p.get("runs", {}).items()]
        runs = [(name, max(1, int(n * a.scale))) for name, n in runs]
        # thorough runs in portions, so that little is on disk at a time
        portion = 400
        parts = []
        if t == 0:
            parts = [[(name, 1, n) for name, n in runs]]
        else:
            for name, n in runs:
                for first in range(1, n + 1, portion):
                    parts.append([(name, first, min(portion, n + 1 - first))])
        for part in parts:
            carry_out(part)
        if p.get("pure"):
            # the Java versions of the bit operators decide as their definitions in TLA+ do
            part = [(name, 1, n) for name, n in p["pure"][t].items()]
            one, _ = vf.generate(part, a.seed, work)
            two, _ = vf.generate(part, a.seed, work, pure=True)
            for f in sorted(os.listdir(one)):
                with open(os.path.join(one, f)) as x, open(os.path.join(two, f)) as y:
                    if x.read() != y.read():
                        raise vf.Broken("java/Bits.java and spec/Bits.tla differ on " + f)
            cov["decided_without_java_operators_too"] = len(os.listdir(one))
            shutil.rmtree(one); shutil.rmtree(two)
        if p.get("threads"):
            # the same answers whatever other sessions run at the same time
            vf.build_threads()
            part = [(name, 1, max(1, int(n * min(1, a.scale)))) for name, n in p["threads"][t].items()]
            out, _ = vf.generate(part, a.seed + 1000, work)
            files = sorted(glob.glob(os.path.join(out, "*.json")), key=lambda f: zlib.crc32(os.path.basename(f).encode()))
            cov["sessions_side_by_side_on_threads"] = vf.concurrent([(os.path.basename(f)[:-5], f) for f in files], rep.add)
            shutil.rmtree(out)
        if a.property in plan.LAWS:
            members = {l: max(1, int(n[t] * min(1, a.scale))) for l, n in plan.LAWS[a.property].items()}
            gen, dist = vf.laws(members, a.seed, work)
            tot["states"] += dist
            cov["laws_of_the_specification"] = members
        if p.get("media"):
            given(search.media(a.seed, p["media"][t]))
        if p.get("search"):
            seconds, limit = p["search"][t]
            try:
                found, stats = search.search(seeds, seconds, a.seed, limit, work)
            except vf.Broken as b:
                # the search only adds inputs; what it needs of the library may not be there
                vf.note("no search: " + str(b)[:400])
                found, stats = [], {"seeds": 0}
            given(found)
            cov["search"] = stats
        for extra in p.get("extra", []):
            extra(a, rep, tot, cov, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    rep.finish()
    cov.update({"states": tot["states"], "transitions": tot["transitions"],
                "traces_validated_against_impl": tot["sessions"], "calls_compared": tot["calls"],
                "calls_by_entry_point": tot["ops"], "runs": dict(runs), "behaviours_from_search_and_samples": tot["given"],
                "outside_this_property": rep.outside})
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, a.property + ".json"), "w") as f:
        json.dump({"property": a.property, "tier": "thorough" if t else "quick", "seed": a.seed, "level": "model_checking",
                   "coverage": cov, "wall_s": round(time.time() - t0, 1), "violations": rep.n,
                   "assumptions": ["the specification in spec/ states what the library promises; TLC evaluates it faithfully",
                                   "behaviours are explored up to the sessions and lengths counted here"]}, f, indent=1)
    print("%s %s: %d states, %d behaviours, %d calls compared, %d violations, %.0f s" %
          (a.property, a.tier, tot["states"], tot["sessions"], tot["calls"], rep.n, time.time() - t0), flush=True)
    sys.exit(1 if rep.n else 0)

if __name__ == "__main__":
    try:
        main()
    except vf.Broken as b:
        print("BROKEN: %s" % b, flush=True)
        sys.exit(2)
