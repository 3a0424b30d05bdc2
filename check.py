#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [--keep]

Builds /repo's current sources with the instrumentation the property needs, runs its harness in
parallel shards under the monitors, and decides. Exit 0: held; 1: violation; 2: no answer."""
import argparse, hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import table
REPO = os.environ.get("GOOST_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
JOBS = max(2, min(8, os.cpu_count() or 2))
MEMORY = 3500  # MB a shard may use
ENV = dict(os.environ,
    ASAN_OPTIONS="exitcode=66:hard_rss_limit_mb=%d:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:handle_abort=0" % MEMORY,
    UBSAN_OPTIONS="exitcode=66:print_stacktrace=1:halt_on_error=1",
    TSAN_OPTIONS="exitcode=66:halt_on_error=1:history_size=5:second_deadlock_stack=1:hard_rss_limit_mb=%d" % MEMORY,
    LC_ALL="C")
for v in ("MALLOC_PERTURB_", "LD_PRELOAD"):
    ENV.pop(v, None)

class NoAnswer(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def read(p):
    with open(p, "rb") as f:
        return f.read()

def tree(root, exts):
    out = []
    for d, sub, files in os.walk(root):
        sub.sort()
        out += [os.path.join(d, f) for f in sorted(files) if f.endswith(exts)]
    return out

def sources():
    """The library's sources, and the digest of everything they may include."""
    cpp = tree(os.path.join(REPO, "goost"), (".cpp", ".cc", ".cxx"))
    hdr = [p for p in tree(os.path.join(REPO, "goost"), (".h", ".hpp", ".hh", ".inc", ".ipp", ".def", ".inl"))]
    if not cpp:
        raise NoAnswer("no sources found under %s/goost" % REPO)
    return cpp, digest(*[x for p in hdr for x in (p, read(p))])

def compile_one(cmd, out):
    if os.path.exists(out):
        return None
    tmp = "%s.%d.tmp" % (out, os.getpid())
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        return "%s\n%s" % (" ".join(cmd), r.stdout[-4000:])
    os.replace(tmp, out)
    return None

def build(prop, names):
    """Builds the given builds of the property's harness; returns {name: executable}."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    cpp, hdr = sources()
    harness = os.path.join(HERE, "harness", prop + ".cpp")
    hh = digest(*[read(p) for p in tree(os.path.join(HERE, "harness"), (".hpp",))])
    jobs, link = [], {}
    for n in names:
        cxx, flags, only, libonly, linkonly = (tuple(table.BUILDS[n]) + ([], []))[:5]
        lib = [cxx] + table.BASE + flags + libonly + ["-w", "-I" + REPO]
        hcmd = [cxx] + table.BASE + flags + only + ["-w", "-I" + REPO, "-I" + os.path.join(HERE, "harness")]
        for h in ("cstdint", "cstddef", "memory", "string", "vector", "utility", "stdexcept"):
            hcmd += ["-include", h]
        hobj = os.path.join(BUILD, "obj", "%s-%s-%s.o" % (prop, n, digest(" ".join(hcmd), hdr, hh, read(harness))))
        jobs.append((hcmd + ["-c", harness], hobj))
        objs = [hobj]
        for p in cpp:
            o = os.path.join(BUILD, "obj", "lib-%s-%s.o" % (n, digest(" ".join(lib), hdr, p, read(p))))
            jobs.append((lib + ["-c", p], o))
            objs.append(o)
        exe = os.path.join(BUILD, "%s-%s-%s" % (prop, n, digest(*objs)))
        link[n] = ([cxx] + table.BASE[:1] + ["-pthread"] + [f for f in flags if f.startswith("-fsanitize")] + linkonly + objs, exe)
    jobs = [(c, o) for c, o in dict((o, (c, o)) for c, o in jobs).values()]
    with ThreadPoolExecutor(JOBS) as ex:
        for e in ex.map(lambda j: compile_one(*j), jobs):
            if e:
                raise NoAnswer("does not compile:\n" + e)
        for e in ex.map(lambda n: compile_one(*link[n]), names):
            if e:
                raise NoAnswer("does not link:\n" + e)
    return {n: link[n][1] for n in names}

LOCALES = [("de_DE", "ISO-8859-1"), ("ru_RU", "KOI8-R"), ("tr_TR", "ISO-8859-9"), ("ja_JP", "EUC-JP"), ("zh_CN", "GB18030"), ("hi_IN", "UTF-8"), ("fr_FR", "UTF-8")]

def locales():
    """C locales for the harness to switch to, made with localedef; those that cannot be made are not used."""
    top = os.path.join(BUILD, "locales")
    os.makedirs(top, exist_ok=True)
    def one(l):
        out = os.path.join(top, "%s.%s" % l)
        if os.path.isdir(out):
            return
        tmp = "%s.%d.tmp" % (out, os.getpid())
        try:
            subprocess.run(["localedef", "--no-archive", "-c", "-i", l[0], "-f", l[1], tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            if os.path.isdir(tmp):
                os.rename(tmp, out)
        except (OSError, subprocess.SubprocessError):
            pass
        shutil.rmtree(tmp, ignore_errors=True)
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, LOCALES))
    ENV["LOCPATH"] = top

def tidy():
    """Keeps the object cache from growing without bound."""
    d = os.path.join(BUILD, "obj")
    for root in (BUILD, d):
        if not os.path.isdir(root):
            continue
        files = [(os.path.getmtime(p), p) for p in (os.path.join(root, f) for f in os.listdir(root)) if os.path.isfile(p)]
        files.sort(reverse=True)
        total = 0
        for _, p in files:
            total += os.path.getsize(p)
            if total > 1500 << 20:
                os.unlink(p)

def progress(path):
    try:
        b = read(path)
    except OSError:
        return None
    if len(b) < 96 + 16:
        return None
    cut = lambda x: x.split(b"\0", 1)[0].decode("utf-8", "replace")
    idx, done = struct.unpack_from("qq", b, 96)
    return {"group": cut(b[:96]), "case": idx, "done": done, "note": cut(b[112:368])}

class Shard:
    def __init__(self, exe, name, opts, shard, nshards, work, extra=()):
        self.name, self.shard, self.out = name, shard, os.path.join(work, "%s-%d.json" % (name, shard))
        self.prog, self.err = self.out + ".prog", self.out + ".err"
        for p in (self.out, self.prog, self.err):
            if os.path.exists(p):
                os.unlink(p)
        mode = {"asanub": "asan", "clangub": "asan", "o0": "plain", "clang": "plain", "steps": "plain"}.get(name, name)
        cmd = [exe, "--mode", mode, "--out", self.out, "--progress", self.prog, "--shard", str(shard), "--nshards", str(nshards)] + opts + list(extra)
        if name == "valgrind":
            cmd = ["valgrind", "-q", "--error-exitcode=66", "--exit-on-first-error=yes", "--leak-check=no", "--fair-sched=yes"] + cmd
        self.cmd = cmd
        self.start = self.seen = time.time()
        self.last, self.used = None, 0.0
        def limits():
            # memory that runs away is an exception in the process, not the end of the sandbox
            if mode == "plain":
                resource.setrlimit(resource.RLIMIT_AS, (MEMORY << 20, MEMORY << 20))
        with open(self.err, "wb") as e:
            self.p = subprocess.Popen(cmd, stdout=e, stderr=e, env=ENV, cwd=work, start_new_session=True, preexec_fn=limits)
        self.stuck = self.stopped = False

    def cpu(self):
        """Seconds of processor time so far, all threads."""
        try:
            f = read("/proc/%d/stat" % self.p.pid).rsplit(b")", 1)[1].split()
            return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, ValueError):
            return self.used

    def poll(self, limit):
        """True when it has ended. It is stuck when a case makes no progress for `limit` seconds of its own processor
        time, or sleeps that long, so that a busy machine is not taken for a hang."""
        if self.p.poll() is not None:
            return True
        pr = progress(self.prog)
        now = time.time()
        key = pr and (pr["group"], pr["case"], pr["note"])
        if key != self.last:
            self.last, self.seen, self.used = key, now, self.cpu()
        elif now - self.seen > limit:
            used = self.cpu() - self.used
            if used > limit or used < 0.02 * (now - self.seen) or now - self.seen > 4 * limit:
                self.stuck = True
                os.killpg(self.p.pid, signal.SIGKILL)
                self.p.wait()
                return True
        return False

    def errtext(self):
        try:
            return read(self.err).decode("utf-8", "replace")
        except OSError:
            return ""

def stop(shards):
    for s in shards:
        if s.p.poll() is None:
            os.killpg(s.p.pid, signal.SIGKILL)
            s.p.wait()
            s.stopped = True

def run_shards(shards, limit, deadline, found=None):
    """Runs the shards to their end; found(s) tells of a finished shard whether it decides the matter.
    The others then get a little longer and are stopped."""
    pending = list(shards)
    decided = None
    while pending:
        done = [s for s in pending if s.poll(limit)]
        pending = [s for s in pending if s not in done]
        if found:
            if any(found(s) for s in done) and decided is None:
                decided = time.time()
            if decided is not None and time.time() - decided > 15:
                stop(pending)
                return
        if time.time() > deadline:
            for s in pending:
                os.killpg(s.p.pid, signal.SIGKILL)
                s.p.wait()
            raise NoAnswer("out of time")
        if pending:
            time.sleep(0.05)

def report_line(text):
    for pat in (r"(runtime error: [^\n]*)", r"(ERROR: AddressSanitizer: [^\n]*)", r"(WARNING: ThreadSanitizer: [^\n]*)", r"(ALLOC-MONITOR: [^\n]*)", r"(hard rss limit exhausted[^\n]*)",
                r"==\d+== ((?:Invalid|Conditional|Use of|Syscall|Source and|Process term)[^\n]*)", r"(Assertion [^\n]*)", r"(terminate called[^\n]*)"):
        m = re.search(pat, text)
        if m:
            frame = re.search(r"(?:#\d+ 0x[0-9a-f]+ in |#\d+ |by 0x[0-9A-F]+: |at 0x[0-9A-F]+: )([^\n]*goost[^\n]*)", text[m.start():])
            return m.group(1).strip() + (" [" + frame.group(1).strip()[:160] + "]" if frame else "")
    return ""

def judge(s):
    """Violations of one finished shard, as dictionaries; raises NoAnswer for endings that say nothing."""
    rc = s.p.returncode
    pr = progress(s.prog) or {"group": "", "case": -1, "note": "", "done": 0}
    where = {"build": s.name, "group": pr["group"], "case": pr["case"]}
    if s.stopped:
        return None, []
    if s.stuck:
        return None, [dict(where, key="hang", msg="the operation does not end (%s)" % pr["note"], confirm=True)]
    res = None
    if os.path.exists(s.out):
        try:
            res = json.loads(read(s.out))
        except ValueError:
            res = None
    if res is not None and rc in (0, 1, 2):
        if res["harness_error"]:
            raise NoAnswer("harness: " + res["harness_error"])
        return res, [dict(where, group=f["group"], case=f["case"], key=f["key"], msg=f["msg"]) for f in res["found"]]
    text = s.errtext()
    if rc == 2:
        raise NoAnswer("harness ended with 2: " + text[-600:])
    if rc == -signal.SIGKILL:
        raise NoAnswer("the run was killed from outside (memory?)")
    line = report_line(text)
    if rc == 66 or line:
        return res, [dict(where, key="report", msg="%s (during %s)" % (line or text[-300:].strip(), pr["note"] or pr["group"]))]
    if rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGTRAP):
        return res, [dict(where, key="crash", msg="the process died with %s during %s" % (signal.Signals(-rc).name, pr["note"] or pr["group"]))]
    raise NoAnswer("unexpected end (%s): %s" % (rc, text[-600:]))

def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m:
                out.append(m.groups())
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    prop, P = a.id, table.P[a.id]
    t0 = time.time()
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        return decide(a, prop, P, t0, work)
    except NoAnswer as e:
        log("NO ANSWER property=%s: %s" % (prop, e))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
        tidy()

def decide(a, prop, P, t0, work):
    if a.replay:
        rp = json.load(open(a.replay))
        exe = build(prop, [rp["build"]])[rp["build"]]
        if P.get("locales"):
            locales()
        opts = ["--seed", str(rp["seed"]), "--tier", rp["tier"], "--scale", str(rp["scale"])]
        if rp["case"] >= 0:
            opts += ["--group", rp["group"], "--case", str(rp["case"])]
        s = Shard(exe, rp["build"], opts, 0, 1, work)
        run_shards([s], 120, time.time() + 3000)
        _, bad = judge(s)
        for b in bad:
            print("replayed: %s case %s: %s: %s" % (b["group"], b["case"], b["key"], b["msg"]))
        print(s.errtext()[-3000:])
        return 1 if bad else 0
    runs = [r for r in P["runs"] if a.tier in r["tiers"]]
    exes = build(prop, [r["build"] for r in runs])
    if P.get("locales"):
        locales()
    tb = time.time()
    limit = 60 if a.tier == "quick" else 400
    deadline = t0 + (820 if a.tier == "quick" else 6 * 3600)
    total, events, samples, distinct, found, per, slow = 0, {}, [], set(), [], {}, []
    known = known_findings()
    def fresh_of(bad):
        return [b for b in bad if not [x for x in known if x[0] == prop and x[1] == b["key"]]]
    for r in runs:
        scale = r["scale"] if a.tier == "quick" else r["tscale"]
        opts = ["--seed", str(a.seed), "--tier", a.tier, "--scale", str(scale)]
        t1 = time.time()
        shards = [Shard(exes[r["build"]], r["build"], opts, i, JOBS, work) for i in range(JOBS)]
        confirmed = {}
        def settles(s):
            if not s.stuck:
                return bool(fresh_of(judge(s)[1]))
            # an operation that does not end: only if it does not end on its own either
            pr = progress(s.prog)
            c = Shard(exes[r["build"]], r["build"], opts + ["--group", pr["group"], "--case", str(pr["case"])], 90 + s.shard, 100, work)
            run_shards([c], limit, deadline + 60)
            confirmed[s.shard] = c.stuck or bool(judge(c)[1])
            return confirmed[s.shard]
        run_shards(shards, limit, deadline, settles)
        cases = 0
        for s in shards:
            res, bad = judge(s)
            for b in bad:
                b.update(seed=a.seed, tier=a.tier, scale=scale, report=s.errtext()[:6000])
                if b.get("confirm") and not confirmed.get(s.shard):
                    slow.append("%s case %s" % (b["group"], b["case"]))
                    continue
                found.append(b)
            if res:
                cases += res["cases"]
                for k, v in res["events"].items():
                    events[k] = events.get(k, 0) + v
                samples += ["[%s] %s" % (r["build"], x) for x in res["samples"]]
                d = read(s.out + ".set") if os.path.exists(s.out + ".set") else b""
                distinct.update(struct.unpack("%dQ" % (len(d) // 8), d))
            else:
                cases += (progress(s.prog) or {"done": 0})["done"]
        total += cases
        per[r["build"]] = {"cases": cases, "scale": scale, "seconds": round(time.time() - t1, 1), "flags": " ".join(table.BUILDS[r["build"]][1])}
    fresh, old = [], {}
    for b in found:
        k = [x for x in known if x[0] == prop and x[1] == b["key"]]
        if k:
            old.setdefault(k[0], []).append(b)
        else:
            fresh.append(b)
    for k, bs in old.items():
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k[1], k[2]))
    if not samples:
        samples = ["%s: %d" % kv for kv in list(events.items())[:3]]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": P["level"],
        "coverage": {"evaluations": total, "distinct_nontrivial": len(distinct), "rule": P["rule"], "samples": samples[:6],
            "observed_events": events, "runs": per, "known_findings_seen": [k[1] for k in old]},
        "assumptions": [P["note"], "Workload is a function of the seed, so a run can be repeated; the sandbox's compiler, standard library and sanitizer runtimes are trusted."],
        "wall_s": round(time.time() - t0, 1), "violations": len(fresh)}
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp%d" % os.getpid())
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    log("%s %s seed %d: %d cases, %d distinct, %d kinds of event, build %.1f s, total %.1f s" % (prop, a.tier, a.seed, total, len(distinct), len(events), tb - t0, time.time() - t0))
    if fresh:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        for i, b in enumerate(fresh):
            if i == 0:
                path = os.path.join(HERE, "replay", "%s-%s-%s.json" % (prop, a.tier, a.seed))
                b["how"] = "python3 check.py %s --replay %s" % (prop, path)
                with open(path, "w") as f:
                    json.dump(b, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (prop, path))
            if i < 8:
                print("  [%s] %s case %s: %s: %s" % (b["build"], b["group"], b["case"], b["key"], b["msg"]))
        return 1
    if slow:
        raise NoAnswer("some cases took too long once, but end on their own: " + ", ".join(slow))
    if not events or not distinct or not total:
        raise NoAnswer("nothing was observed")
    return 0

if __name__ == "__main__":
    sys.exit(main())
