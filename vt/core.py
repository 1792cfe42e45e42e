"""Shared machinery: build the harness from /repo, run scenarios on the real code,
check specifications with TLC, validate recorded traces against them."""
import copy, fcntl, glob, hashlib, json, os, queue, random, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
HARNESS = os.path.join(VERIF, "harness")
BIN = os.path.join(TARGET, "debug", "toppo_harness")
CRATES = ["util", "alg", "topo_spaces", "geom", "analysis"]
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def env_cargo():
    e = dict(os.environ)
    e.update(HOME="/root", LANG="C.UTF-8", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
             CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", CARGO_TARGET_DIR=TARGET)
    return e


def repo_hash():
    h = hashlib.sha256()
    for c in CRATES:
        for root, dirs, files in os.walk(os.path.join(REPO, c)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".rs") or f == "Cargo.toml":
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def build():
    """Rebuild the harness from /repo's working tree. Content (not mtime) decides what is stale."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(TARGET, ".repo_hash")
        h = repo_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        e = env_cargo()
        if old != h:
            if os.path.exists(stamp):
                os.remove(stamp)
            cmd = ["cargo", "clean", "--offline"]
            for c in CRATES + ["toppo_harness"]:
                cmd += ["-p", c]
            subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=HARNESS, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=850)
        if r.returncode != 0:
            raise ToolError("harness build failed:\n" + r.stdout[-4000:])
        with open(stamp, "w") as f:
            f.write(h)


# ---------------------------------------------------------------- running the real code

def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Runner:
    def __init__(self, work, op_timeout=20):
        self.work, self.op_timeout = work, op_timeout

    def _shard(self, k, scs, out):
        todo = list(scs)
        gen = hung = 0
        while todo:
            gen += 1
            fin = os.path.join(self.work, f"in.{k}.{gen}.ndjson")
            fout = os.path.join(self.work, f"out.{k}.{gen}.ndjson")
            with open(fin, "w") as f:
                for s in todo:
                    f.write(json.dumps(s) + "\n")
            p = subprocess.Popen([BIN, fin, fout, str(self.op_timeout)], stdout=subprocess.DEVNULL,
                                 stderr=subprocess.DEVNULL, cwd=self.work, preexec_fn=_limits)
            rc = p.wait()
            done = set()
            cur = {}
            with open(fout, errors="replace") as f:
                for line in f:
                    try:
                        e = json.loads(line)
                    except ValueError:
                        continue
                    if e.get("op") == "end":
                        done.add(e["sc"])
                    else:
                        cur.setdefault(e["sc"], []).append(e)
            for s in todo:
                if s["id"] in done:
                    out[s["id"]] = cur.get(s["id"], [])
            rest = [s for s in todo if s["id"] not in done]
            if not rest:
                break
            if rc == 0:
                raise ToolError(f"harness ended normally but left {len(rest)} scenarios undone")
            s = rest[0]
            evs = cur.get(s["id"], [])
            i = len(evs)
            o = dict(s["ops"][i]) if i < len(s["ops"]) else {"op": "?"}
            o.update(sc=s["id"], i=i, out="hang" if rc == 3 else "crash", ret=0, obs=0)
            if rc not in (3, -6, 134, -11, 139, -9, 137, 101, 134):
                raise ToolError(f"harness exit code {rc} in scenario {s['id']}")
            out[s["id"]] = evs + [o]
            todo = rest[1:]
            hung += self.op_timeout if rc == 3 else 0
            if gen > 40 or hung >= 60:   # code that hangs or crashes this often is already condemned by what it did so far
                break
            os.remove(fin)

    def run(self, scenarios, n=NCPU):
        out, errs, th = {}, [], []
        n = max(1, min(n, len(scenarios)))
        for k in range(n):
            def go(k=k):
                try:
                    self._shard(k, scenarios[k::n], out)
                except Exception as e:   # noqa
                    errs.append(e)
            t = threading.Thread(target=go)
            t.start()
            th.append(t)
        for t in th:
            t.join()
        if errs:
            raise errs[0]
        return out


# ---------------------------------------------------------------- TLC

def java(args, env=None, timeout=800, heap="2g", cwd=SPEC, stack="64m"):
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    cmd = ["java", f"-Xmx{heap}", f"-Xss{stack}", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4",
           "-cp", CP, "tlc2.TLC"] + args
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired as x:
        raise ToolError(f"TLC timed out after {timeout}s: {' '.join(args)}")
    return r.returncode, r.stdout


def design(work, module, cfg, workers=2, timeout=600, heap="3g", extra=()):
    """Exhaustive TLC run of a design model. Returns counts; any error is a broken specification."""
    md = tempfile.mkdtemp(prefix="md.", dir=work)
    t0 = time.time()
    rc, o = java(["-metadir", md, "-workers", str(workers), "-noGenerateSpecTE", "-coverage", "60",
                  "-config", cfg, *extra, module], timeout=timeout, heap=heap)
    shutil.rmtree(md, ignore_errors=True)
    m = list(re.finditer(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", o))
    m = m[-1] if m else None
    if rc != 0 or not m or "No error has been found" not in o:
        raise ToolError(f"design model {module}/{cfg} failed (rc {rc}):\n" + o[-3000:])
    acts = {}
    for a in re.finditer(r"^<(\w+) line .*?>: (\d+):(\d+)", o, re.M):
        acts[a.group(1)] = int(a.group(3))
    return {"module": module, "cfg": cfg, "transitions": int(m.group(1)), "states": int(m.group(2)),
            "actions": acts, "wall_s": round(time.time() - t0, 1)}


def generate(work, module, cfg, seed, num, depth, timeout=300, workers=1, env=None):
    """TLC -simulate of a Gen module that prints histories as lines 'HIST <json>'."""
    md = tempfile.mkdtemp(prefix="md.", dir=work)
    rc, o = java(["-metadir", md, "-workers", str(workers), "-noGenerateSpecTE", "-simulate", f"num={num}",
                  "-depth", str(depth), "-seed", str(seed), "-config", cfg, module], timeout=timeout, env=env)
    shutil.rmtree(md, ignore_errors=True)
    hs = []
    for line in o.splitlines():
        line = line.strip()
        if line.startswith('<<"HIST"'):
            m = re.match(r'<<"HIST", "(.*)">>$', line)
            if m:
                hs.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    if not hs:
        raise ToolError(f"generation {module}/{cfg} produced nothing (rc {rc}):\n" + o[-2000:])
    return hs


TRACE_FATAL = ("OutOfMemory", "Java heap space")


def validate(work, module, cfg, scenarios, label="t", timeout=700, heap="2500m", n=NCPU, weight=None):
    """scenarios: list of (id, events). Splits into shards, runs the trace spec on each.
    Returns (set of rejected ids -> event index, stats)."""
    weight = weight or (lambda evs: len(evs))
    order = sorted(scenarios, key=lambda s: -weight(s[1]))
    n = max(1, min(n, len(order)))
    loads = [0] * n
    shards = [[] for _ in range(n)]
    for s in order:
        k = loads.index(min(loads))
        shards[k].append(s)
        loads[k] += weight(s[1]) + 1
    rejects, stats, errs = {}, {"trace_states": 0, "events": 0}, []
    lock = threading.Lock()

    def one(k):
        scs = sorted(shards[k], key=lambda s: s[0])
        for attempt in range(25):
            if not scs:
                return
            lines, where = [], []
            for sid, evs in scs:
                nx = len(lines) + len(evs) + 2
                lines.append({"op": "reset", "sc": sid, "i": -1, "nx": nx})
                where.append((sid, -1))
                for i, e in enumerate(evs):
                    e2 = dict(e)
                    e2["nx"] = nx
                    e2["sc"] = sid
                    e2["i"] = i
                    lines.append(e2)
                    where.append((sid, i))
            path = os.path.join(work, f"{label}.{k}.{attempt}.ndjson")
            with open(path, "w") as f:
                for x in lines:
                    f.write(json.dumps(x) + "\n")
            md = tempfile.mkdtemp(prefix="md.", dir=work)
            rc, o = java(["-metadir", md, "-workers", "1", "-noGenerateSpecTE", "-deadlock", "-config", cfg, module],
                         env={"TRACE": path}, timeout=timeout, heap=heap)
            shutil.rmtree(md, ignore_errors=True)
            rej = [(int(a), int(b)) for a, b in re.findall(r'<<"REJECT", (-?\d+), (-?\d+)>>', o)]
            m = re.findall(r"(\d+) states generated", o)
            if rc == 0 and "No error has been found" in o and f'<<"DONE", {len(lines)}>>' in o:
                with lock:
                    for a, b in rej:
                        rejects.setdefault(a, b)
                    stats["trace_states"] += int(m[-1]) if m else 0
                    stats["events"] += len(lines) - len(scs)
                os.remove(path)
                return
            if any(x in o for x in TRACE_FATAL) or rc in (1, 2, 3) or "Parsing or semantic analysis failed" in o:
                raise ToolError(f"trace validation {module} failed (rc {rc}):\n" + o[-3000:])
            # evaluation error: the specification cannot give the recorded value a meaning
            at = re.findall(r"^(?:/\\ )?l = (\d+)", o, re.M)
            if not at:
                raise ToolError(f"trace validation {module} failed (rc {rc}):\n" + o[-3000:])
            at = int(at[-1])
            at = min(max(at, 1), len(where))
            sid, i = where[at - 1]
            with lock:
                for a, b in rej:
                    rejects.setdefault(a, b)
                rejects.setdefault(sid, i)
                stats.setdefault("evalerrors", []).append((sid, i, o[-1500:]))
            os.remove(path)
            done = {a for a, _ in rej} | {sid}
            scs = [s for s in scs if s[0] not in done]
        # 25 evaluation errors in one shard: enough is recorded

    th = []
    for k in range(n):
        def go(k=k):
            try:
                one(k)
            except Exception as e:   # noqa
                errs.append(e)
        t = threading.Thread(target=go)
        t.start()
        th.append(t)
    for t in th:
        t.join()
    if errs:
        raise errs[0]
    return rejects, stats


# ---------------------------------------------------------------- corruption (binding self-test)

def leaves(x, path=()):
    if isinstance(x, bool) or isinstance(x, (int, str)):
        yield path, x
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    elif isinstance(x, dict):
        for k in sorted(x):
            yield from leaves(x[k], path + (k,))


def set_leaf(x, path, v):
    for p in path[:-1]:
        x = x[p]
    x[path[-1]] = v


def corrupt(rng, evs, fields, only=None):
    """Change one recorded scalar of one event; None if there is nothing to change."""
    idx = [i for i, e in enumerate(evs) if e.get("out") == "ok" and (only is None or e["op"] in only)]
    rng.shuffle(idx)
    for i in idx:
        ls = [(f,) + p for f in fields if f in evs[i] for p, v in leaves(evs[i][f])]
        if not ls:
            continue
        p = rng.choice(ls)
        out = copy.deepcopy(evs)
        x = out[i]
        for q in p:
            x = x[q]
        v = (not x) if isinstance(x, bool) else x + 1 if isinstance(x, int) else x + "?"
        set_leaf(out[i], p, v)
        return out[: i + 1]
    return None


# ---------------------------------------------------------------- a check

class Check:
    """One run of one property's check."""
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.t0 = time.time()
        wd = os.path.join(VERIF, "work")
        os.makedirs(wd, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=f"{pid}.", dir=wd)
        self.designs, self.traces, self.viol, self.known = [], [], [], []
        self.samples, self.assumptions, self.opcounts = [], [], {}
        self.bg, self.bgerr = [], []
        self.notes = {}

    # design models run in the background while the real code is exercised
    def design(self, module, cfg, **kw):
        def go():
            try:
                self.designs.append(design(self.work, module, cfg, **kw))
            except Exception as e:   # noqa
                self.bgerr.append(e)
        t = threading.Thread(target=go)
        t.start()
        self.bg.append(t)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def findings(self):
        p = os.path.join(VERIF, "known_findings.json")
        return [f for f in json.load(open(p))["findings"] if f["property"] == self.pid]

    def conform(self, scenarios, module, cfg, name, fields=("ret", "obs"), only=None, ncorrupt=12,
                op_timeout=20, need=(), weight=None, timeout=700, corruptor=None, heap="2500m"):
        """Run scenarios on the real code and validate the recorded traces against the specification."""
        if self.viol and time.time() - self.t0 > 200:     # decided already, by code that hangs
            return
        scenarios = [dict(s, id=i) for i, s in enumerate(scenarios)]
        w = tempfile.mkdtemp(prefix=f"{name}.", dir=self.work)
        t0 = time.time()
        ev = Runner(w, op_timeout).run(scenarios)
        t1 = time.time()
        byid = {s["id"]: s for s in scenarios}
        traces = [(s["id"], ev[s["id"]]) for s in scenarios if s["id"] in ev]
        cor, base = {}, {}
        tries = self.rng.sample(traces, min(len(traces), 4 * ncorrupt))
        for sid, evs in tries:
            if len(cor) >= ncorrupt:
                break
            c = (corruptor or (lambda r, e: corrupt(r, e, fields, only)))(self.rng, evs)
            if c is not None:
                cid = 10_000_000 + len(cor)
                cor[cid] = c
                base[cid] = sid
        rej, st = validate(w, module, cfg, traces + list(cor.items()), weight=weight, timeout=timeout, heap=heap)
        t2 = time.time()
        for cid, c in cor.items():
            if cid not in rej and base[cid] not in rej and not any(x in rej for x in ev):
                raise ToolError(f"binding self-test: corrupted trace accepted by {module}: "
                                f"{json.dumps(c[-1])[:1500]}")
        counts = {}
        for sid, evs in traces:
            for e in evs:
                k = e["op"] + ("" if e.get("out") == "ok" else "!" + str(e.get("out")))
                counts[k] = counts.get(k, 0) + 1
        for k, v in counts.items():
            self.opcounts[k] = self.opcounts.get(k, 0) + v
        self.traces.append({"name": name, "module": module, "scenarios": len(traces), "events": st["events"],
                            "trace_states": st["trace_states"], "corrupted_rejected": len(cor),
                            "exec_s": round(t1 - t0, 1), "tlc_s": round(t2 - t1, 1)})
        if os.environ.get("VT_DEBUG"):
            for x in st.get("evalerrors", []):
                log("EVALERROR", x)
        fnd = self.findings()
        for sid in sorted(x for x in rej if x < 10_000_000):
            evs = ev[sid]
            i = rej[sid]
            e = evs[i] if 0 <= i < len(evs) else {}
            hit = next((f for f in fnd if match(f["match"], e, byid[sid])), None)
            if hit:
                self.known.append((hit, byid[sid], e))
            else:
                self.violation(name, module, byid[sid], evs[: i + 1], e)
        miss = [o for o in need if not counts.get(o)]
        if miss and not self.viol:
            raise ToolError(f"coverage: no event of kind {miss} in {name}")
        if traces:
            sid, evs = traces[len(traces) // 2]
            if evs:
                self.samples.append(clip({"trace": name, "scenario": sid, "event": {k: v for k, v in evs[-1].items()
                                          if k not in ("nx",)}}))
        shutil.rmtree(w, ignore_errors=True)
        return ev

    def violation(self, name, module, sc, evs, e):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        if len(self.viol) < 20:
            p = os.path.join(VERIF, "replays", f"{self.pid}-{len(self.viol)}.json")
            with open(p, "w") as f:
                json.dump({"property": self.pid, "check": name, "spec": module, "scenario": sc,
                           "recorded": evs, "rejected_event": e}, f, indent=1)
        else:
            p = os.path.join(VERIF, "replays", f"{self.pid}-19.json")
        self.viol.append((p, e))

    def finish(self):
        for t in self.bg:
            t.join()
        if self.bgerr:
            raise self.bgerr[0]
        cov = {"states": sum(d["states"] for d in self.designs),
               "transitions": sum(d["transitions"] for d in self.designs),
               "traces_validated_against_impl": sum(t["scenarios"] for t in self.traces),
               "trace_events": sum(t["events"] for t in self.traces),
               "corrupted_traces_rejected": sum(t["corrupted_rejected"] for t in self.traces),
               "design_models": self.designs, "trace_checks": self.traces, "events_by_kind": self.opcounts,
               "known_findings_seen": len(self.known), "samples": self.samples[:8], **self.notes}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump({"property": self.pid, "tier": "thorough" if self.thorough else "quick", "seed": self.seed,
                       "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
                       "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}, f, indent=1)
        seen = set()
        for hit, sc, e in self.known:
            if hit["what"] not in seen:
                seen.add(hit["what"])
                log(f"KNOWN-FINDING: property={self.pid} {hit['what']}")
        for p, e in self.viol[:5]:
            log("rejected:", json.dumps(clip({k: v for k, v in e.items() if k != 'nx'}))[:700])
            log(f"VIOLATION property={self.pid} replay={p}")
        for t in self.traces:
            log("trace", json.dumps(t))
        for d in self.designs:
            log("design", json.dumps(d))
        log(f"{self.pid} {'VIOLATED' if self.viol else 'held'} in {time.time() - self.t0:.1f}s")
        return 1 if self.viol else 0

    def close(self):
        if not os.environ.get("VT_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)


def clip(x, n=24):
    if isinstance(x, list):
        return [clip(y, n) for y in x[:n]] + (["..."] if len(x) > n else [])
    if isinstance(x, dict):
        return {k: clip(v, n) for k, v in x.items()}
    if isinstance(x, str) and len(x) > 400:
        return x[:400] + "..."
    return x


def match(pat, e, sc):
    """A known finding names the exact rejected call: every listed field equal."""
    src = e
    if pat.get("event"):
        if any(src.get(k) != v for k, v in pat["event"].items()):
            return False
    if "ops" in pat and sc["ops"] != pat["ops"]:
        return False
    return bool(pat.get("event") or pat.get("ops"))
