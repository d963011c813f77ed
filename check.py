#!/usr/bin/env python3
"""Decide one property of /repo by static analysis.   usage: check.py <property> [quick|thorough]

Builds the analyser (sa/), lets cargo resolve and type-check the probe crate against /repo's
current sources, and runs the analyses of the property on the resulting MIR.  Nothing of /repo is
executed.
"""
import fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SA_REPO", "/repo")
WORK = os.environ.get("SA_WORK", os.path.join(HERE, ".work"))
sys.path.insert(0, os.path.join(HERE, "tools"))
import plan  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".work"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()[:16]


class Broken(Exception):
    pass


def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()


def build_sa(env):
    key = tree_hash([os.path.join(HERE, "sa")])
    tgt = os.path.join(WORK, "sa")
    exe = os.path.join(WORK, "sa-" + key)
    if not os.path.exists(exe):
        r = sh(["cargo", "+nightly", "build", "--offline", "--target-dir", tgt], cwd=os.path.join(HERE, "sa"), env=env)
        if r.returncode != 0:
            raise Broken("the analyser does not build:\n" + r.stdout[-4000:])
        shutil.copy2(os.path.join(tgt, "debug", "sa"), exe + ".tmp")
        os.rename(exe + ".tmp", exe)
    return exe


def build_probe(exe, env, release, skip=()):
    """Type-check the probe against the current sources; returns the compiler command line."""
    src = os.path.join(HERE, "probe")
    key = tree_hash([REPO, src]) + hashlib.sha256(repr((exe, skip)).encode()).hexdigest()[:8]
    name = "probe-%s-%s" % ("release" if release else "debug", key)
    tgt = os.path.join(WORK, name)
    args = os.path.join(tgt, "args")
    crate = os.path.join(tgt, "crate")
    if not os.path.exists(args):
        shutil.rmtree(tgt, ignore_errors=True)
        os.makedirs(tgt)
        shutil.copytree(src, crate, ignore=shutil.ignore_patterns("target"))
        if REPO != "/repo":
            p = os.path.join(crate, "Cargo.toml")
            t = open(p).read().replace('"/repo/', '"%s/' % REPO)
            open(p, "w").write(t)
        if skip:
            drop(os.path.join(crate, "src"), skip)
        e = dict(env)
        e["RUSTC_WORKSPACE_WRAPPER"] = exe
        e["SA_SAVE"] = args + ".tmp"
        e["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings -Coverflow-checks=on -Cdebug-assertions=%s" % ("off" if release else "on")
        e["CARGO_INCREMENTAL"] = "0"
        r = sh(["cargo", "+nightly", "check", "--offline", "--target-dir", os.path.join(tgt, "t")], cwd=crate, env=e)
        if r.returncode != 0:
            return None, r.stdout
        os.rename(args + ".tmp", args)
    return (open(args).read().split("\0")[1:], crate), ""


def drop(src, skip):
    for f in {x[0] for x in skip}:
        p = os.path.join(src, f)
        t = open(p).read().split("\n")
        t = [l if (f, i + 1) not in skip else "" for i, l in enumerate(t)]
        open(p, "w").write("\n".join(t))


def clean_old(keep):
    now = time.time()
    for n in os.listdir(WORK):
        p = os.path.join(WORK, n)
        if n.startswith("probe-") and p not in keep and now - os.path.getmtime(p) > 1800:
            shutil.rmtree(p, ignore_errors=True)
        if n.startswith("run-") and now - os.path.getmtime(p) > 7200:
            shutil.rmtree(p, ignore_errors=True)


def prepare(modes):
    os.makedirs(WORK, exist_ok=True)
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC", "RUSTC_WORKSPACE_WRAPPER"):
            del env[k]
    env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_sa(env)
        probes, missing = {}, []

        def one(mode):
            skip = ()
            for _ in range(8):
                r, log = build_probe(exe, env, mode == "release", skip)
                if r:
                    return mode, r, skip, log
                lines = set(skip) | failing_lines(log)
                if lines == set(skip):
                    return mode, None, skip, log
                skip = tuple(sorted(lines))
            return mode, None, skip, log

        with ThreadPoolExecutor(2) as ex:
            for mode, r, skip, log in ex.map(one, modes):
                if r is None:
                    raise Broken("the probe does not compile against /repo:\n" + log[-6000:])
                probes[mode] = r
                if skip:
                    missing = sorted(set(missing) | set(skip))
        clean_old([os.path.dirname(p[1]) for p in probes.values()])
    return env, exe, probes, missing


def failing_lines(log):
    """Lines of the probe (one operation or declaration each) that do not compile."""
    out = set()
    for m in re.finditer(r"--> src/(\w+\.rs):(\d+):", log):
        f, n = m.group(1), int(m.group(2))
        l = probe_line(f, n)
        if re.match(r"\s*(pub fn \w+.*\}|#\[derive.*[;}]|pub type .*;)\s*$", l):
            out.add((f, n))
    return out


def probe_line(f, n):
    src = open(os.path.join(HERE, "probe", "src", f)).read().split("\n")
    return src[n - 1].strip() if n <= len(src) else ""


def capped():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Found:
    """Remembers when the first violation was seen: the rest of the work gets a minute."""

    def __init__(self, prop):
        self.prop, self.known, self.since = prop, known(), None

    def look(self, of, pos):
        if not os.path.exists(of):
            return pos
        with open(of, "rb") as fh:
            fh.seek(pos)
            data = fh.read()
        data = data[: data.rfind(b"\n") + 1]
        for l in data.decode("utf-8", "replace").split("\n"):
            f = l.split("\t")
            if f[0] == "OBL" and f[5] == "refuted" and self.since is None:
                o = f[1:7]
                if plan.relevant(self.prop, o) and (self.prop, "%s: %s" % (o[2], o[3])) not in self.known:
                    self.since = time.time()
        return pos + len(data)

    def enough(self):
        return self.since is not None and time.time() - self.since > 60


def run_one(cmd, cwd, env, logf, of, limit, found):
    if found.enough():
        return 0, ""
    t0, pos = time.time(), 0
    with open(logf, "w") as lf:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=lf, stderr=subprocess.STDOUT, preexec_fn=capped)
        while True:
            try:
                rc = p.wait(timeout=1.0)
                break
            except subprocess.TimeoutExpired:
                pos = found.look(of, pos)
                if found.enough() or time.time() - t0 > limit:
                    p.kill()
                    p.wait()
                    rc = 0 if found.enough() else "timeout"
                    break
        found.look(of, pos)
    return rc, open(logf, errors="replace").read()


def run_shards(prop, env, exe, probes, tasks, run_dir, limit):
    """tasks: list of (mode, cost, line)."""
    shards = plan.shard(tasks, os.cpu_count() or 4)

    def one(x):
        i, (mode, lines) = x
        args, crate = probes[mode]
        tf, of = os.path.join(run_dir, "task%d" % i), os.path.join(run_dir, "out%d" % i)
        open(tf, "w").write("\n".join(lines) + "\n")
        e = dict(env)
        e["SA_TASKS"], e["SA_OUT"] = tf, of
        e["CARGO_PKG_NAME"] = "probe"
        e["RUST_MIN_STACK"] = str(1 << 28)
        rc, log = run_one([exe] + args, crate, e, tf + ".log", of, limit, found)
        text = open(of).read() if os.path.exists(of) else ""
        text = text[: text.rfind("\n") + 1]
        return mode, lines, rc, log, text

    found = Found(prop)
    # the most expensive first
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        return list(ex.map(one, enumerate(shards)))


def number(obls):
    return sum(o[6] for o in obls)


def known():
    keys = set()
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(.*?)\s*(?:\|\|.*)?$", l.strip())
            if m:
                keys.add((m.group(1), m.group(2)))
    return keys


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        prepare(["debug", "release"])
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        tasks = plan.tasks(prop, tier)
        modes = sorted({t[0] for t in tasks})
        env, exe, probes, missing = prepare(modes)
        env["SA_SCALE"] = "1" if tier == "quick" else "10"
        env["SA_UNROLL"] = str(plan.unroll(prop, tier))
        run_dir = os.path.join(WORK, "run-%s-%d" % (prop, os.getpid()))
        os.makedirs(run_dir, exist_ok=True)
        limit = 700 if tier == "quick" else 6 * 3600
        env["SA_OP_SECS"] = "120" if tier == "quick" else "1800"
        env["SA_UNTIL"] = str(int(t0) + (560 if tier == "quick" else 5 * 3600))
        res = run_shards(prop, env, exe, probes, tasks, run_dir, limit)
    except Broken as b:
        print("ERROR: %s" % b)
        return 2
    obl, fns, calls, ops, stats, troubles = [], set(), set(), [], [0] * 5, []
    for mode, lines, rc, log, text in res:
        if rc != 0:
            troubles.append("%s: analyser ended with %s: %s" % (lines, rc, log[-1500:]))
        for l in text.split("\n"):
            f = l.split("\t")
            if f[0] == "OBL":
                obl.append(f[1:7] + [int(f[7])])
            elif f[0] == "FN":
                fns.add(f[1])
            elif f[0] == "CALL":
                calls.add(f[1])
            elif f[0] == "OP":
                ops.append(f[1:])
            elif f[0] == "STAT":
                stats = [a + int(b) for a, b in zip(stats, f[1:])]
    shutil.rmtree(run_dir, ignore_errors=True)
    for f, n in missing:
        p = plan.api_property(f)
        obl.append([p, "type check", "probe/src/%s:%d" % (f, n), "compiles: %s" % probe_line(f, n), "refuted", "the compiler rejects this use of the public interface", 1])
    mine = [o for o in obl if plan.relevant(prop, o)]
    # an analysis that ends early leaves its part of the property open
    short = number(mine) < plan.floor(prop)
    if short:
        troubles.append("only %d obligations were generated" % number(mine))
    proved = [o for o in mine if o[4] == "proved"]
    open_ = [o for o in mine if o[4] == "unknown"]
    refuted = [o for o in mine if o[4] == "refuted"]
    kn = known()
    viol, seen_known = {}, {}
    for o in refuted:
        key = "%s: %s" % (o[2], o[3])
        if (prop, key) in kn:
            seen_known.setdefault(key, o)
        else:
            viol.setdefault(key, []).append(o)
    rep = os.path.join(HERE, "evidence", "%s.violations.txt" % prop)
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    if os.path.exists(rep):
        os.remove(rep)
    for key, o in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, key))
    if viol:
        with open(rep, "w") as f:
            for key, os_ in sorted(viol.items()):
                f.write("%s\n" % key)
                for o in os_[:10]:
                    f.write("    [%s] %s\n" % (o[1], o[5]))
    why = {}
    for o in open_:
        w = re.sub(r"\b[\w.]+=\S+", "", o[5])
        w = "%s: %s: %s" % (o[2], o[3], w[:120])
        why[w] = why.get(w, 0) + o[6]
    cov = {
        "explanation": plan.explain(prop),
        "obligations": number(mine),
        "discharged": number(proved),
        "open": number(open_),
        "refuted": number(refuted),
        "analyses": len(ops),
        "abstract_steps": stats[4],
        "loops": stats[0],
        "loops_summarised": stats[1],
        "joins": stats[3],
        "functions_analysed": sorted(x for x in fns),
        "calls_without_model": sorted(calls),
        "configurations": sorted({o[0] for o in ops}),
        "operations": sorted({o[1] for o in ops}),
        "open_obligations": [{"where": k, "times": v} for k, v in sorted(why.items(), key=lambda x: -x[1])[:40]],
        "samples": [" | ".join(o[:4]) for o in (proved[:: max(1, len(proved) // 8)] or open_[:3])][:8],
        "not_expressible_on_this_tree": ["%s:%d %s" % (f, n, probe_line(f, n)) for f, n in missing],
        "analyses_ended_early": [t[:300] for t in troubles],
        "rule": plan.rule(prop),
        "checker_cmd": "python3 check.py %s %s" % (prop, tier),
        "trusted_base": plan.TRUSTED,
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": plan.level(prop),
        "coverage": cov,
        "assumptions": plan.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(HERE, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d analyses, %d obligations, %d discharged, %d open, %d refuted, %.1fs" % (prop, tier, len(ops), number(mine), number(proved), number(open_), number(refuted), time.time() - t0))
    if viol:
        for key, os_ in sorted(viol.items()):
            print("  %s\n      [%s] %s" % (key, os_[0][1], os_[0][5]))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    for t in troubles:
        print("TROUBLE: " + t)
    return 2 if short else 0


if __name__ == "__main__":
    sys.exit(main())
