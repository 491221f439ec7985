#!/usr/bin/env python3
"""check.py <ID> [quick|thorough] [--replay FILE] [--keep] [--checks N] [--aspect NAME]

Builds the harness against /repo's working tree, runs the shards of a property, writes
evidence/<ID>.json and prints the verdict. Exit 0: held; 1: VIOLATION line; 2: no answer.
"""
import concurrent.futures as cf
import functools, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

import confine

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"

# property -> [(variant, shards, weight)]
PLAN = {
    "C02": [("plain", 5), ("nocolor", 3)],
    "C04": [("plain", 5), ("updenv", 3)],
    "C06": [("sched", 6), ("race", 2)],
    "C12": [("plain", 6), ("race", 2)],
    "C13": [("nocolor", 6), ("plain", 2)],
    "C17": [("plain", 4), ("updenv", 2), ("ci", 1), ("ciupd", 1)],
    "C18": [("plain", 5), ("updenv", 1), ("ci", 1), ("ciupd", 1)],
    "C19": [("plain", 5), ("updenv", 1), ("ci", 1), ("ciupd", 1)],
    "C20": [("plain", 6), ("race", 2)],
}
DEFAULT_PLAN = [("plain", 8)]
DEADLINE = {"quick": 240, "thorough": 700}

# how a variant is built and run
BUILD = {
    "plain": ("plain", []),
    "nocolor": ("plain", []),
    "updenv": ("plain", []),
    "ci": ("plain", []),
    "ciupd": ("plain", []),
    "race": ("race", ["-race"]),
    "sched": ("sched", []),
}
RUN_ENV = {"ci": {"CI": "true"}, "ciupd": {"CI": "true", "UPDATE_SNAPS": "true"}, "updenv": {"UPDATE_SNAPS": "true"}, "nocolor": {"NO_COLOR": "1"}, "race": {"GORACE": "halt_on_error=1 exitcode=66 history_size=3"}}


class NoAnswer(Exception):
    pass


def base_env():
    """A small environment of our own: nothing of the caller's may choose the mode."""
    e = {
        "HOME": os.environ.get("HOME", "/root"),
        "PATH": "/opt/veriftools/go1.27.3/bin:" + os.environ.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"),
        "LANG": "C.UTF-8",
        "TMPDIR": "/tmp",
    }
    return e


def build_env():
    e = base_env()
    e.update(GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    for k in ("GOPATH", "GOMODCACHE", "GOCACHE"):
        if os.environ.get(k):
            e[k] = os.environ[k]
    return e


def scratch_root():
    try:
        st = os.statvfs("/dev/shm")
        if st.f_bavail * st.f_frsize > 4 << 30 and os.access("/dev/shm", os.W_OK):
            return "/dev/shm"
    except OSError:
        pass
    return "/tmp"


def build(scratch, variants):
    src = os.path.join(scratch, "harness")
    shutil.copytree(os.path.join(VERIF, "harness"), src)
    bins = {}
    def one(b, flags):
        out = os.path.join(scratch, b + ".test")
        cwd = src
        attempts = [(list(flags), [])]
        if b == "sched":
            # instrumented os and sync; less of it where the code uses what the instrumented ones lack
            import sched_overlay
            attempts = []
            for i, which in enumerate(["os,sync", "sync", "os"]):
                o, err = sched_overlay.make(REPO, src, os.path.join(scratch, "overlay%d" % i), which, build_env())
                if o:
                    attempts.append((["-overlay", o], ["sched"]))
            attempts.append(([], []))
        # the aspects that use internal/difflib directly are left out if it has another API
        for extra, tags in attempts:
            for more in (["difflib"], []):
                p = subprocess.run(["go", "test", "-c", "-vet=off", "-tags", ",".join(tags + more), *extra, "-o", out, "./props"],
                                   cwd=cwd, env=build_env(), capture_output=True, text=True)
                if p.returncode == 0:
                    break
            if p.returncode == 0:
                break
        if p.returncode != 0:
            raise NoAnswer("build of variant %s failed:\n%s%s" % (b, p.stdout, p.stderr))
        return out
    todo = {}
    for v in variants:
        b, flags = BUILD[v]
        todo[b] = flags
    # one after the other: they write the same go.sum/go.mod copies and cache
    for b, flags in todo.items():
        bins[b] = one(b, flags)
    return bins


def tail(path, n=6000):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(max(0, size - n))
            return f.read().decode("utf-8", "replace")
    except OSError:
        return ""


@functools.cache
def confine_to(*dirs):
    return confine.confiner(dirs)


MEMORY = 12 << 30


def limits(memory, confine):
    """Runs in the child; a race-enabled binary maps terabytes of shadow memory."""
    if memory:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    if confine:
        confine()


def run_shard(scratch, binary, prop, tier, seed, variant, shard, shards, opts):
    out = os.path.join(scratch, "out-%s-%d" % (variant, shard))
    work = os.path.join(scratch, "work-%s-%d" % (variant, shard))
    os.makedirs(out)
    os.makedirs(work)
    e = base_env()
    e.update(RUN_ENV.get(variant, {}))
    e.update(VERIF_PROP=prop, VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_SHARD=str(shard), VERIF_SHARDS=str(shards),
             VERIF_OUT=out, VERIF_SCRATCH=work, VERIF_DEADLINE=str(DEADLINE[tier]), VERIF_VARIANT=variant,
             VERIF_HARNESS=os.path.join(scratch, "harness"), VERIF_REPO=REPO, TMPDIR=work,
             VERIF_BUILD_ENV="\x1f".join("%s=%s" % kv for kv in sorted({**build_env(), "TMPDIR": work}.items())))
    e.update(opts)
    log = os.path.join(out, "log")
    with open(log, "wb") as lf:
        p = subprocess.Popen([binary, "-test.run", "^TestVerif$", "-test.timeout", "0", "-test.v"],
                             cwd=os.path.join(scratch, "harness", "props"), env=e, stdout=lf, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, start_new_session=True,
                             preexec_fn=functools.partial(limits, BUILD[variant][0] != "race",
                                                          confine_to(scratch, build_env()["GOCACHE"], "/dev/null")))
        try:
            p.wait(timeout=DEADLINE[tier] + 190)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return {"variant": variant, "shard": shard, "infra": "shard timed out", "log": tail(log)}
        try:
            os.killpg(p.pid, signal.SIGKILL)  # stray children
        except OSError:
            pass
    r = {"variant": variant, "shard": shard, "rc": p.returncode, "log": tail(log), "out": out}
    res = os.path.join(out, "result.json")
    if os.path.exists(res):
        r["result"] = json.load(open(res))
        if r["result"].get("infra"):
            r["infra"] = r["result"]["infra"]
        elif p.returncode != 0 and not r["result"].get("failure"):
            if p.returncode == 66 or "DATA RACE" in open(log, errors="replace").read():
                r["died"] = "data race"
            else:
                r["infra"] = "shard exited %d without a failure" % p.returncode
        return r
    text = open(log, errors="replace").read()
    if p.returncode == -9:
        r["infra"] = "shard was killed"
    elif "WARNING: DATA RACE" in text:
        r["died"] = "data race"
    elif "out of memory" in text or "cannot allocate memory" in text or "no space left" in text:
        r["infra"] = "out of resources"
        if "runtime: out of memory" in text:
            r["oom"] = True
    elif re.search(r"^(fatal error:|panic:|unexpected fault)", text, re.M):
        r["died"] = "the process died"
    else:
        r["infra"] = "shard exited %d without a result" % p.returncode
    return r


def samples_of(results, limit=8):
    out, seen = [], set()
    for r in results:
        for a, ss in (r["result"].get("samples") or {}).items():
            for s in ss:
                k = (a, json.dumps(s, sort_keys=True))
                if k not in seen:
                    seen.add(k)
                    out.append({"aspect": a, "variant": r["variant"], "scenario": s})
    # at most `limit`, spread over aspects
    by = {}
    for s in out:
        by.setdefault(s["aspect"], []).append(s)
    pick = []
    while by and len(pick) < limit:
        for a in list(by):
            pick.append(by[a].pop(0))
            if not by[a]:
                del by[a]
            if len(pick) >= limit:
                break
    return pick


def known_findings(prop):
    """Lines `known: property=<id> replay=<file in findings/> <what fails>`."""
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) replay=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((os.path.join(VERIF, "findings", m.group(2)), m.group(3).strip()))
    except OSError:
        pass
    return out


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        # nothing is kept: the checks rebuild from /repo; this shows that the harness builds
        scratch = tempfile.mkdtemp(prefix="verif-setup-", dir=scratch_root())
        try:
            build(scratch, ["plain", "race", "sched"])
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return 0
    replay, opts, keep = None, {}, False
    pos = []
    while a:
        x = a.pop(0)
        if x == "--replay":
            replay = os.path.abspath(a.pop(0))
        elif x == "--checks":
            opts["VERIF_CHECKS"] = a.pop(0)
        elif x == "--aspect":
            opts["VERIF_ASPECT"] = a.pop(0)
        elif x == "--keep":
            keep = True
        else:
            pos.append(x)
    prop = pos[0]
    tier = pos[1] if len(pos) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=scratch_root())
    try:
        rc = run(prop, tier, seed, scratch, replay, opts, t0)
    except NoAnswer as e:
        print("NO ANSWER property=%s: %s" % (prop, e))
        rc = 2
    finally:
        if not keep:
            subprocess.run(["chmod", "-R", "u+rwx", scratch], capture_output=True)
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print("kept", scratch)
    sys.stdout.flush()
    return rc


def run(prop, tier, seed, scratch, replay, opts, t0):
    sys.path.insert(0, VERIF)
    plan = PLAN.get(prop, DEFAULT_PLAN)
    variants = [v for v, _ in plan]
    if replay:
        data = json.load(open(replay))
        variant = data.get("variant") or "plain"
        bins = build(scratch, [variant])
        r = run_shard(scratch, bins[BUILD[variant][0]], prop, tier, seed, variant, 0, 1, {"VERIF_REPLAY": replay})
        print(r["log"])
        if r.get("infra"):
            raise NoAnswer(r["infra"])
        if r.get("died") or r["result"].get("failure"):
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        print("replay passed")
        return 0

    bins = build(scratch, variants)
    t1 = time.time()
    jobs = []
    for v, n in plan:
        for s in range(n):
            jobs.append((v, s, n))
    for i, (f, what) in enumerate(known_findings(prop)):
        data = json.load(open(f))
        v = data.get("variant") or "plain"
        if v not in variants:
            raise NoAnswer("finding %s needs variant %s" % (f, v))
        os.makedirs(os.path.join(scratch, "kf%d" % i))
        r = run_shard(os.path.join(scratch, "kf%d" % i) if False else scratch, bins[BUILD[v][0]], prop, tier, seed, v, 1000 + i, 1, {"VERIF_REPLAY": f})
        if r.get("infra"):
            raise NoAnswer("finding %s: %s\n%s" % (f, r["infra"], r["log"]))
        if r.get("died") or r["result"].get("failure"):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        else:
            print("note: known finding no longer fails: %s" % what)
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        results = list(ex.map(lambda j: run_shard(scratch, bins[BUILD[j[0]][0]], prop, tier, seed, *j, opts), jobs))

    # a shard that ran out of its own memory: a scenario of moderate size that does so again, alone,
    # is a call that never stops to allocate
    for r in results:
        cur = os.path.join(r.get("out", ""), "current.json")
        if r.get("oom") and os.path.exists(cur) and os.path.getsize(cur) < 1 << 20:
            again = run_shard(scratch, bins[BUILD[r["variant"]][0]], prop, tier, seed, r["variant"], 2000 + r["shard"], 1,
                              {"VERIF_REPLAY": cur})
            if again.get("oom"):
                del r["infra"]
                r["died"] = "the process ran out of %d GB of memory" % (MEMORY >> 30)

    failures = []
    infra = []
    for r in results:
        f = (r.get("result") or {}).get("failure")
        if f:
            failures.append((r, f))
        elif r.get("died"):
            try:
                f = json.load(open(os.path.join(r["out"], "current.json")))
            except (OSError, ValueError):
                infra.append("shard %s/%d %s before the first scenario:\n%s" % (r["variant"], r["shard"], r["died"], r["log"]))
                continue
            f["error"] = r["died"] + "\n" + r["log"]
            failures.append((r, f))
        elif r.get("infra"):
            infra.append("shard %s/%d: %s\n%s" % (r["variant"], r["shard"], r["infra"], r["log"]))

    done = [r for r in results if r.get("result")]
    evaluations = sum(r["result"]["evaluations"] for r in done)
    seen = set()
    for r in done:
        b = open(os.path.join(r["out"], "seen.bin"), "rb").read()
        seen.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    labels, per, cut, rules = {}, {}, {}, {}
    for r in done:
        for k, n in (r["result"].get("labels") or {}).items():
            labels[k] = labels.get(k, 0) + n
        for k, n in (r["result"].get("per_aspect") or {}).items():
            k = "%s (%s)" % (k, r["variant"])
            per[k] = per.get(k, 0) + n
        for k, n in (r["result"].get("cut") or {}).items():
            cut[k] = cut.get(k, 0) + n
        rules.update(r["result"].get("rules") or {})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(seen),
            "rule": "; ".join("%s: %s" % (k, v) for k, v in sorted(rules.items())),
            "samples": samples_of(done),
            "per_aspect": per,
            "distribution": dict(sorted(labels.items())),
            "cases_cut_by_deadline": cut,
        },
        "assumptions": ["filesystem semantics of the sandbox", "kr/pretty, encoding/json and goccy/go-yaml as reference formatters where an oracle names them"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if failures:
        # the smallest shrunk scenario
        r, f = min(failures, key=lambda x: len(json.dumps(x[1].get("scenario"))))
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (prop, tier, seed))
        with open(path, "w") as fh:
            json.dump(f, fh, indent=1)
            fh.write("\n")
        print("aspect %s (variant %s): %s" % (f["aspect"], f.get("variant"), f["error"][:4000]))
        print("scenario: %s" % json.dumps(f["scenario"])[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if infra:
        raise NoAnswer("\n".join(infra))
    if evaluations == 0:
        raise NoAnswer("nothing was explored")
    print("OK property=%s tier=%s seed=%d: %d evaluations, %d distinct non-trivial, build %.1fs, total %.1fs%s" % (
        prop, tier, seed, evaluations, len(seen), t1 - t0, time.time() - t0, (", cut %s" % cut) if cut else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
