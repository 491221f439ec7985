#!/usr/bin/env python3
"""mutate.py tests MUTANTS OUT [WORKERS]   which mutants compile and pass the repository's tests
   mutate.py checks SURVIVORS OUT [WORKERS] which of them the checks notice (small budgets)
Every worker has a copy of /repo in /dev/shm, mounted at /repo in a namespace of its own."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile, threading, time, queue, signal
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
VERIF = check.VERIF
ENV = check.build_env(); ENV["GOFLAGS"] = ""
lock = threading.Lock()

def fresh(d):
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git"))

def apply(d, m):
    p = m["file"].replace("/repo", d, 1)
    b = open(p, "rb").read()
    open(p, "wb").write(b[:m["start"]] + m["repl"].encode() + b[m["end"]:])
    # what is not used any more would not compile
    imp = subprocess.run(["goimports", "-w", p], capture_output=True) if shutil.which("goimports") else None

def sh(cmd, cwd, timeout, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 124, "timeout"
    finally:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass

def tests(m, d):
    fresh(d); apply(d, m)
    rc, out = sh(["go", "build", "./..."], d, 120)
    if rc: return "build"
    rc, out = sh(["go", "test", "-vet=off", "-count=1", "-timeout", "50s", "./..."], d, 100)
    return "killed" if rc else "survived"

M = "C15 C16 C17 C18 C12"
W = "C20 C05 C01 C02 C04 C03 C12"
ORDER = {"yaml.go": M, "any.go": M, "custom.go": M, "type.go": M, "matchYAML.go": "C18 C17 " + W, "matchJSON.go": "C14 C17 " + W, "difflib.go": "C13 C02", "diff.go": "C13 C02",
         "clean.go": "C09 C10 C07 C08 C20 C05 C03", "skip.go": "C08 C09 C07 C20", "snapshot.go": "C03 C11 C01 C04 C09 C10 C07 C12 C19 C20 C05 C02", "colors.go": "C13 C20",
         "matchStandaloneJSON.go": "C19 C14 C17 " + W, "matchStandaloneSnapshot.go": "C19 " + W, "matchSnapshot.go": W, "utils.go": "C05 C11 C13 C20 C01 C09 " + M}
ALL = ["C%02d" % i for i in range(1, 21)]

def checks(m, d):
    fresh(d); apply(d, m)
    scratch = d + ".s"
    shutil.rmtree(scratch, ignore_errors=True); os.makedirs(scratch)
    driver = os.path.join(VERIF, "plant", "mutate_one.py")
    first = ORDER.get(os.path.basename(m["file"]), "").split()
    props = first or ALL
    rc, out = sh(["unshare", "-m", "bash", "-c", "mount --bind %s /repo && exec python3 %s %s %s" % (d, driver, scratch, " ".join(props))], VERIF, 1500, dict(os.environ))
    subprocess.run(["chmod", "-R", "u+rwx", scratch], capture_output=True)
    shutil.rmtree(scratch, ignore_errors=True)
    return out.strip().splitlines()[-1] if out.strip() else "rc %d" % rc

def main():
    what, src, out = sys.argv[1:4]
    n = int(sys.argv[4]) if len(sys.argv) > 4 else 8
    ms = [json.loads(l) for l in open(src)]
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    todo = [m for m in ms if m["id"] not in done]
    root = tempfile.mkdtemp(prefix="mut.", dir="/dev/shm")
    dirs = queue.Queue()
    for i in range(n): dirs.put(os.path.join(root, "w%d" % i))
    f = open(out, "a")
    def one(m):
        d = dirs.get()
        t = time.time()
        try:
            r = (tests if what == "tests" else checks)(m, d)
        except Exception as e:
            r = "error %s" % e
        finally:
            dirs.put(d)
        with lock:
            f.write(json.dumps(dict(m, **{what: r, "t": round(time.time() - t, 1)})) + "\n"); f.flush()
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(one, todo))
    shutil.rmtree(root, ignore_errors=True)
main()
