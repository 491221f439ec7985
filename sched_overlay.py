"""Builds the overlay for the variant "sched": the packages of the repository with instrumented
versions of os and sync (harness/cmd/schedgen)."""
import os, subprocess


def make(repo, src, outdir, which, env):
    p = subprocess.run(["go", "run", "./cmd/schedgen", repo, outdir, which], cwd=src, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        return None, p.stdout + p.stderr
    return os.path.join(outdir, "overlay.json"), ""
