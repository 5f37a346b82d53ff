#!/usr/bin/env python3
"""tools/plant.py ID [--check PROP ...]: confirms a planted bug in a scratch copy of /repo.

Builds and tests a copy with seeded/ID/patch.diff applied, runs its demo there (has to fail) and in an unchanged
copy (has to pass), and runs the named checks (default: the property in meta.json) against the changed copy.
Nothing in /repo is touched.
"""
import argparse, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, env=None, t=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode("utf8", "replace")


def copy(d):
    subprocess.check_call(["cp", "-a", "/repo", d])
    os.makedirs(d + ".vp")
    for f in os.listdir("/opt/vp"):
        s = open("/opt/vp/" + f, errors="surrogateescape").read()
        open(d + ".vp/" + f, "w", errors="surrogateescape").write(s.replace("/opt/vp", d + ".vp").replace("/repo", d))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--check", action="append"); ap.add_argument("--nocheck", action="store_true"); ap.add_argument("--secs", type=float, default=0)
    ap.add_argument("--checkonly", action="store_true")
    a = ap.parse_args()
    src = os.path.join(HERE, "seeded", a.id)
    meta = json.load(open(src + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="plant-")
    res = []
    try:
        demo = tmp + "/demo"
        shutil.copytree(src, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        bad = tmp + "/bad"
        copy(bad)
        rc, o = sh("git apply %s/patch.diff" % src, bad)
        if rc: return print(a.id, "PATCH DOES NOT APPLY", o)
        if not a.checkonly:
            rc, o = sh("bash %s.vp/test.sh %s/out.json" % (bad, tmp))
            b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); p = set(json.load(open(tmp + "/out.json"))["passed"])
            res.append("tests:" + ("ok" if b <= p else "FAIL %s" % sorted(b - p)[:3] + o[-300:]))
            rc, o = sh("timeout 300 bash %s/demo.sh" % demo, bad)
            res.append("demo-bad:%d" % rc + ("" if rc else " NOT DETECTED " + o[-300:]))
            good = tmp + "/good"
            copy(good)
            sh("bash %s.vp/build.sh" % good)
            rc, o = sh("timeout 300 bash %s/demo.sh" % demo, good)
            res.append("demo-good:%d" % rc + ("" if not rc else " FAILS " + o[-500:]))
        if not a.nocheck:
            for c in a.check or [meta["property"]]:
                env = dict(os.environ, SIM_REPO=bad, VERIF_NOEVIDENCE="1")
                rc, o = sh("python3 %s/bin/check %s %s" % (HERE, c, "--secs %g" % a.secs if a.secs else ""), None, env)
                v = [l for l in o.split("\n") if l.startswith("  ")][:1]
                res.append("%s:%s %s" % (c, {0: "MISSED", 1: "caught"}.get(rc, "rc%d %s" % (rc, o[-300:])), v[0].strip()[:160] if v else ""))
        print(a.id, " | ".join(res))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
