#!/usr/bin/env python3
"""Render a unit and run Verus on it (developer entry point and library)."""
import sys, os, json, subprocess, time, re, tempfile, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.dirname(HERE))
import rsx


def get_unit(name):
    return importlib.import_module("proofs." + name).build()


def run_verus(path, timeout=400, extra=(), rlimit=None, multi=3):
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    cmd = ["verus", path, "--output-json", "--time-expanded", "--multiple-errors", str(multi), "--no-report-long-running"]
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    cmd += list(extra) + ["--", "--error-format=json"]
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env,
                           cwd=os.path.dirname(path))
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        return {"cmd": cmd, "timeout": True, "wall": time.time() - t, "diags": [], "json": None, "rc": None,
                "stderr": str(e)}
    diags = []
    for l in err.splitlines():
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    try:
        js = json.loads(out[out.index("{"):])
    except ValueError:
        js = None
    return {"cmd": cmd, "timeout": False, "wall": time.time() - t, "diags": diags, "json": js, "rc": rc, "stderr": err}


if __name__ == "__main__":
    u = get_unit(sys.argv[1])
    text, spans = u.render()
    d = "/tmp/vt"
    os.makedirs(d, exist_ok=True)
    p = f"{d}/{u.name}.rs"
    open(p, "w").write(text)
    r = run_verus(p, extra=sys.argv[2:])
    for x in r["diags"]:
        if x["level"] in ("error",) or (len(sys.argv) > 2 and "-v" in sys.argv):
            print(x["rendered"])
    if r["json"]:
        print(r["json"]["verification-results"], "smt ms", r["json"].get("times-ms", {}).get("smt", {}).get("total"))
        slow = []
        for m in r["json"].get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                slow.append((f["time"], f["function"], f["success"]))
        for s in sorted(slow, reverse=True)[:6]:
            print("  ", s)
    else:
        print(r["stderr"][-3000:])
    print("wall %.1f" % r["wall"], "lost hints", u.lost_hints, "LOST", u.lost)
