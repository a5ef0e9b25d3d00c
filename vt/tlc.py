"""Running TLC on a trace or model; parsing its verdict."""
import json, os, re, shutil, subprocess, tempfile, time
from . import build
SPEC = os.path.join(build.VERIF, "spec")

class TLCError(Exception):
    pass

def run(module, cfg, env=None, workers=8, timeout=800, pure=False, args=(), heap="6g", keep=None):
    """Returns dict(ok, states, distinct, diameter, violation(text), out)."""
    tmp = tempfile.mkdtemp(prefix="tlc", dir="/tmp")
    try:
        e = dict(os.environ); e.update(env or {}); e.pop("JAVA_TOOL_OPTIONS", None)
        cp = build.java() + ":" + build.CP
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vt.Overrides"]
        if pure: cmd.append("-Dvt.pure=true")
        cmd += ["-cp", cp, "tlc2.TLC", "-workers", str(workers), "-metadir", tmp + "/meta", "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg), *args, os.path.join(SPEC, module + ".tla")]
        t = time.time()
        try:
            r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=SPEC, errors="replace")
        except subprocess.TimeoutExpired as x:
            raise TLCError("TLC timed out: %s %s" % (module, cfg))
        out = r.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        d = re.search(r"depth of the complete state graph search is (\d+)", out)
        res = dict(ok=r.returncode == 0, rc=r.returncode, out=out, wall=time.time() - t, violation=None,
                   states=int(m[-1][0]) if m else 0, distinct=int(m[-1][1]) if m else 0, diameter=int(d.group(1)) if d else 0)
        if r.returncode in (10, 11, 12, 13):
            res["violation"] = out
        elif r.returncode != 0:
            raise TLCError("TLC failed (exit %d) on %s %s:\n%s" % (r.returncode, module, cfg, out[-5000:]))
        elif not m and "-simulate" in args:
            g = re.search(r"The number of states generated: (\d+)", out)
            if not g: raise TLCError("no state count in TLC's output:\n" + out[-3000:])
            res["states"] = int(g.group(1))
        elif not m:
            raise TLCError("no state count in TLC's output:\n" + out[-3000:])
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def last_state(out):
    """Text of the last state TLC printed in an error trace."""
    p = re.split(r"^State \d+:.*$", out, flags=re.M)
    return p[-1] if len(p) > 1 else ""
