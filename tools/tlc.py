"""Runs TLC."""
import json
import os
import re
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = ":".join("/opt/veriftools/tla/" + j for j in ("tla2tools.jar", "CommunityModules-deps.jar"))


class TlcError(Exception):
    pass


def run(module, config, workdir, env=None, workers=1, heap="1500m", timeout=600, extra=()):
    """Returns (exit status, output)."""
    os.makedirs(workdir, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:ParallelGCThreads=4" if workers != 1 else "-XX:TieredStopAtLevel=4",
           "-Djava.io.tmpdir=" + workdir, "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet"
           if False else "-Dverif=1",
           "-cp", CP, "tlc2.TLC", "-config", os.path.join(SPEC, config), "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", os.path.join(workdir, "meta")] + list(extra) + [
               os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, env=e, cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired as x:
        raise TlcError("TLC ran out of time on %s" % module) from x
    return p.returncode, p.stdout


def counts(out):
    """(generated states, distinct states) of a finished run."""
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return tuple(int(x.replace(",", "")) for x in m[-1])


def check_trace(trace, doms, workdir, timeout=600, module="Trace"):
    """Validates a recorded trace.  Returns (mismatch or None, states)."""
    with open(trace) as f:
        n = sum(1 for _ in f)
    rc, out = run(module, module + ".cfg", workdir, {"VERIF_TRACE": trace, "VERIF_DOMS": doms}, timeout=timeout)
    gen, _ = counts(out)
    m = None
    for line in out.splitlines():
        k = line.find("MISMATCH ")
        if k >= 0:
            s = line[k + 9:]
            if line.lstrip().startswith('"'):
                s = json.loads(line.strip())[9:]
            m = json.loads(s)
            break
    if m is None and (rc != 0 or "No error has been found" not in out):
        raise TlcError("TLC failed (%d) on %s:\n%s" % (rc, trace, out[-4000:]))
    if m is None and gen < n + 1:
        raise TlcError("TLC stopped early on %s:\n%s" % (trace, out[-4000:]))
    return m, gen
