"""Runs TLC on a specification of /verif/spec and collects what it prints."""
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    out = ""


class EvalError(TlcError):
    """TLC could not evaluate the specification in some state (self.out has the state)"""


def run(module, cfg=None, env=None, workers=8, heap="6g", timeout=800, args=(), jvm=(), ok_codes=(0,), spec_dir=SPEC):
    """Returns (stdout, dict(states, distinct, depth)).  Raises TlcError unless TLC ends with an accepted code."""
    from server import scratch
    meta = scratch("tlc")
    try:
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", f"-Djava.io.tmpdir={meta}", "-Xss256m", *jvm, "-cp", JARS, "tlc2.TLC", "-nowarning",
               "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", (cfg or module) + ".cfg", *args,
               module + ".tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            r = subprocess.run(cmd, cwd=spec_dir, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise TlcError(f"TLC timed out on {module}: {(x.stdout or b'')[-2000:]}")
        if r.returncode not in ok_codes:
            x = (EvalError if "The error occurred when TLC was evaluating" in r.stdout else TlcError)(
                f"TLC exit {r.returncode} on {module}\n{r.stdout[-6000:]}\n{r.stderr[-2000:]}")
            x.out = r.stdout
            raise x
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.stdout)
        st = {"states": 0, "distinct": 0, "depth": 0, "rc": r.returncode}
        if m:
            st["states"], st["distinct"] = (int(x.replace(",", "")) for x in m[-1])
        m = re.findall(r"depth of the complete state graph search is (\d+)", r.stdout)
        if m:
            st["depth"] = int(m[-1])
        return r.stdout, st
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def verdicts(out, tag="V"):
    """<<"V", id, {"a", "b"}>> lines -> {id: {a, b}}.  TLC wraps long values over several lines."""
    res = {}
    for m in re.finditer(r'<<\s*"%s",\s*(\d+),\s*\{([^}]*)\}\s*>>' % tag, out):
        res[int(m.group(1))] = set(re.findall(r'"([^"]*)"', m.group(2)))
    return res
