"""Running TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")


class TLCError(Exception):
    pass


def run(module, cfg, env=None, workers=None, timeout=800, args=(), heap="12g"):
    """-> dict(out lines, states, distinct, violated, wall, rc)"""
    tmp = tempfile.mkdtemp(prefix="tlc")
    try:
        cfgp = os.path.join(tmp, "run.cfg")
        if "\n" in cfg:
            with open(cfgp, "w") as f:
                f.write(cfg)
        else:
            cfgp = os.path.join(SPEC, cfg)
        e = dict(os.environ)
        e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:+UseParallelGC -Djava.io.tmpdir=%s" % (heap, tmp)
        e.update(env or {})
        cmd = ["tlc", "-workers", str(workers or os.cpu_count() or 4), "-metadir", os.path.join(tmp, "meta"),
               "-noGenerateSpecTE", "-config", cfgp] + list(args) + [os.path.join(SPEC, module)]
        t0 = time.time()
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise TLCError("TLC ran out of time on " + module)
        wall = time.time() - t0
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        res = dict(out=out, rc=p.returncode, wall=wall, states=int(m.group(1)) if m else 0,
                   distinct=int(m.group(2)) if m else 0)
        mv = re.search(r"Error: (?:Invariant|Temporal properties|Action property|Property) ?(\S*) ?(?:is|were) violated", out)
        res["violated"] = mv.group(1) if mv else None
        if p.returncode not in (0, 12, 13) or (p.returncode and not mv):
            raise TLCError("TLC failed on %s (rc %s):\n%s" % (module, p.returncode, "\n".join(re.findall(r"Error:[^\n]*(?:\n(?!State)[^\n]*){0,6}", out)[:3]) + out[-1500:]))
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def printed(out, prefix):
    """Records printed by the specification as  PrintT(prefix \\o ToJson(rec))."""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + prefix + " "):
            res.append(json.loads(json.loads(line)[len(prefix) + 1:]))
    return res


def validate(sessions, timeout=800, workers=None, module="Trace.tla", cfg="Trace.cfg"):
    """-> list of verdicts, in session order, plus TLC statistics."""
    fd, path = tempfile.mkstemp(suffix=".json", prefix="trace")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(sessions, f)
        res = run(module, cfg, {"TRACE_FILE": path}, timeout=timeout, workers=workers)
    finally:
        os.unlink(path)
    vs = {v["s"]: v for v in printed(res["out"], "VERDICT")}
    if len(vs) != len(sessions):
        raise TLCError("%d verdicts for %d sessions\n%s" % (len(vs), len(sessions), res["out"][-3000:]))
    return [vs[j + 1] for j in range(len(sessions))], res
