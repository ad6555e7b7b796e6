"""Runs code under test in a child process, with memory and time limits, so that whatever it does is an outcome."""
import json
import os
import resource
import signal
import tempfile
import time

MEMORY = 5 << 29


def run(fn, items, timeout):
    """[fn(item)] computed in a child -> (results of the items that were finished, how the child ended)

    how: "" all done, else "timeout" / "signal N" / "exit N"; the first item without a result was being run."""
    fd, path = tempfile.mkstemp(prefix="iso")
    os.close(fd)
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            with open(path, "w") as f:
                for it in items:
                    f.write(json.dumps(fn(it)))
                    f.write("\n")
                    f.flush()
            code = 0
        except MemoryError:
            code = 77
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    t0, how = time.time(), None
    while how is None:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            how = "" if st == 0 else "signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exit %d" % os.WEXITSTATUS(st)
        elif time.time() - t0 > timeout:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            how = "timeout"
        else:
            time.sleep(0.01)
    out = []
    with open(path) as f:
        for line in f:
            if line.endswith("\n"):
                out.append(json.loads(line))
    os.unlink(path)
    return out, how
