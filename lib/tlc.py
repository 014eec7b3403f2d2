"""Running TLC."""
import os
import re
import signal
import subprocess
import tempfile
import shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def java(workers, mem, gc, tmp):
    return ["java", "-Djava.io.tmpdir=" + tmp, "-XX:+Use%sGC" % gc, "-Xmx" + mem, "-Xss16m", "-cp", CP, "tlc2.TLC", "-workers", str(workers)]


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


TAGS = re.compile(r'<<\s*"TAGS",\s*(\d+),\s*(\d+),\s*"([^"]*)",\s*\{([^}]*)\}')


class Trace:
    """Result of validating one trace: tags = [(line, first line of the run, label, [tag])]"""

    def __init__(self):
        self.tags = []
        self.ok = False
        self.error = ""


def validate(work, module, trace, timeout=600, mem="2g", limit=400):
    """Check a recorded trace against the specification `module'."""
    r = Trace()
    meta = tempfile.mkdtemp(dir=work)
    env = dict(os.environ, TRACE=trace)
    cmd = java(1, mem, "Serial", meta) + ["-noGenerateSpecTE", "-metadir", meta, "-config", "%s/spec/%s.cfg" % (VERIF, module),
                                    "%s/spec/%s.tla" % (VERIF, module)]
    p = subprocess.Popen(["timeout", "-k", "1", str(timeout)] + cmd, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, cwd=meta)
    buf, tail = "", []
    err = 0
    for line in p.stdout:
        if err:
            r.error += line
            err += 1
            if err > 12:
                break
            continue
        if buf or line.startswith('<<"TAGS"') or line.startswith('<< "TAGS"'):
            buf += line
            m = TAGS.search(buf.replace("\n", " "))
            if m:
                r.tags.append((int(m.group(1)), int(m.group(2)), m.group(3),
                               [t.strip().strip('"') for t in m.group(4).split(",")]))
                buf = ""
                if len(r.tags) >= limit:
                    break
            elif len(buf) > 20000:
                buf = ""
        elif line.startswith("Error:") or "Exception in thread" in line:
            r.error, err = line, 1
        elif "No error has been found" in line:
            r.ok = True
    kill(p)
    p.wait()
    p.stdout.close()
    shutil.rmtree(meta, ignore_errors=True)
    if len(r.tags) >= limit:
        r.ok, r.error = True, ""
    return r


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue")
PROGRESS = re.compile(r"([\d,]+) states generated.*?([\d,]+) distinct states found.*?([\d,]+) states left on queue")


def model_check(directory, workers=4, timeout=300, mem="6g", dump=None):
    """Exhaustive check of directory/MC.tla.  Returns a dict."""
    cmd = java(workers, mem, "Parallel", directory) + ["-noGenerateSpecTE", "-deadlock", "-metadir", directory + "/states",
                                            "-config", "MC.cfg", "MC.tla"]
    out = directory + "/out.txt"
    with open(out, "w") as f:
        p = subprocess.Popen(["timeout", "-k", "1", str(timeout)] + cmd, cwd=directory, stdout=f,
                             stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait()
        finally:
            kill(p)
    r = {"rc": rc, "generated": 0, "distinct": 0, "left": 0, "complete": False, "error": ""}
    for line in open(out, errors="replace"):
        m = STATES.search(line) or PROGRESS.search(line)
        if m:
            r["generated"], r["distinct"], r["left"] = [int(x.replace(",", "")) for x in m.groups()]
        elif line.startswith("Error:") and not r["error"]:
            r["error"] = line.strip()
        elif "No error has been found" in line:
            r["complete"] = True
        elif dump is not None and line.startswith('"H'):
            dump(line)
    shutil.rmtree(directory + "/states", ignore_errors=True)
    return r
