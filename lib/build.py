"""Compile the sources of /repo together with the harness into one driver."""
import concurrent.futures as cf
import glob
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def sources(repo):
    r = []
    for f in sorted(glob.glob(repo + "/src/**/*.cc", recursive=True)):
        b = os.path.basename(f)
        if b.endswith("_test.cc") or b == "raft_test_util.cc" or b == "raft.pb.cc":
            continue
        r.append(f)
    return r


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build(out, repo=REPO, flags=None, cxx="g++"):
    """Returns the path of the driver; raises RuntimeError if it cannot be built."""
    os.makedirs(out, exist_ok=True)
    flags = flags or ["-O1", "-g1"]
    rc, o = run(["protoc", "--cpp_out=" + out, "-I", repo, repo + "/src/raftpb/raft.proto"])
    if rc:
        raise RuntimeError("protoc failed:\n" + o[-2000:])
    base = [cxx, "-std=gnu++17", "-w", *flags, "-I", out, "-I", repo, "-I", VERIF + "/harness"]
    jobs = [(out + "/src/raftpb/raft.pb.cc", out + "/pb.o")]
    jobs.append((VERIF + "/harness/driver.cc", out + "/driver.o"))
    for f in sources(repo):
        jobs.append((f, out + "/" + os.path.relpath(f, repo).replace("/", "_") + ".o"))
    jobs.sort(key=lambda j: 0 if "driver" in j[0] else 1 if j[0].endswith("raft.cc") else 2)
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        res = list(ex.map(lambda j: run(base + ["-c", j[0], "-o", j[1]]), jobs))
    for (rc, o), j in zip(res, jobs):
        if rc and "driver" in j[0]:
            # the component part uses more of the internal interfaces than the rest: try without it
            rc, o2 = run(base + ["-DNO_COMP", "-c", j[0], "-o", j[1]])
            o = o + o2 if rc else o
        if rc:
            raise RuntimeError("cannot compile %s:\n%s" % (j[0], o[-3000:]))
    drv = out + "/driver"
    rc, o = run([cxx, *flags, "-o", drv, *[j[1] for j in jobs], "-lprotobuf", "-lpthread"])
    if rc:
        raise RuntimeError("cannot link:\n" + o[-3000:])
    return drv


def has_components(drv):
    """Whether the driver was built with the component part."""
    return run([drv, "mode=components"])[0] == 0


if __name__ == "__main__":
    try:
        print(build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else REPO, sys.argv[3:] or None))
    except RuntimeError as e:
        print(e)
        sys.exit(2)
