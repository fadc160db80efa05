"""Compiling with lacsap and running what it makes, with resource limits, in a scratch folder."""
import os
import resource
import signal
import subprocess

COMPILE_CPU, RUN_CPU = 30, 5


class Result:
    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    def __repr__(self):
        return "rc=%s out=%r err=%r%s" % (self.rc, self.out[-400:], self.err[-300:], " TIMEOUT" if self.timeout else "")


def _limits(cpu, mem, fsize, env=None):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_NOFILE, (256, 256))
    return f


def run(cmd, cwd, inp=b"", cpu=RUN_CPU, mem=4 << 30, fsize=16 << 20, wall=300, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=_limits(cpu, mem, fsize), start_new_session=True, env=env)
    try:
        out, err = p.communicate(inp, timeout=wall)
        to = p.returncode in (-signal.SIGXCPU, -signal.SIGKILL)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    return Result(p.returncode, out, err, to)


class Tool:
    def __init__(self, tree):
        self.tree = tree
        self.lacsap = os.path.join(tree, "lacsap")

    def compile(self, cwd, name="p", opts=(), cpu=COMPILE_CPU):
        """compiles <name>.pas in cwd"""
        exe = os.path.join(cwd, name)
        for f in (exe, exe + ".o"):
            if os.path.exists(f):
                os.unlink(f)
        return run([self.lacsap, *opts, name + ".pas"], cwd, cpu=cpu)

    def build_run(self, cwd, source, name="p", opts=(), inp=b"", args=(), mem=None):
        """-> (compile Result, run Result or None)"""
        with open(os.path.join(cwd, name + ".pas"), "wb") as f:
            f.write(source if isinstance(source, bytes) else source.encode("latin1"))
        c = self.compile(cwd, name, opts)
        if c.rc != 0 or not os.path.exists(os.path.join(cwd, name)):
            return c, None
        return c, run(["./" + name, *args], cwd, inp)
