"""Runs TLC and reads what it prints."""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class Machinery(Exception):
    """Something other than the code under test went wrong."""


class Unexplained(Machinery):
    """TLC could not evaluate the specification (on what it was given)."""

    def __init__(self, text, result):
        super().__init__(text)
        self.result = result


def classpath():
    d = os.path.dirname(JAR)
    jars = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar")]
    return ":".join(jars)


class Result:
    def __init__(self):
        self.lines, self.marks, self.states, self.generated, self.rc, self.out = [], [], 0, 0, None, ""


def run(module, cfg=None, env=None, workers=8, timeout=800, extra=(), heap="6g", deadlock=False, allow=(0,)):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg; lines printed as "@@{json}" are collected in marks."""
    meta = tempfile.mkdtemp(prefix="tlc-")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m", f"-DTLA-Library={SPEC}", "-cp", classpath(), "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-nowarning",
           "-config", os.path.join(SPEC, (cfg or module) + ".cfg")]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    r = Result()
    try:
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired:
        raise Machinery(f"TLC on {module} took more than {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r.rc = p.returncode
    r.out = p.stdout.decode("utf8", "replace")
    for line in r.out.splitlines():
        if line.startswith('"@@'):
            r.marks.append(unmark(line))
        m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
        if m:
            r.generated, r.states = int(m.group(1)), int(m.group(2))
    if r.rc not in allow:
        kind = Machinery if not 10 <= r.rc < 150 or "OutOfMemory" in r.out or "StackOverflow" in r.out else lambda t: Unexplained(t, r)
        raise kind(f"TLC on {module} ended with {r.rc}:\n" + "\n".join(l for l in r.out.splitlines() if not l.startswith('"@@'))[-1500:])
    return r


def unmark(line):
    body = line[3:-1] if line.endswith('"') else line[3:]
    try:
        return json.loads(body)
    except ValueError:
        return json.loads(json.loads('"' + body + '"'))
