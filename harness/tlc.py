"""Running TLC on the specification."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TOOLS = "/opt/veriftools/tla"
JARS = f"{TOOLS}/tla2tools.jar:{TOOLS}/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


def overrides():
    """Directory with the compiled TLC overrides (spec/Big.tla), built on demand"""
    src = os.path.join(VERIF, "java", "Big.java")
    with open(src, "rb") as fh:
        h = hashlib.sha1(fh.read()).hexdigest()[:12]
    base = os.path.join(VERIF, ".build")
    out = os.path.join(base, "java-" + h)
    if os.path.exists(os.path.join(out, "Big.class")):
        return out
    os.makedirs(base, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=base)
    r = subprocess.run(["javac", "-cp", f"{TOOLS}/tla2tools.jar", "-d", tmp, src], capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("javac: " + r.stderr)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


class Result:
    def __init__(self, text, code):
        self.text, self.code = text, code
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = code == 0 and "No error has been found" in text
        self.depth = int((re.findall(r"depth of the complete state graph search is (\d+)", text) or ["0"])[-1])

    def printed(self):
        """JSON values printed by PrintT(ToJson(..))"""
        out = []
        for line in self.text.splitlines():
            if line.startswith('"{') and line.endswith('}"'):
                out.append(json.loads(json.loads(line)))
        return out

    def error(self):
        lines = [x for x in self.text.splitlines() if not x.startswith('"{')]
        for i, x in enumerate(lines):
            if x.startswith("Error:"):
                return "\n".join(lines[i: i + 60])
        return "\n".join(lines[-30:])


class Job:
    """A TLC run in the background"""

    def __init__(self, module, config, env=None, workers=8, heap="6g", extra=()):
        self.module, self.config = module, config
        self.meta = tempfile.mkdtemp(prefix="tlc-")
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss128m", "-cp", f"{JARS}:{overrides()}", "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(self.meta, "md"), "-noGenerateSpecTE", "-config", config,
               *extra, module + ".tla"]
        self.cmd = " ".join(["tlc", "-config", config, *extra, module + ".tla"])
        self.out = open(os.path.join(self.meta, "out"), "w+", encoding="utf-8", errors="replace")
        e = dict(os.environ, SPECDIR=SPEC, **(env or {}))
        e.pop("JAVA_TOOL_OPTIONS", None)
        # -Djava.io.tmpdir: TLC leaves nothing behind in /tmp
        cmd.insert(1, "-Djava.io.tmpdir=" + self.meta)
        self.start = time.time()
        self.p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdin=subprocess.DEVNULL, stdout=self.out, stderr=subprocess.STDOUT)

    def result(self, timeout=800):
        try:
            code = self.p.wait(timeout=timeout)
        except subprocess.TimeoutExpired as exc:
            self.kill()
            raise MachineryError(f"TLC timed out on {self.module} {self.config}") from exc
        self.out.seek(0)
        text = self.out.read()
        self.kill()
        r = Result(text, code)
        r.wall, r.cmd = time.time() - self.start, self.cmd
        return r

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        self.out.close()
        shutil.rmtree(self.meta, ignore_errors=True)


def run(module, config, env=None, timeout=800, **kw):
    return Job(module, config, env, **kw).result(timeout)
