"""Runs TLC."""
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Run:
    def __init__(self, module, config, env=None, workers=2, mem="3g", timeout=840, simulate=None):
        self.meta = tempfile.mkdtemp(prefix="tlc_")
        e = dict(os.environ)
        e.update(env or {})
        args = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + mem,
                "-Djava.io.tmpdir=" + self.meta,
                "-cp", classpath(), "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", self.meta,
                "-nowarning", "-config", config, module + ".tla"]
        self.out_path = os.path.join(self.meta, "out")
        self.out = open(self.out_path, "w")
        self.proc = subprocess.Popen(args, cwd=SPEC, env=e, stdout=self.out, stderr=subprocess.STDOUT)
        self.timeout = timeout

    def wait(self):
        try:
            self.proc.wait(self.timeout)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
        self.out.close()
        text = open(self.out_path, errors="replace").read()
        shutil.rmtree(self.meta, ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        self.text = text
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in text
        return self


_cp = None


def classpath():
    """what the installed tlc command uses"""
    global _cp
    if _cp is None:
        _cp = JARS
        w = shutil.which("tlc")
        if w:
            m = re.search(r"-cp\s+\"?([^\s\"]+)", open(w, errors="replace").read())
            if m:
                _cp = m.group(1)
    return _cp


def printed(text):
    """the values printed with PrintT, each a tuple <<...>>, as strings (they can span lines)"""
    out, cur, depth = [], None, 0
    for line in text.splitlines():
        if cur is None:
            if line.startswith("<<"):
                cur, depth = [], 0
            else:
                continue
        cur.append(line)
        depth += line.count("<<") - line.count(">>")
        if depth <= 0:
            out.append("\n".join(cur))
            cur = None
    return out
