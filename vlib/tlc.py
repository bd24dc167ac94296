"""Running TLC on the modules of /verif/spec."""
import json
import os
import re
import subprocess
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states", out)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        m = re.findall(r"([\d,]+) states checked", out)
        if m and not self.distinct:
            self.generated = self.distinct = int(m[-1].replace(",", ""))

    def prints(self, tag):
        """JSON values printed with PrintT(tag \\o ToJson(v))."""
        pre = '"' + tag + " "
        return [json.loads(json.loads(l)[len(tag) + 1:]) for l in self.out.splitlines() if l.startswith(pre)]


def run(module, cfg, work, env=None, simulate=None, seed=1, workers=8, timeout=800, depth=100, ok=(0,), heap="6g"):
    """cfg: text of the configuration. simulate: number of behaviours."""
    os.makedirs(work, exist_ok=True)
    tag = "%s_%d" % (module, len(os.listdir(work)))
    cfgp = os.path.join(work, tag + ".cfg")
    open(cfgp, "w").write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-config", cfgp,
           "-metadir", os.path.join(work, tag + ".meta"), "-noGenerateSpecTE", "-nowarning"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(seed), "-workers", "1"]
    else:
        cmd += ["-workers", str(workers), "-fp", "7"]
    cmd.append(os.path.join(SPEC, module + ".tla"))
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    r = TlcResult(p.stdout, p.returncode, time.time() - t)
    if p.returncode not in ok:
        raise TlcError("TLC on %s failed (%d):\n%s" % (module, p.returncode, tail(p.stdout)))
    return r


def tail(s, n=40):
    ls = [l for l in s.splitlines() if not l.startswith('"')]
    err = [i for i, l in enumerate(ls) if l.startswith("Error")]
    k = err[0] if err else 0
    return "\n".join(ls[k:k + 15] + ["..."] + ls[-n:])
