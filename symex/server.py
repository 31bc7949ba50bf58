"""Client side of the replay server."""
import json
import os
import select
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("SYMX_PYTHON", "/opt/venv/bin/python")


class Replayer:
    def __init__(self, mods, timeout=45):
        self.mods, self.timeout = mods, timeout
        self.base = tempfile.mkdtemp(prefix="symx-")
        os.chmod(self.base, 0o755)
        if os.getuid() == 0:
            os.chown(self.base, 65534, 65534)
        self.p = None

    def start(self):
        e = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "LC_ALL", "SYMX_REPO")}
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        e["PYTHONHASHSEED"] = "0"
        e["LC_ALL"] = "C.UTF-8"
        self.p = subprocess.Popen([PY, os.path.join(HERE, "replay.py"), self.base] + self.mods, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, cwd=self.base, text=True)

    def run(self, mod, fn, params, inputs_enc):
        """Result dict of one replay (status "server-error" when the server broke)."""
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps({"mod": mod, "fn": fn, "params": params, "inputs": inputs_enc}) + "\n")
            self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], self.timeout)
            if not r:
                busy = self.cpu() > self.timeout / 3
                self.kill()
                return {"status": "timeout", "violations": [["terminates", {"replay": "no answer within %d s" % self.timeout}]] if busy else [],
                        "known": [], "obs": [], "labels": {}, "err": "timeout"}
            line = self.p.stdout.readline()
            if not line:
                raise OSError("replay server ended")
            return json.loads(line)
        except (OSError, ValueError) as e:
            self.kill()
            return {"status": "server-error", "violations": [], "known": [], "obs": [], "labels": {}, "err": str(e)}

    def cpu(self):
        """Processor time the replay process has used, in seconds."""
        try:
            with open("/proc/%d/stat" % self.p.pid) as fh:
                f = fh.read().rpartition(")")[2].split()
            return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, ValueError, IndexError):
            return 0.0

    def kill(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(timeout=5)
            except Exception:
                self.kill()
        shutil.rmtree(self.base, ignore_errors=True)
