"""Run operations of the specification on the real code through a harness."""
import json, os, subprocess, threading, queue, select, time

class Driver:
    """One harness process; restarts transparently after a crash."""
    def __init__(self, argv, env=None, timeout=20.0, cwd=None):
        self.argv, self.timeout, self.cwd = argv, timeout, cwd
        self.env = dict(os.environ)
        self.env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
        self.env["UBSAN_OPTIONS"] = "halt_on_error=1"
        self.env["PYTHONDONTWRITEBYTECODE"] = "1"
        if env: self.env.update(env)
        self.p = None
        self.err = b""
        self.restarts = 0

    def start(self):
        self.p = subprocess.Popen(self.argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=self.env, cwd=self.cwd)
        self.buf = b""
        self.err = b""
        def rd(p):
            for chunk in iter(lambda: p.stderr.read1(65536), b""):
                self.err = (self.err + chunk)[-20000:]
        self.t = threading.Thread(target=rd, args=(self.p,), daemon=True)
        self.t.start()

    def stop(self):
        if self.p:
            try: self.p.stdin.close()
            except Exception: pass
            try: self.p.wait(3)
            except Exception:
                self.p.kill(); self.p.wait()
            self.p = None

    def kill(self):
        if self.p:
            self.p.kill(); self.p.wait(); self.p = None

    def _readline(self, deadline):
        while b"\n" not in self.buf:
            left = deadline - time.time()
            if left <= 0: return None
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r: return None
            c = os.read(self.p.stdout.fileno(), 65536)
            if not c: return b""
            self.buf += c
        l, self.buf = self.buf.split(b"\n", 1)
        return l

    def run(self, ops):
        """Run a whole history (a fresh object first).  Returns list of observations;
        the last one may be ["CRASH", detail] or ["HANG"]."""
        if self.p is None or self.p.poll() is not None:
            self.start()
        data = ('["@reset"]\n' + "".join(json.dumps(o, separators=(",", ":")) + "\n" for o in ops)).encode()
        def feed(p, data):
            try:
                p.stdin.write(data); p.stdin.flush()
            except (BrokenPipeError, ValueError, OSError): pass
        th = threading.Thread(target=feed, args=(self.p, data), daemon=True); th.start()
        obs = []
        for k in range(len(ops) + 1):
            l = self._readline(time.time() + self.timeout)
            if l is None:
                self.kill(); th.join(2); self.restarts += 1
                if k == 0: obs.append(None)
                obs.append(["HANG"]); return obs[1:] if obs and obs[0] == ["reset"] else obs
            if l == b"":
                rc = self.p.wait(); self.t.join(2)
                self.p = None; th.join(2); self.restarts += 1
                d = [x for x in self.err.decode(errors="replace").splitlines() if "ERROR" in x or "terminate" in x or "runtime error" in x or "Assert" in x]
                obs.append(["CRASH", f"exit {rc}" + ("; " + d[0][:200] if d else "")])
                return obs[1:] if obs[0] == ["reset"] else obs
            try: v = json.loads(l)
            except ValueError: v = ["GARBAGE", l.decode(errors="replace")[:200]]
            obs.append(v)
        th.join()
        return obs[1:]
