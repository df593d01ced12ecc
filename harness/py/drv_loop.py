import sys, threading, types, time as rtime
import dynamic_graph.sot.core.utils.thread_interruptible_loop as til
class Gate:
    """the thread waits here until the driver lets it go"""
    def __init__(self): self.c = threading.Condition(); self.at = None; self.free = 0
    def wait(self, where):
        with self.c:
            self.at = where; self.c.notify_all()
            while not self.free: self.c.wait()
            self.free -= 1; self.at = None
    def go(self):
        with self.c: self.free += 1; self.at = None; self.c.notify_all()
    def settle(self, alive):
        end = rtime.time() + 10
        with self.c:
            while self.at is None and rtime.time() < end:
                if not alive(): return "ended"
                self.c.wait(0.0005)
            return self.at or "hang"
def mine(): return isinstance(threading.current_thread(), til.ThreadInterruptibleLoop)
class Stop:
    """stops a traced thread before its n-th line of the loop's file"""
    def __init__(self, n): self.n = n; self.there = threading.Event(); self.go = threading.Event()
    def trace(self, frame, ev, arg):
        if frame.f_code.co_filename != til.__file__: return None
        if ev == "line":
            self.n -= 1
            if self.n < 0 and not self.there.is_set(): self.there.set(); self.go.wait(10)
        return self.trace
def aside(f):
    """f in a thread of its own; what it raised"""
    r = []
    def g():
        try: f()
        except Exception as e: r.append(e)
    t = threading.Thread(target=g, daemon=True); t.start(); return t, r
def period():
    """lets the thread go till its pause, if nothing holds it"""
    end = rtime.time() + .03
    if R.gate.at is None: return
    R.gate.go()
    while R.gate.at != "sleep" and rtime.time() < end:
        if R.gate.at == "body": R.gate.go(); end = rtime.time() + .03
        rtime.sleep(.0002)
def mid(cmd, n):
    """a period of the loop falls in the middle of a command, two follow"""
    s = Stop(n)
    def f():
        sys.settrace(s.trace)
        try: getattr(R, cmd)()
        finally: sys.settrace(None)
    t, r = aside(f)
    while not s.there.is_set() and t.is_alive(): rtime.sleep(.0002)
    alive = R.gate.settle(R.is_alive) != "ended"
    if alive: period()
    s.go.set(); t.join(10)
    if not alive: R.gate.settle(R.is_alive); period()
    if R.gate.settle(R.is_alive) == "body": R.gate.go(); R.gate.settle(R.is_alive)
    period(); period()
def late(cmd, n):
    """a command falls between two instructions of the thread, after the body"""
    global tracer
    tracer = s = Stop(n); R.gate.go()
    while not s.there.is_set() and R.gate.at is None: rtime.sleep(.0002)
    t, r = aside(getattr(R, cmd)); t.join(.03); s.go.set(); t.join(10)
tracer = None
class Time:
    def sleep(self, t):
        if mine(): sys.settrace(None); threading.current_thread().gate.wait("sleep")
    def __getattr__(self, n): return getattr(rtime, n)
til.time = Time(); til.sleep = til.time.sleep
threading.excepthook = lambda a: None
R = None; S = None; bodies = 0; fails = False; begun = False
def watch():
    """trace the calling thread, from here to its pause"""
    f = sys._getframe()
    while f is not None: f.f_trace = tracer.trace; f = f.f_back
    sys.settrace(tracer.trace)
def reset():
    global R, S, bodies, fails, begun
    if R is not None and begun and R.is_alive():       # let the former thread end
        R.quit()
        while R.is_alive(): R.gate.go(); rtime.sleep(.0005)
    @til.loopInThread
    def Runner():
        global bodies, fails
        bodies += 1
        if mine():
            threading.current_thread().gate.wait("body")
            if tracer is not None: watch()
            if fails: fails = False; raise ValueError("body")
    class Begin(Runner):
        def run(self): self.gate.wait("begin"); Runner.run(self)
    R = Begin(); R.gate = Gate(); bodies = 0; fails = False; begun = False
    S = til.loopShortcuts(R)
def look():
    if not begun: return ["none", R.iter, bodies, R.isRunning]
    return [R.gate.settle(R.is_alive), R.iter, bodies, R.isRunning]
def op(o):
    global begun, fails, tracer
    c = o[0]
    if c in ("play", "start", "restart", "go"):
        if c == "restart" and begun and R.is_alive(): return ["not ended"]
        (S[0] if c == "go" else getattr(R, c))()
        begun = True
    elif c in ("pause", "once", "quit"): getattr(R, c)()
    elif c == "stop": S[1]()
    elif c == "next": S[2]()
    elif c == "inc": S[3] + o[1]
    elif c == "fail": fails = True
    elif c == "mid": look(); begun = True; mid(o[1], o[2])
    elif c == "late": R.gate.settle(R.is_alive); late(o[1], o[2]); R.gate.settle(R.is_alive); tracer = None
    elif c == "step":
        R.gate.go()
    return look()
