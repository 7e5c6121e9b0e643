"""Lock typestate and interprocedural lock/callback/blocking effects."""
import re
import ir
from ir import Walker, State, strip, fmt, root, last_field, Vanished

LOCK = {"cyclone::sys_api::mutex_lock", "pthread_mutex_lock"}
UNLOCK = {"cyclone::sys_api::mutex_unlock", "pthread_mutex_unlock"}
TRY = {"cyclone::sys_api::mutex_try_lock": "bool", "pthread_mutex_trylock": "errno", "pthread_mutex_timedlock": "errno"}
DESTROY = {"cyclone::sys_api::mutex_destroy", "pthread_mutex_destroy"}
CONDWAIT = {"pthread_cond_wait", "pthread_cond_timedwait"}
PRIMS = {"cyclone::sys_api::mutex_lock", "cyclone::sys_api::mutex_unlock", "cyclone::sys_api::mutex_try_lock",
         "cyclone::sys_api::mutex_create", "cyclone::sys_api::mutex_destroy"}
BLOCKING = re.compile(r"^(epoll_wait|epoll_pwait|poll|ppoll|select|kevent|nanosleep|usleep|sleep|clock_nanosleep|pthread_join|pthread_cond_wait|pthread_cond_timedwait|sem_wait|std::thread::join|std::this_thread::sleep_for<.*|std::this_thread::sleep_until<.*|std::condition_variable::wait.*)$")
FUNC_CALL = re.compile(r"^std::function<.*>::operator\(\)$")

def lock_key(e):
    """class-level identity of a mutex expression"""
    x = strip(e)
    while x[0] in ("cast",): x = x[2]
    if x[0] == "ld": x = x[1]
    while x[0] in ("cast", "off"): x = x[2] if x[0] == "cast" else x[1]
    if x[0] == "fld": return x[2].replace("cyclone::", "")
    if x[0] == "glob": return "@" + str(x[1])
    if x[0] == "arg": return "arg%d" % x[1]
    if x[0] == "alloca": return "local " + (x[2] or "tmp")
    if x[0] == "idx":
        return lock_key(x[1]) + "[]"
    if x[0] == "call": return "result of " + x[2]
    return fmt(x)

def static_ev(fn, o):
    w = fn.__dict__.get("_sw")
    if w is None:
        w = fn.__dict__["_sw"] = Walker(fn, None)
    return w.ev(State(None), o)

def callback_kind(fn, I):
    """('user',None) | ('param',k) | ('internal',None) for the function object a call is made on"""
    e = strip(static_ev(fn, I.o[0]))
    r = root(e)
    if e[0] == "alloca" or (r[0] == "alloca" and e == r):
        # how was the local function object made?
        kinds = set()
        for C in fn.calls():
            if C.callee and re.match(r"^std::function<.*>::function(<.*)?$", C.callee) and C.o and strip(static_ev(fn, C.o[0])) == e:
                kinds.add("internal" if re.search(r">::function<", C.callee) else "copy")
        if kinds == {"internal"}: return ("internal", None)
        return ("user", None)
    if e[0] == "arg": return ("param", e[1])
    return ("user", None)

class Effects:
    """transitive effects of every function of a program"""
    def __init__(self, P):
        self.P = P
        self.acq = {}; self.cb = {}; self.blk = {}; self.cbparam = {}
        direct_acq = {}; direct_cb = {}; direct_blk = {}; edges = {}
        for k, f in P.fns.items():
            a = set(); cb = None; bl = None; ed = set()
            for I in f.calls():
                c = I.callee
                if c in LOCK or c in TRY:
                    key = lock_key(static_ev(f, I.o[0]))
                    if not (f.base in PRIMS): a.add(key)
                    continue
                if c in UNLOCK or c in PRIMS: continue
                if FUNC_CALL.match(c or ""):
                    kd, n = callback_kind(f, I)
                    if kd == "user": cb = I
                    elif kd == "param": self.cbparam.setdefault(k, set()).add(n)
                    continue
                if BLOCKING.match(c or ""): bl = I
                m = I.j.get("fn")
                if m: ed.add(m)
                vc = I.j.get("vc")
                if vc: ed.update(vc[2])
            direct_acq[k] = a; direct_cb[k] = cb; direct_blk[k] = bl; edges[k] = ed
        for k, v in P.light.items():
            edges[k] = {r for r in v["refs"] if "_M_invoke" not in P.dem(r) and "_M_manager" not in P.dem(r)}
            direct_acq[k] = set(); direct_cb[k] = None
            direct_blk[k] = None
        for k, v in P.j["decls"].items():
            edges.setdefault(k, set()); direct_acq.setdefault(k, set()); direct_cb.setdefault(k, None)
            direct_blk.setdefault(k, None)
        # locals handed to std glue that ends in a blocking primitive
        self.edges = edges
        acq = {k: set(v) for k, v in direct_acq.items()}
        cb = {k: v is not None for k, v in direct_cb.items()}
        bl = {k: v is not None or bool(BLOCKING.match(P.base(k))) for k, v in direct_blk.items()}
        ch = True
        while ch:
            ch = False
            for k, es in edges.items():
                for e in es:
                    if e not in acq: continue
                    if not acq[e] <= acq[k]: acq[k] |= acq[e]; ch = True
                    if cb[e] and not cb[k]: cb[k] = True; ch = True
                    if bl[e] and not bl[k]: bl[k] = True; ch = True
        self.acq, self.cb, self.blk = acq, cb, bl
    def of(self, I):
        ms = [I.j["fn"]] if I.j.get("fn") else (I.j["vc"][2] if I.j.get("vc") else [])
        a = set(); c = False; b = False
        for m in ms:
            a |= self.acq.get(m, set()); c = c or self.cb.get(m, False); b = b or self.blk.get(m, False)
        return a, c, b

class LockRule:
    """rs = tuple of (key, expr) held, in acquisition order"""
    keep_locals = True
    def __init__(self, fn, sink, eff=None, on_call=None):
        self.fn = fn; self.sink = sink; self.eff = eff; self.n = {"acq": 0, "rel": 0}; self.acqs = set(); self.rels = set()
        self.on_call = on_call
        self.edges = {}
    def init(self): return ()
    def keep_exprs(self, rs): return [e for _, e in rs]
    def acquire(self, st, I, W, e):
        k = lock_key(e); se = strip(e)
        self.acqs.add(I.i)
        for hk, he in st.rs:
            if he == se:
                self.sink("double-acquire", I.where(), "lock %s is acquired again while already held" % k, W.trace())
            else:
                self.edges.setdefault((hk, k), I.where())
        st.rs = st.rs + ((k, se),)
    def step(self, st, I, W):
        if I.op != "call": return None
        c = I.callee
        if c in LOCK:
            self.acquire(st, I, W, W.ev(st, I.o[0])); return None
        if c in TRY:
            e = W.ev(st, I.o[0])
            s1 = st.copy(); s2 = st.copy()
            call = ("call", I.i, I.callee, tuple(W.ev(st, a) for a in I.o))
            self.acquire(s1, I, W, e)
            if TRY[c] == "bool":
                s1.facts.assume(call, "ne", 0); s2.facts.assume(call, "eq", 0)
                return [s1, s2]
            s1.facts.assume(call, "eq", 0)
            s2.facts.assume(call, "eq", 16 if c.endswith("trylock") else 110)
            return [s1, s2]
        if c in UNLOCK:
            e = W.ev(st, I.o[0]); se = strip(e); k = lock_key(e)
            self.rels.add(I.i)
            hit = None
            for x in reversed(st.rs):
                if x[1] == se: hit = x; break
            if hit is None:
                for x in reversed(st.rs):
                    if x[0] == k and (x[1][0] == "ld" or se[0] == "ld"): hit = x; break
            if hit is None:
                self.sink("release-not-held", I.where(), "lock %s is released but not held on this path" % k, W.trace())
            else:
                l = list(st.rs); l.reverse(); l.remove(hit); l.reverse(); st.rs = tuple(l)
            return None
        if c in DESTROY:
            k = lock_key(W.ev(st, I.o[0])); se = strip(W.ev(st, I.o[0]))
            if any(h[1] == se or h[0] == k for h in st.rs):
                self.sink("destroy-held", I.where(), "lock %s is destroyed while held" % k, W.trace())
            return None
        if c in CONDWAIT:
            se = strip(W.ev(st, I.o[1])); k = lock_key(W.ev(st, I.o[1]))
            if not any(h[1] == se for h in st.rs):
                self.sink("wait-without-lock", I.where(), "condition wait without holding %s" % k, W.trace())
            others = [h for h in st.rs if h[1] != se]
            if others and self.on_call: self.on_call("block", st.rs, I, W, "waits on a condition while %s is held" % others[0][0])
            return None
        if self.on_call and st.rs:
            if FUNC_CALL.match(c or ""):
                kd, n = callback_kind(self.fn, I)
                if kd != "internal": self.on_call("callback", st.rs, I, W, "a callback is invoked while %s is held" % st.rs[-1][0])
            elif BLOCKING.match(c or ""):
                self.on_call("block", st.rs, I, W, "%s waits while %s is held" % (c, st.rs[-1][0]))
            elif self.eff:
                a, cb, bl = self.eff.of(I)
                if cb: self.on_call("callback", st.rs, I, W, "%s may invoke a user callback and is called while %s is held" % (c, st.rs[-1][0]))
                if bl: self.on_call("block", st.rs, I, W, "%s may wait without bound and is called while %s is held" % (c, st.rs[-1][0]))
                for k in a:
                    for hk, he in st.rs:
                        self.edges.setdefault((hk, k), I.where())
                # a callee that calls the function object it is given
                for m in ([I.j["fn"]] if I.j.get("fn") else []):
                    for n in self.eff.cbparam.get(m, ()):
                        if n < len(I.o):
                            e = strip(W.ev(st, I.o[n]))
                            if e[0] == "alloca":
                                kinds = {"i" if ">::function<" in C.callee else "c" for C in self.fn.calls() if C.callee and re.match(r"^std::function<.*>::function(<.*)?$", C.callee) and strip(static_ev(self.fn, C.o[0])) == e}
                                if kinds == {"i"}: continue
                            self.on_call("callback", st.rs, I, W, "%s invokes a caller-supplied function while %s is held" % (c, st.rs[-1][0]))
        return None
    def exit(self, st, I, W):
        for k, e in st.rs:
            self.sink("held-at-exit", I.where(), "function %s returns with lock %s still held" % (self.fn.short(), k), W.trace())

def lock_functions(P, eff=None):
    """root functions that operate on locks directly"""
    out = []
    for f in P.roots():
        if f.base in PRIMS: continue
        if any(I.callee in LOCK or I.callee in UNLOCK or I.callee in TRY or I.callee in DESTROY or I.callee in CONDWAIT for I in f.calls()):
            out.append(f)
    return out
