"""Byte provenance analysis (sa/aes.py) of the block loop for an unknown number of blocks: the loop over the blocks is
closed by induction (positions advance linearly with the block number; the chaining value becomes "the previous ciphertext block"). With separate
and with identical input and output, with and without a vector: each output byte is the code's own block function applied to
the block xor the chaining value (for decryption: xor'ed afterwards), every block is written exactly where it belongs, reads and writes stay inside the
blocks given, after the last block the supplied vector holds the last ciphertext block, and inputs, key schedule and default vector are never written."""
import aes
from aes import *
LEVEL = "proof"
def run(ctx):
    P = ctx.program(); c, e, d, size = parts(P); T = Tables(P); seen = set(); pend = []
    def report(rule, where, detail, tr): pend.append((rule, where, detail, tr))
    def flush(keep):
        for rule, where, detail, tr in pend:
            if keep and (rule, where, detail) not in seen: seen.add((rule, where, detail)); ctx.bad(rule, where, detail, tr, key="%s|%s" % (rule, detail))
        pend.clear()
    obj = {o: atom("K", o) for o in range(size)}; V16 = [atom("v", j) for j in range(16)]; zero = [ZERO] * 16
    viv = [atom("iv", j) for j in range(16)]; runs = []; dv = "_ZN7cyclone8Rijndael9DefaultIVE"
    draw = T.raw(dv)
    if draw is None or len(draw) < 16: raise Vanished("DefaultIV")
    for f, mode in ((e, "enc"), (d, "dec")):
        E1, blk = oneblock(f, T, report, size, obj, zero if mode == "enc" else V16, V16 if mode == "enc" else zero)
        flush(True)
        for o in blk:
            if any(b is None for b in o): report("every block is processed", f.file, "%s: byte %d of a single block is not written" % (f.base.split("::")[-1], o.index(None)), [])
        flush(True); blk = next((o for o in blk if None not in o), None)
        if blk is None:
            if not seen: raise Vanished("block function of %s" % f.base)
            continue
        ids = [t[1][0][0] for t in V16]
        for inplace in (False, True):
            for given in (True, False):
                ini = viv if given else [(b, ()) for b in draw[:16]]; cache = {}; tag = "%s, %s, %s" % ("encrypt" if mode == "enc" else "decrypt", "in place" if inplace else "separate output", "vector given" if given else "default vector")
                def term(st):
                    k = (st.it, tuple(st.prev))
                    if k not in cache:
                        p = [atom("P", st.it, j) for j in range(16)]
                        x = [bx(a, b) for a, b in zip(p, st.prev)] if mode == "enc" else p
                        memo = {}; m = dict(zip(ids, x)); o = [subst(b, m, memo) for b in blk]
                        cache[k] = o if mode == "enc" else [bx(a, b) for a, b in zip(o, st.prev)]
                    return cache[k]
                best = None
                for un in (0, 1):
                    N = fresh("blocks")
                    def mk():
                        io = {"data": 16 * V(N)} if inplace else {"input": 16 * V(N), "output": 16 * V(N)}
                        io.update({"this": Lin(size), "iv": Lin(16)})
                        return Bytes(f, T, report, io, consts=("this",) if inplace else ("this", "input"), stream={"in": "data", "out": "data"} if inplace else {"in": "input", "out": "output"}, mode=mode, term=term, unroll=un)
                    def init(E):
                        st = St(); st.cons.add(V(N)); st.cons.add(-V(N) + (1 << 58))
                        st.mem = {"this": dict(obj), "iv": dict(enumerate(viv))}; st.prev = ini
                        args(st, "this", E.stream["in"], E.stream["out"], 16 * V(N), "iv" if given else None); return st
                    err = None; E = None; keep = list(pend); pend.clear()
                    try:
                        E = analyse(mk, init)
                        for st, R in E.rets:
                            try: E.blockdone(st, R)
                            except Stop: continue
                            E.oblige(st, st.cons.entails(16 * V(N) - st.base) and st.cons.entails(st.base - 16 * V(N)), "every block is processed", R, "on return all blocks are done (%s)" % tag)
                            if given: E.oblige(st, all(st.mem["iv"].get(j) == st.prev[j] for j in range(16)), "the vector is carried on", R, "the supplied vector holds the last ciphertext block (%s)" % tag)
                            E.oblige(st, st.mem["this"] == obj, "inputs, keys and default vector are left unchanged", R, "key schedule (%s)" % tag)
                        if not E.rets and not pend: raise Vanished("no return of %s" % f.base)
                    except Vanished as x: err = x
                    mine = list(pend); pend.clear()
                    if best is None or (err is None and not mine): best = (mine, E, err)
                    if err is None and not mine: break
                mine, E, err = best; pend.extend(mine); flush(True)
                if err is not None and not mine: raise err
                if E is None: continue
                runs.append(E)
                for (rule, i, dt), good in E.obl.items():
                    if good: ctx.ok(rule, f.ins[i].where() if i in f.ins else f.file, "%s [%s]" % (dt, tag))
    ctx.cover["runs"] = len(runs); ctx.cover["abstract steps"] = sum(E.steps for E in runs); ctx.cover["functions"] = [e.dem, d.dem]
    if not seen: ctx.need(len(runs), 8, "combinations")
    ctx.assumption("lengths are whole numbers of blocks (asserted by the code); the supplied vector overlaps neither input nor output; that the block function is AES is C34's subject")
