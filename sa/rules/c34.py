"""Byte provenance analysis over GF(2^8) (sa/aes.py). Every table column the functions index is checked against the field definition, entry by
entry; a column is then the function it tabulates. The key setup is followed with unknown key bytes and
the single-block paths of encrypt and decrypt with unknown data; each output byte, in normal form, must be the byte the standard
(FIPS-197, written in the same domain) produces; every byte read must have been written and every access lies inside its object."""
import aes
from aes import *
LEVEL = "proof"
def run(ctx):
    P = ctx.program(); c, e, d, size = parts(P); T = Tables(P); seen = set()
    def report(rule, where, detail, tr):
        if (rule, where, detail) not in seen: seen.add((rule, where, detail)); ctx.bad(rule, where, detail, tr, key="%s|%s" % (rule, detail))
    aes.ALOC.clear()
    key = [atom("key", j) for j in range(16)]; x = [atom("x", j) for j in range(16)]; runs = []
    def mk(): return Bytes(c, T, report, {"this": Lin(size), "key": Lin(16)}, consts=("key",))
    def init(E):
        st = St(); st.mem = {"key": dict(enumerate(key))}
        st.env[("a", 0)] = ("p", "this", Lin(0)); st.env[("a", 1)] = ("p", "key", Lin(0)); return st
    K = analyse(mk, init); runs.append(K)
    if len(K.rets) != 1:
        if seen: return
        raise Vanished("key setup")
    obj = K.rets[0][0].mem.get("this", {})
    rk = spec_schedule(key); zero = [ZERO] * 16
    for f, spec, what in ((e, spec_encrypt(rk, x), "encryption"), (d, spec_decrypt(rk, x), "decryption")):
        for inplace in (False, True):
            E, outs = oneblock(f, T, report, size, obj, x, zero, inplace); runs.append(E)
            tag = "%s, %s" % (what, "in place" if inplace else "separate output")
            for out in outs:
                for j in range(16):
                    I = E.stores.get(("out", j)); w = I.where() if I else f.file
                    if out[j] is None: report("one block is transformed as the standard says", w, "%s: output byte %d is not written" % (tag, j), [])
                    elif out[j] == spec[j]: ctx.ok("one block is transformed as the standard says", w, "%s: output byte %d" % (tag, j))
                    else:
                        at, txt = differ(out[j], spec[j])
                        report("one block is transformed as the standard says", aes.ALOC.get(at, w), "%s: %s" % (what, txt[:300]), ["output byte %d stored at %s" % (j, w)])
    for (g, off, stride), I in sorted(T.used.items(), key=str):
        G = P.globals[g]; nm = G.get("name", g); w = "%s:%d" % (G.get("file", "?"), G.get("line", 0)); col = T.column(g, off, stride)
        if col is None: report("tables equal their definition", w, "byte %d of the entries of %s tabulates no function of the standard" % (off, nm), [I.where()]); continue
        f, k, dd, bad = col
        for i in bad: report("tables equal their definition", w, "%s[%d], byte %d is 0x%02x and must be 0x%02x" % (nm, i, off, T.raw(g)[i * stride + off], mul(k, FUN[f][i]) ^ dd), ["used at " + I.where()])
        for i in range(256):
            if i not in bad: ctx.ok("tables equal their definition", w, "%s[%d] byte %d = %d * %s(%d)" % (nm, i, off, k, f, i))
    nl = 0
    for E in runs:
        nl += len(E.lookups)
        for (rule, i, dt), good in E.obl.items():
            if good: ctx.ok(rule, E.f.ins[i].where() if i in E.f.ins else E.f.file, dt)
    ctx.cover["table columns"] = len(T.used); ctx.cover["table lookups"] = nl; ctx.cover["abstract steps"] = sum(E.steps for E in runs)
    ctx.cover["functions"] = [f.dem for f in (c, e, d)]
    if not seen: ctx.need(len(T.used), 12, "table columns"); ctx.need(nl, 100, "table lookups")
    ctx.assumption("byte values of clang's little-endian target; the standard's field, S-box, key schedule and round order are written in sa/aes.py")
