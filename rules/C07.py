"""C07: disassembled words reassemble to themselves."""
from rules.parselib import *
from rules.C36 import display, text_of, reparse, X_C
from rules.isa import ref_decode

EXPLAIN = ("disassemble_line is interpreted over a symbolic word (split by opcode), its statement printed by the interpreted Display code to literal pieces and symbolic numbers, the text placed between .orig and .end at a symbolic "
           "address, lexed, parsed and assembled abstractly; the assembled word is compared bit by bit with the disassembled one on every path. The printed form is compared with the ISA's decoding table and alias names.")

ALIAS = {0xC1C0: ("RET",), 0x8000: ("RTI",), 0xF020: ("GETC",), 0xF021: ("OUT", "PUTC"), 0xF022: ("PUTS",), 0xF023: ("IN",), 0xF024: ("PUTSP",), 0xF025: ("HALT",)}


def words():
    """(tag, constructor of the word): the opcodes, with the low 12 bits open"""
    for op in range(16):
        if op == 0:
            yield "x0000..x01FF", lambda: mkbits(tuple(bits(fresh("w", 9))) + (0,) * 7)
            for cc in range(1, 8):
                yield "BR %d" % cc, lambda cc=cc: mkbits(tuple(bits(fresh("w", 9))) + tuple(cc >> i & 1 for i in range(3)) + (0,) * 4)
        elif op == 15:
            for lo in range(8):
                yield "xF..%d" % lo, lambda lo=lo: mkbits(tuple(lo >> i & 1 for i in range(3)) + tuple(bits(fresh("w", 9))) + (1, 1, 1, 1))
        else:
            yield "x%X..." % op, lambda op=op: mkbits(tuple(bits(fresh("w", 12))) + tuple(op >> i & 1 for i in range(4)))
    for w in sorted(set(list(ALIAS) + [0, 1, 0x1FF, 0x200, 0xFFFF, 0xD000, 0xDFFF, 0xF026, 0xF01F, 0xF0FF, 0xF000, 0xF100, 0xC000, 0xC1C1, 0x8001, 0x4000, 0x41C0, 0x4200, 0x4800, 0x4FFF, 0x4C00, 0x1018, 0x103F, 0x1030, 0x903F, 0x903E, 0x0FFF, 0x0F00, 0x0900])):
        yield "x%04X" % w, lambda w=w: I(w, 16)


def run(K):
    P = K.P
    K.rule("reassemble", "the printed text assembles, at any address, to the disassembled word", 20)
    K.rule("form", "words below x0200 and non-instructions print as .fill, every other word as an instruction", 20)
    K.rule("alias", "aliases are printed by name", 8)
    K.rule("slice", "disassemble gives the statement of each word", 1)
    f = P.fn("ast::asm::disassemble_line")
    where = P.loc(f, f["line"])

    def sure(s):
        return not s.widened() and feasible(s)

    def one(K, it):
        tag, mkw = it
        try:
            go(K, tag, mkw())
        except Limit as e:
            K.undecided("reassemble", "%s: limit %s" % (tag, e))

    def go(K, tag, w):
        X = Interp(P, {})
        X.maxpaths = 1000
        s0, _ = X.start(f)
        a = fresh("addr", 16)
        s0.assume(lt(a, I(0xFE00, 16)), True)
        rs, ps = call(X, s0, f, w)
        K.saw(X)
        for p in ps:
            K.judge("reassemble", "panic|" + tag, False if sure(p.st) else None, lambda: "%s: disassembling %s panics (%s)" % (P.loc(p.fn, p.line), tag, p.kind), tag)
        for s, v in rs:
            ts, ps = display(X, s, v)
            for p in ps:
                K.judge("reassemble", "panic|" + tag, False if sure(p.st) else None, lambda: "%s: printing the disassembly of %s panics (%s)" % (P.loc(p.fn, p.line), tag, p.kind), tag)
            for s1, t, _ in ts:
                forms(K, tag, w, s1, t)
                ds = LX.to_digits(X, s1, t)
                if ds is None or any(LX.pieces_of(x) is None for _, x in ds):
                    K.undecided("reassemble", "%s: printed text not resolved: %s" % (tag, show(t)[:100]))
                    continue
                for s2, t2 in ds:
                    if not zone_unsat(s2):
                        again(K, tag, X, w, a, s2, t2)

    def forms(K, tag, w, s, t):
        ps = t.args if t.op == "scat" else (t,)
        head = ps[0].args[0].decode() if ps[0].op == "strc" else ""
        word = head.split(" ")[0] if " " in head or len(ps) == 1 else None
        if word is None:
            K.undecided("form", "%s: printed text %s" % (tag, show(t)[:80]))
            return
        isfill = word.lower() == ".fill"

        def ref(ask):
            if ask(lt(w, I(0x200, 16))):
                return True
            return ref_decode(ask, w)[0] == "Err"
        for s2, fill in explore(s, ref):
            if zone_unsat(s2):
                continue
            K.judge("form", "form|%s" % word, True if isfill == fill else False if sure(s2) else None,
                    lambda: "%s: %s (%s) is disassembled as %s" % (where, tag, "not an instruction or below x0200" if fill else "an instruction", head), tag)
        if isc(w) and cv(w) in ALIAS:
            K.judge("alias", "alias|x%04X" % cv(w), True if len(ps) == 1 and head.strip().upper() in ALIAS[cv(w)] else False if sure(s) else None,
                    lambda: "%s: x%04X is disassembled as %s instead of %s" % (where, cv(w), text_of(t), " or ".join(ALIAS[cv(w)])), tag)

    def again(K, tag, X, w, a, s, t):
        d = Doc()
        d.put(".orig x")
        d.put(LX.dig(zext(a, 64), 16))
        d.put("\n")
        for p in LX.pieces_of(t):
            d.put(p.args[0].decode() if p.op == "strc" else p)
        d.put("\n.end\n")
        shown = text_of(t)
        out, ps = reparse(X, s, d.term())
        C = X_C(X, P)
        for p in ps:
            K.judge("reassemble", "panic|" + tag, False if sure(p.st) else None, lambda: "%s: parsing %r, the disassembly of %s, panics (%s)" % (P.loc(p.fn, p.line), shown, tag, p.kind), tag)
        if not out and not ps:
            K.undecided("reassemble", "%s: no outcome" % tag)
        for s2, ok, v in out:
            if ok is not True:
                K.judge("reassemble", "rejected|" + tag, None if ok is None else False if sure(s2) else None, lambda: "%s: %s is disassembled as %r, which does not parse" % (where, tag, shown), tag)
                continue
            C.d = d
            os_, ps = assemble(C, s2, v, False)
            for p in ps:
                K.judge("reassemble", "panic|" + tag, False if sure(p.st) else None, lambda: "%s: assembling %r, the disassembly of %s, panics (%s)" % (P.loc(p.fn, p.line), shown, tag, p.kind), tag)
            for s3, ok, obj in os_:
                if ok is not True:
                    K.judge("reassemble", "rejected|" + tag, None if ok is None else False if sure(s3) else None, lambda: "%s: %s is disassembled as %r, which does not assemble" % (where, tag, shown), tag)
                    continue
                m, mty = Case.objfld(C, obj, "block_map")
                ks = M.map_keys(X, s3, m) if m is not None else None
                if ks is None:
                    K.undecided("reassemble", tag + ": block map not resolved")
                    continue
                if len(ks) != 1:
                    K.judge("reassemble", "blocks|" + tag, False if sure(s3) else None, lambda: "%s: %r, the disassembly of %s, assembles to %d blocks" % (where, shown, tag, len(ks)), tag)
                    continue
                b, dec = map_find(X, s3, m, ks[0])
                if not dec or b is None:
                    K.undecided("reassemble", tag + ": block not resolved")
                    continue
                n = X.length(s3, b)
                oty = P.types[b.ty]["a"][0] if b.ty is not None else next(i for i, t in enumerate(P.types) if t and t.get("n") == "std::option::Option<u16>")
                q = same(X, s3, n, M.c64(1))
                k, x = opt_of(X, s3, X.elem(s3, b, M.c64(0), oty))
                q = worst((q, same(X, s3, ks[0], a), None if k is None else k == "Some" and same(X, s3, x, w)))
                K.judge("reassemble", "word|" + tag, (False if sure(s3) else None) if q is False else q,
                        lambda: "%s: %s is disassembled as %r, which assembles at %s to %s" % (where, show(s3.resolve(w)), shown, show(ks[0]), show(s3.resolve(x)) if k == "Some" else "no word"), tag)

    def slices(K):
        g = P.fn("ast::asm::disassemble")
        if g is None:
            K.undecided("slice", "no disassemble")
            return
        X = Interp(P, {})
        s, _ = X.start(g)
        ws = [I(0xF025, 16), I(0x1021, 16), I(0, 16), I(0xD123, 16), I(0x0E05, 16)]
        X.unroll = True
        rs, ps = call(X, s, g, X.vref(mk("arr", tuple(ws), None, None)))
        K.saw(X)
        gw = P.loc(g, g["line"])
        for s1, v in rs:
            ss = stmts_of(X_C(X, P), s1, v)
            if ss is None:
                K.undecided("slice", "statement count")
                continue
            if len(ss) != len(ws):
                K.judge("slice", "count", False if sure(s1) else None, lambda: "%s: disassembling %d words gives %d statements" % (gw, len(ws), len(ss)))
                continue
            for w, x in zip(ws, ss):
                for s2, y in call(X, s1, f, w)[0]:
                    ta, tb = display(X, s2, x)[0], display(X, s2, y)[0]
                    if len(ta) == 1 and len(tb) == 1:
                        K.judge("slice", "element", ta[0][1] is tb[0][1] or (None if s2.widened() else False), lambda: "%s: in a slice, x%04X is disassembled as %s" % (gw, cv(w), show(ta[0][1])), "slice")

    K.pmap(one, list(words()))
    try:
        slices(K)
    except Limit as e:
        K.undecided("slice", "limit %s" % e)
