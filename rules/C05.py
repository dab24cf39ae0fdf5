"""C05: numeric and register tokens."""
from rules.parselib import *

EXPLAIN = ("The whole parser is interpreted over source texts in which every literal is a symbolic digit string (any spelling of any value, leading zeros included) behind each written prefix, for each operand field of each "
           "instruction and directive; the token automata are derived from the token type's attributes. Each outcome path is compared with the accepted range of its field and with the written value.")

PRE = ("", "#", "x", "X", "-", "#-", "x-", "X-")
NUMERIC = {"imm5", "off6", "pc9", "pc11", "u8", "u16", "n16", "any16"}


def slots():
    """(keyword, operand index, kind)"""
    for n, (v, cc, kinds) in SIG.items():
        for i, k in enumerate(kinds):
            yield n, i, k
    for n, (v, kinds) in DIR.items():
        for i, k in enumerate(kinds):
            yield "." + n, i, k


def ops(kinds, i, o):
    dflt = {"reg": Reg(3), "imm5": Num("#", "1"), "off6": Num("#", "1"), "pc9": Num("#", "1"), "pc11": Num("#", "1"), "u8": Num("x", "25"), "u16": Num("x", "3000"), "n16": Num("", "1"), "any16": Num("#", "1")}
    return [o if j == i else dflt[k] for j, k in enumerate(kinds)]


def kinds_of(n):
    return DIR[n[1:]][1] if n[0] == "." else SIG[n][2]


EDGE = (0, 1, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 99999, 131072, 4294967295, 4294967296, 18446744073709551616, 10 ** 40)


def items(tier):
    for n, i, k in slots():
        if k in NUMERIC:
            for p in PRE:
                for c in classes(k):
                    yield "field", n, ops(kinds_of(n), i, Num(p, cls=c)), k + "|" + p
        if k in ("reg", "imm5"):
            for l in "Rr":
                for c in classes("reg"):
                    yield "register", n, ops(kinds_of(n), i, Reg(None, l, cls=c)), "reg"
    # literal spellings at the edges of every range
    for k, n in (("imm5", "ADD"), ("off6", "LDR"), ("pc9", "LD"), ("pc11", "JSR"), ("u8", "TRAP"), ("u16", ".ORIG"), ("n16", ".BLKW"), ("any16", ".FILL")):
        i = kinds_of(n).index(k)
        for v in EDGE:
            for p in PRE if tier != "quick" else ("", "x", "#-", "X-"):
                t = ("%x" if "x" in p.lower() else "%d") % v
                for u in {t, t.upper(), "00" + t}:
                    yield "literal", n, ops(kinds_of(n), i, Num(p, u)), k + "|" + p
    for v in list(range(0, 20)) + [70, 77, 256, 257, 263, 264, 65536, 65543]:
        for t in (str(v), "0" + str(v), "000" + str(v)):
            for l in "Rr":
                yield "regliteral", "NOT", [Reg(1), Reg(None, l, t)], "reg"


BADNUM = ("12a", "1_0", "3Q", "#", "-", "#-", "x-", "--5", "-#5", "##5", "#x10", "x1G", "x-G", "xAQ", "#1A", "-1A", "0x10", "1.5", "+5", "#+5", "x+5", "1e3", "-x5", "\u0661", "#\u0661", "1\u0661", "x\u0661", "x1\u0661", "'a'", "\u00bd")
BADREG = ("R8", "R9", "R10", "R77", "r8", "R256", "R07a", "R\u0661", "R1\u0661")


def run(K):
    A = Asm(K.P)
    K.rule("accept", "a literal is accepted exactly when it is in the range of its notation and fits the operand field", 400)
    K.rule("value", "an accepted literal denotes its written value, a register token the register of that number", 400)
    K.rule("malformed", "a word that is neither a number nor a register is not accepted in place of one", 50)

    def one(K, chunk):
        for kind, n, os_, g in chunk:
            run_doc(K, A, [W(n, *os_)], Style(last=False), ("accept", "value", None), "%s|%s" % (n, g))

    its = list(items(K.tier))
    K.pmap(one, [its[i::64] for i in range(64)])

    def bad(K, chunk):
        for text, w in chunk:
            try:
                d = Doc()
                d.put(text)
                C = Parse(A, d, text)
            except Limit as e:
                K.undecided("malformed", "%r: limit %s" % (text, e))
                continue
            K.saw(C.X)
            for s, r in C.outs:
                okv, v = C.ok_of(s, r)
                K.judge("malformed", "accepted|" + w, None if okv is None else not okv if not okv or C.sure(s) else None, lambda: "%s: %s is accepted" % (C.where, C.text), text)

    bs = [(t % w, w) for w in BADNUM for t in ("ADD R0, R0, %s", ".orig %s", ".blkw %s", "TRAP %s", "LDR R1, R2, %s", "BR %s", ".fill %s") if not (t.startswith((".fill", "BR")) and w[0] in "xX" and w[1:2] not in "-+")]
    bs += [(t % w, w) for w in BADREG for t in ("ADD %s, R0, R1", "ADD R0, %s, R1", "ADD R0, R1, %s", "JMP %s", "LEA %s, 0", "STR R0, %s, 0")]
    K.pmap(bad, [bs[i::16] for i in range(16)])
