"""C09: user-mode code cannot touch memory or state outside user space."""
from rules.simprops import *

EXPLAIN = ("Every memory access of a step goes through read_mem/write_mem with a privilege derived from the PSR and ignore_privilege; "
           "read_mem/write_mem reject unprivileged accesses outside x3000-xFDFF before any effect; RTI in user mode and rejected accesses end in the prescribed error or OS vector.")

FAULTS = ("AccessViolation", "PrivilegeViolation")


def run(K):
    P = K.P
    mem_rules(K, {"access": "access-check"})
    summ = stepmod.summarise(K, False)
    X, S, s0, f, paths = summ
    step_rules(K, {"priv": "privilege-bit", "io": "no-direct-device-access", "mem": "no-direct-memory-write"}, summary=summ)

    # access contexts
    K.rule("access-context", "the access privilege passed to read_mem/write_mem in a step is 'PSR supervisor bit clear-or-ignored' at that point", 5)
    K.rule("fault-reported", "a rejected access or a user-mode RTI yields the access/privilege violation, or the OS exception vector under real traps", 5)
    ign = S.path(X, s0, "flags", "ignore_privilege")
    psr0 = S.get(X, s0, "psr")
    user = band(stepmod.sl_bit(X.fld(psr0, 0, 0, P.types[psr0.ty]["v"][0]["f"][0][1]), 15), bnot(ign))
    direct_reads(K, summ, "no-direct-read", "direct-read", "a user-mode step depends on %s, read from memory without the access check", user)
    for p in paths:
        for e in p.mem:
            if e[0] == "fail":
                continue
            ctx, psr = (e[2], e[4]) if e[0] == "rd" else (e[3], e[4])
            pv = X.fld(psr, 0, 0, P.types[psr.ty]["v"][0]["f"][0][1])
            want = bor(bnot(stepmod.sl_bit(pv, 15)), ign)
            q = same(X, p.st, S.get(X, ctx, "privileged"), want)
            if q is False:
                # stricter than required is not a violation of this property
                s2 = p.st.copy()
                if not (s2.assume(want, False) and s2.assume(S.get(X, ctx, "privileged"), True) and feasible(s2)):
                    q = True
            K.judge("access-context", "%s@%s" % (e[0], f["def"]), q, "%s of %s at %s is made with privilege %s although the machine's privilege is %s" % (e[0], show(e[1]), e[5] if len(e) > 5 else e[-1], show(S.get(X, ctx, "privileged")), show(want)), e[0])
        for R, st, asp, key, res, txt in stepmod.compare(X, S, s0, p, None):
            if asp == "effects" and key.endswith("-priv"):
                continue
            if asp in ("effects", "result") and (R.got in FAULTS or R.out in FAULTS or getattr(R, "exc", None) in FAULTS or any(e[0] == "fail" for e in p.mem)):
                K.judge("fault-reported", key, res, txt, key)
