"""C08: each simulator step follows the LC-3 ISA."""
from rules.simprops import *

EXPLAIN = ("Simulator::step is summarised per path (all callees inlined, read_mem/write_mem as events) and each path's registers, PC, PSR, saved SP, "
           "memory traffic and result are compared in normal form with an independent LC-3 reference transcribed from the ISA; "
           "read_mem/write_mem are summarised and compared with their contract.")


def run(K):
    summ = step_rules(K, {"result": "isa-result", "effects": "isa-memory-traffic", "io": "isa-io-effects", "pc": "isa-pc", "faultpc": "isa-fault-address", "psr": "isa-psr",
                          "saved_sp": "isa-saved-sp", "regs": "isa-registers", "mem": "isa-memory"})
    mem_rules(K, {"result": "mem-result", "dispatch": "mem-dispatch", "effects": "mem-frame", "memory": "mem-memory", "value": "mem-value"})
