"""C32: memory-mapped I/O reaches exactly the mapped register or device."""
from rules.devrules import *

EXPLAIN = ("Port-table constructor, dispatch, device addition/removal and register mapping are summarised and compared with the table reference; "
           "device lists and address lists are concretised in length (0-6), contents symbolic.")


def run(K):
    mem_rules(K, {"dispatch": "memory-dispatch", "memory": "memory-unchanged"})
    table_rules(K)
    dispatch_rules(K)
    fixed_rules(K)
    add_rules(K)
    remove_rules(K)
    ireg_rules(K)
