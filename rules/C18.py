"""C18: text object format round trip."""
from rules.serlib import *

EXPLAIN = ("Object files are built by abstract runs of the assembler and linker (programs with symbolic origins and words, source texts taken through the parser; with and without debug symbols; two and three files linked "
           "in several orders). Each is written abstractly to the text format and read back abstractly; on every path the reader has to accept and every field of the result has to equal the original.")


def run(K):
    judge_format(K, "TextFormat")
