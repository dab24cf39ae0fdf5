"""Reference models are Python functions over terms; undecided questions are explored both ways."""
from engine.terms import *


class Contradiction(Exception):
    pass


class Asker:
    def __init__(self, st, choices):
        self.st = st.copy()
        self.choices = choices
        self.i = 0

    def __call__(self, c):
        d = self.st.decide(c)
        if d is not None:
            return d
        if self.i == len(self.choices):
            self.choices.append(True)
        v = self.choices[self.i]
        self.i += 1
        if not self.st.assume(c, v):
            raise Contradiction()
        return v


def explore(st, f, limit=4096):
    """all (state, result) of reference f(ask) consistent with the path's facts"""
    choices = []
    n = 0
    while True:
        a = Asker(st, choices)
        try:
            r = f(a)
            yield a.st, r
        except Contradiction:
            pass
        n += 1
        del choices[a.i:]
        while choices and choices[-1] is False:
            choices.pop()
        if not choices or n > limit:
            return
        choices[-1] = False
