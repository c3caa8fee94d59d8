"""stand-in: there is no display here"""


def Display(*a, **k):
    raise NotImplementedError("stand-in: no display")
