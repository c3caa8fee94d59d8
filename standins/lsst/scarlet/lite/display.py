"""stand-in: nothing is displayed"""


def img_to_rgb(*a, **k):
    raise NotImplementedError("stand-in: img_to_rgb")
