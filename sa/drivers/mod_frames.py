# a module of the caller whose frames are seen by debug locations
KEPT = __package__


def use(which):
    global __package__
    if which == 1:
        __package__ = None
    elif which == 2:
        del __package__


def restore():
    global __package__
    __package__ = KEPT


def build(r):
    return r.functional(lambda text: (0, 2)).string("zz", name="other")
