"""event log of the stand-in; empty unless a monitor subscribed"""
_subs = []
# injected faults and scripted answers, by name; empty in normal operation
faults = {}


def subscribe(fn):
    _subs.append(fn)
    return fn


def unsubscribe(fn):
    _subs.remove(fn)


def emit(kind, **kw):
    for s in list(_subs):
        s(kind, kw)
