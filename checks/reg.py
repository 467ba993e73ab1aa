PROPS = {}


def prop(pid):
    def f(fn):
        PROPS[pid] = fn
        return fn
    return f
