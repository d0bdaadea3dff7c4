"""module hosting classes made at run time (so that pickle finds them) and the log of their loaders"""
LOG = []


def add(cls):
    cls.__module__ = __name__
    cls.__qualname__ = cls.__name__
    globals()[cls.__name__] = cls
    return cls
