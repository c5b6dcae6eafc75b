from . import pyplot
def use(*a, **k): pass
