import inspect
from . import p1, p2, p3, p4, p5, p6, p7
from .base import Prop

PROPS = {}
for mod in (p1, p2, p3, p4, p5, p6, p7):
    for name, cls in inspect.getmembers(mod, inspect.isclass):
        if issubclass(cls, Prop) and cls is not Prop:
            PROPS[name] = cls()
