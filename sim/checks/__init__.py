import importlib
import pkgutil
from ..core import Check

CHECKS = {}
for _m in pkgutil.iter_modules(__path__):
    _mod = importlib.import_module(__name__ + '.' + _m.name)
    for _x in vars(_mod).values():
        if isinstance(_x, type) and issubclass(_x, Check) and _x.id:
            CHECKS[_x.id] = _x
