"""One module per group of properties; importing them registers the rules."""
import pkgutil
import importlib
for _m in pkgutil.iter_modules(__path__):
    importlib.import_module("rules." + _m.name)
