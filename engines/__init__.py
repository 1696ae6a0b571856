import importlib, os


def modules():
    d = os.path.dirname(os.path.abspath(__file__))
    return [importlib.import_module("engines." + f[:-3]) for f in sorted(os.listdir(d))
            if f.endswith(".py") and f != "__init__.py"]
