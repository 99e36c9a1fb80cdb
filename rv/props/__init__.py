import importlib


def load(prop):
    return importlib.import_module('rv.props.' + prop.lower())
