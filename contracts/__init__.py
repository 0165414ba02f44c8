"""The contracts, by property."""
import importlib

R = ['R%02d' % i for i in range(1, 17)]
F = ['F%02d' % i for i in range(1, 11)]


def load(pid):
    return importlib.import_module('contracts.' + pid.lower())
