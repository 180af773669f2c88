"""Simulated data services.  Each module registers Service subclasses."""
import importlib

NAMES = {}
MODULES = ['queued', 'gridded', 'daily', 'meteonorm', 'psm4', 'pvgis',
           'solcast', 'misc']


def register(cls):
    NAMES[cls.name] = cls
    return cls


def load_all():
    for m in MODULES:
        importlib.import_module('dst.services.' + m)
    return NAMES


def get(name):
    load_all()
    return NAMES[name]
