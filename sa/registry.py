"""which analyses decide which property"""
import importlib
import os

from . import values

HERE = os.path.dirname(os.path.abspath(__file__))


def run(prop, rep):
    values.run(prop, rep)
    p = os.path.join(HERE, "checks", prop.lower() + ".py")
    if os.path.exists(p):
        importlib.import_module("sa.checks." + prop.lower()).run(rep)
