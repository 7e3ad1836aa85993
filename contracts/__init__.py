"""All contracts (harnesses)."""
import glob
import importlib
import os


def load():
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(glob.glob(os.path.join(here, '*.py'))):
        n = os.path.basename(f)[:-3]
        if n != '__init__':
            importlib.import_module('contracts.' + n)
