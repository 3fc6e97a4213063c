"""stand-ins for the compiled modules of the package, installed where the package looks for them"""
import importlib, sys, warnings
warnings.simplefilter("ignore")
import pytriqs


class _P:
    mods = sys.modules

    @staticmethod
    def load(n):
        return importlib.import_module(n)


_P.rank = 0
pytriqs.stand_ins(_P)
