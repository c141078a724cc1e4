"""Loaded by the real processes of the simulator: the guard, nothing else."""
import importlib.util
import os

_s = importlib.util.spec_from_file_location("_sim_guard", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "guard.py"))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
_m.install()
