"""Entry point: main.py <property> [--quick|--thorough]"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "checks"))
sys.dont_write_bytecode = True
import vt

prop = sys.argv[1]
mod = importlib.import_module(prop)
vt.run(lambda: mod.main(prop))
