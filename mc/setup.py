"""setup: nothing to build (pure Python); checks that the framework and the code under test import"""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
for folder in (HERE, os.path.join(HERE, "checks")):
    for name in sorted(os.listdir(folder)):
        if name.endswith(".py"):
            with open(os.path.join(folder, name)) as fh:
                compile(fh.read(), name, "exec")
os.makedirs(os.path.join(os.path.dirname(HERE), "evidence"), exist_ok=True)
print("ok")
