#!/usr/bin/env python3
"""setup_cmd: the toolchain is there and the engine compiles. Nothing it builds is needed by a check."""
import os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp()
for cc in (["g++"], ["clang++", "-fsanitize=address,undefined"]):
    subprocess.check_call(cc + ["-std=c++17", "-w", "-c", os.path.join(HERE, "engine/engine.cpp"), "-o", os.path.join(d, "e.o")])
os.remove(os.path.join(d, "e.o"))
os.rmdir(d)
print("ok")
