#!/usr/bin/env python3
"""Checks that the tools are there and that the reference model passes the published vectors."""
import os, shutil, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("g++", "clang++", "valgrind"):
    if not shutil.which(t):
        sys.exit(t + " is missing")
d = tempfile.mkdtemp()
try:
    src = os.path.join(d, "t.cpp")
    open(src, "w").write('#include <cstdio>\n#include "ref.hpp"\nint main() { const char *e = ref::selftest(); if (e) std::puts(e); return e != nullptr; }\n')
    subprocess.check_call(["g++", "-std=c++17", "-O1", "-include", "array", "-I", os.path.join(root, "harness"), src, "-o", os.path.join(d, "t")])
    subprocess.check_call([os.path.join(d, "t")])
finally:
    shutil.rmtree(d)
print("ready")
