#!/usr/bin/env python3
"""Nothing is built in advance: every check builds what it needs from the tree.
This looks whether the tools are there."""
import os, shutil, sys
need = ["gcc", "cmake", "ninja", "readelf", "objcopy", "make"]
want = ["clang", "g++", "clang++", "valgrind", "i686-linux-gnu-gcc", "aarch64-linux-gnu-gcc", "arm-linux-gnueabihf-gcc", "s390x-linux-gnu-gcc", "qemu-aarch64", "qemu-arm", "qemu-s390x", "qemu-x86_64", "qemu-i386"]
for t in want:
    if not shutil.which(t): print("missing, what needs it will be left out:", t)
miss = [t for t in need if not shutil.which(t)]
if miss: sys.exit("missing: " + " ".join(miss))
for d in ("evidence", ".work", "replay"): os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), d), exist_ok=True)
print("ready")
