#!/usr/bin/env python3
"""Checks that the tools the checks need are present (everything is built by the checks themselves)."""
import os, shutil, sys
missing = [t for t in ("gcc", "g++", "clang", "clang++", "wasm-ld", "make", "node", "python3") if not shutil.which(t)]
if not os.path.exists("/opt/veriftools/node/node_modules/.bin/esbuild") and not shutil.which("esbuild"):
    missing.append("esbuild")
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
if missing:
    print("missing tools: " + " ".join(missing))
    sys.exit(1)
