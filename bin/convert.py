#!/usr/bin/env python3
"""convert.py SRC DST: Python 3 copies (lib2to3) of the project's Python 2 files; files that do not parse are left out"""
import os, sys, warnings
warnings.simplefilter("ignore")
from lib2to3.refactor import RefactoringTool, get_fixers_from_package
tool = RefactoringTool(get_fixers_from_package("lib2to3.fixes"))
src, dst = sys.argv[1:]
for sub in ("maputils", "utils"):
    for top, dirs, files in os.walk(os.path.join(src, sub)):
        for f in sorted(files):
            if not f.endswith(".py"): continue
            p = os.path.join(top, f); o = os.path.join(dst, os.path.relpath(p, src))
            raw = open(p, "rb").read()
            try: text = raw.decode("utf-8")
            except UnicodeDecodeError: text = raw.decode("latin-1")
            text = text.replace("\r\n", "\n")
            if text and not text.endswith("\n"): text += "\n"
            try: out = str(tool.refactor_string(text, p)); compile(out, p, "exec")
            except Exception as e: print("%s: %s: %s" % (p, type(e).__name__, e)); continue
            os.makedirs(os.path.dirname(o), exist_ok=True)
            open(o, "w", encoding="utf-8").write(out)
