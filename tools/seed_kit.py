#!/usr/bin/env python3
"""Lays the build files for a planted bug's demonstration beside it.

usage: seed_kit.py <id> <cmake libs of the demo...>   (demo.cc must be there)
"""
import os
import shutil
import sys

ROOT = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))


def main():
    sid, libs = sys.argv[1], sys.argv[2:]
    d = os.path.join(ROOT, "seeded", sid)
    kit = os.path.join(d, "kit")
    shutil.rmtree(kit, ignore_errors=True)
    os.makedirs(kit)
    shutil.copytree(os.path.join(ROOT, "shim"), os.path.join(kit, "shim"))
    s = open(os.path.join(ROOT, "harness", "CMakeLists.txt")).read()
    s = s[:s.index("# ---- drivers")]
    s = s.replace("${CMAKE_CURRENT_SOURCE_DIR}/../shim", "${CMAKE_CURRENT_SOURCE_DIR}/shim")
    s += "add_executable(demo ${CMAKE_CURRENT_SOURCE_DIR}/../demo.cc)\n"
    s += "target_link_libraries(demo PRIVATE %s)\n" % " ".join(libs)
    open(os.path.join(kit, "CMakeLists.txt"), "w").write(s)
    open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
# Builds demo.cc against /repo's sources and runs it.
here=$(cd "$(dirname "$0")" && pwd) || exit 3
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
export CCACHE_DISABLE=1
cmake -S "$here/kit" -B "$tmp/b" -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/g++ > "$tmp/log" 2>&1 || { cat "$tmp/log"; exit 3; }
ninja -C "$tmp/b" -j8 demo > "$tmp/log" 2>&1 || { tail -40 "$tmp/log"; exit 3; }
mkdir "$tmp/scratch"
SCRATCH="$tmp/scratch" timeout 120 "$tmp/b/demo" 2>/dev/null
""")
    os.chmod(os.path.join(d, "demo.sh"), 0o755)


main()
