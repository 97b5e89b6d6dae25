#!/usr/bin/env python3
"""Mirror the library sources of /repo into the build folder by content (not by time stamp), so that make rebuilds exactly what changed."""
import os, sys, filecmp, shutil
repo, dest = sys.argv[1], sys.argv[2]
want = set()
for top in ("src", "mdns_cpp/src", "mdns_cpp/include"):
    for d, dirs, files in os.walk(os.path.join(repo, top)):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith((".c", ".cpp", ".h", ".hpp", ".inl", ".ipp", ".cc", ".cxx", ".hxx")): continue
            s = os.path.join(d, f); r = os.path.relpath(s, repo); t = os.path.join(dest, r); want.add(r)
            if os.path.exists(t) and filecmp.cmp(s, t, shallow=False): continue
            os.makedirs(os.path.dirname(t), exist_ok=True); tmp = t + ".new"; shutil.copyfile(s, tmp); os.replace(tmp, t)
for d, dirs, files in os.walk(dest):
    for f in files:
        p = os.path.join(d, f)
        if os.path.relpath(p, dest) not in want: os.remove(p)
