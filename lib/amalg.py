"""Amalgamates /repo/src/*.c exactly as the project's own build does (each quoted
include expanded once, in place), with #line directives back to the real files.
`overrides` maps a file name to a replacement file (a test double)."""
import os, re
CORE = ["coco_random.c", "coco_suite.c", "coco_observer.c", "coco_archive.c", "coco_runtime_c.c"]
INC = re.compile(r'\s*#\s*include\s+"(.*)"')
ASSERT_H = re.compile(r'\s*#\s*include\s+<assert.h>')

DEFINE = re.compile(r"\s*#\s*define\s+(\w+)\s")

def amalgamate(src, dest, overrides=None, redefine=None, core=CORE):
    overrides = overrides or {}
    redefine = redefine or {}   # object-like macros whose value bounds a size
    seen, out = set(), []
    def proc(name):
        path = os.path.normpath(os.path.join(src, name))
        if path in seen:
            return
        seen.add(path)
        base = os.path.basename(path)
        real = overrides.get(base, path)
        if not os.path.exists(real):
            if base == "coco_version.c":
                return
            raise FileNotFoundError(real)
        out.append('#line 1 "%s"\n' % real)
        for n, line in enumerate(open(real, errors="replace"), 1):
            m = INC.match(line)
            if m and (os.path.exists(os.path.join(src, m.group(1))) or m.group(1) in overrides):
                proc(m.group(1))
                out.append('#line %d "%s"\n' % (n + 1, real))
            elif ASSERT_H.match(line):
                out.append("\n")
            elif redefine and DEFINE.match(line) and DEFINE.match(line).group(1) in redefine:
                k = DEFINE.match(line).group(1)
                out.append("#define %s %s\n" % (k, redefine[k]))
            else:
                out.append(line if line.endswith("\n") else line + "\n")
    for f in core:
        proc(f)
    out.append('const char *coco_version = "vp";\n')
    with open(dest, "w") as fd:
        fd.write("".join(out))
    return sorted(seen)
