"""Amalgamate /repo/src into one translation unit (include-once semantics), out of tree.

The project ships as an amalgamated coco.c; its own `fabricate` script is part of what a change
may touch, so the checks expand the #include "..." directives themselves."""
import os
import re

ROOTS = ["coco_random.c", "coco_suite.c", "coco_observer.c", "coco_archive.c", "coco_runtime_c.c"]
INC = re.compile(r'^\s*#\s*include\s*"([^"]+)"')


def amalgamate(src, out_dir):
    seen = set()
    out = ['#define COCO_MC 1\n']

    def expand(name, frm):
        path = os.path.join(src, name)
        if name in seen:
            return
        seen.add(name)
        if name == "coco_version.c" or not os.path.exists(path):
            if name == "coco_version.c":
                return
            raise FileNotFoundError(f"{name} included from {frm}")
        if name.endswith(".h") and name == "coco.h":
            out.append('#include "coco.h"\n')
            return
        with open(path, encoding="utf-8", errors="replace") as f:
            lines = f.readlines()
        out.append(f'#line 1 "{path}"\n')
        for i, line in enumerate(lines):
            m = INC.match(line)
            if m:
                expand(m.group(1), name)
                out.append(f'#line {i + 2} "{path}"\n')
            else:
                out.append(line if line.endswith("\n") else line + "\n")

    expand("coco.h", "-")
    out.append('const char *coco_version = "MC";\n')
    for r in ROOTS:
        expand(r, "-")
    os.makedirs(out_dir, exist_ok=True)
    with open(os.path.join(out_dir, "coco.c"), "w") as f:
        f.writelines(out)
    with open(os.path.join(src, "coco.h"), encoding="utf-8", errors="replace") as f:
        txt = f.read()
    # coco.h includes coco_platform.h? keep a copy of every header next to it
    with open(os.path.join(out_dir, "coco.h"), "w") as f:
        f.write(txt)
    for h in os.listdir(src):
        if h.endswith(".h") and h != "coco.h":
            with open(os.path.join(src, h), encoding="utf-8", errors="replace") as f, \
                    open(os.path.join(out_dir, h), "w") as g:
                g.write(f.read())
    return os.path.join(out_dir, "coco.c")


if __name__ == "__main__":
    import sys
    print(amalgamate(sys.argv[1], sys.argv[2]))
