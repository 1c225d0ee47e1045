"""Writes data/golden.xz (with the argument large: data/golden-large.xz) from the tree given by MC_REPO (used once, on the pinned commit)."""
import array
import lzma
import os
import struct
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "mc"))
import core  # noqa: E402
import golden  # noqa: E402

exe = core.build_driver()
drv = core.Driver(exe)
out = []
large = sys.argv[1:] == ["large"]
path = golden.LARGE if large else golden.PATH
for g in golden.large() if large else golden.groups():
    r = drv.run(golden.command(*g), timeout=600)
    for k in range(len(g[3])):
        crc, v = golden.parse(r[2 + 3 * k])
        out.append(struct.pack("<IH", crc, len(v)) + array.array("d", v).tobytes())
with lzma.open(path, "wb") as f:
    f.write(b"".join(out))
print(len(out), "problems", os.path.getsize(path), "bytes")
