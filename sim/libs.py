"""Tiny shared libraries compiled at the start of a check."""
import os
import subprocess


def cc(out, code, *flags):
    src = out + ".c"
    with open(src, "w") as f:
        f.write(code)
    subprocess.run(["gcc", "-O1", "-w", "-fPIC", "-shared", "-o", out, src] + list(flags), check=True)
    return out


def pool(shared):
    """Three libraries exporting overlapping subsets of f0..f7 / v0..v5; every
    function returns a number that tells library and function apart."""
    d = os.path.join(shared, "libs")
    os.makedirs(d, exist_ok=True)
    out = []
    for i, fs in enumerate(([0, 1, 2, 3], [2, 3, 4], [0, 4, 5, 6])):
        code = "".join("int f%d(void) { return %d; }\n" % (k, 1000 * (i + 1) + k) for k in fs)
        code += "int v%d = %d;\n" % (i, 77 + i)
        out.append(cc(os.path.join(d, "libp%d.so" % i), code))
    return out


def pool_paths(shared):
    return [os.path.join(shared, "libs", "libp%d.so" % i) for i in range(3)]
