#!/usr/bin/env python3
"""Copies /repo/src to gen/src so that the names f32 and f64 mean the symbolic
floats vcore::ieee::Fp<32> and Fp<64>.  The text of every file is kept; a line
that imports the two aliases is appended to each, and the types of `const` and
`static` items keep the primitive floats (their values are float literals)."""
import os, re, shutil, sys
src, dst = sys.argv[1], sys.argv[2]
shutil.rmtree(dst, ignore_errors=True)
for d, _, fs in os.walk(src):
    o = os.path.join(dst, os.path.relpath(d, src))
    os.makedirs(o, exist_ok=True)
    for f in fs:
        t = open(os.path.join(d, f), encoding="utf-8").read()
        if f.endswith(".rs"):
            t = re.sub(
                r"^([ \t]*(?:pub(?:\([a-z]+\))?\s+)?(?:const|static)\s+\w+\s*:[^=;]*)",
                lambda m: re.sub(r"\bf(32|64)\b", r"::core::primitive::f\1", m.group(1)),
                t, flags=re.M)
            if os.path.join(d, f) == os.path.join(src, "lib.rs"):
                t += ("\n#[allow(non_camel_case_types)]\nmod mach {\n    pub type f32 = vcore::ieee::Fp<32>;\n"
                      "    pub type f64 = vcore::ieee::Fp<64>;\n}\n")
            t += "\n#[allow(unused_imports)]\nuse crate::mach::{f32, f64};\n"
        open(os.path.join(o, f), "w", encoding="utf-8").write(t)
