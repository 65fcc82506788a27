#!/usr/bin/env python3
"""Writes harness/src/sigs.rs: a custom function for every signature of up to three parameters, and for some longer ones."""
import itertools, os, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = random.Random(7)
sigs = []
for n in range(4):
    for p in itertools.product("VLN", repeat=n):
        for ret in "VLN":
            sigs.append(("".join(p), ret))
for n in (4, 5, 6, 7, 8, 9, 12, 16):
    for k in range(6 if n < 8 else 3):
        p = "".join(r.choice("VLN") for _ in range(n))
        sigs.append((p, "VLN"[k % 3]))
T = {"V": "ValueType", "L": "LogicalType", "N": "NodesType"}
out = ["// written by tools/mksigs.py", "use super::{Sig, Ty::*};", "pub static GEN: &[Sig] = &["]
fns = []
seen = set()
for i, (p, ret) in enumerate(sigs):
    name = "f_" + (p.lower() or "0") + "_" + ret.lower()
    if name in seen:
        continue
    seen.add(name)
    if (i % 5 == 2 and len(p) > 3 or i % 11 == 2 and len(p) == 3):
        name = f"n{i}" + p.lower()
    out.append(f'    Sig {{ name: "{name}", params: &[{", ".join(p)}], ret: {ret} }},')
    own = [f"x{k}" for k in range(16)]
    fn = name
    attr = "#[serde_json_path::function]"
    if i % 3 == 1 or (i % 5 == 2 and len(p) > 3 or i % 11 == 2 and len(p) == 3):
        fn = f"rust_name_{i}"
        attr = f'#[serde_json_path::function(name = "{name}")]'
    style = i % 4
    lt = "'a" if "N" in p or "V" in p else "'static"
    def ty(c):
        if c == "L":
            return T[c]
        return {0: f"{T[c]}<{lt}>", 1: f"{T[c]}<{lt}>", 2: f"super::{T[c]}<{lt}>", 3: f"serde_json_path::functions::{T[c]}<{lt}>"}[style]
    gen = "<'a>" if lt == "'a" else ""
    params = ", ".join(f"{own[k]}: {ty(c)}" for k, c in enumerate(p))
    args = ", ".join(f"A::{c}({own[k]})" for k, c in enumerate(p))
    rt = ty(ret)
    vis = ["", "pub ", "pub(crate) ", ""][i % 4]
    doc = "    /// documented\n" if i % 6 == 0 else ""
    fns.append(f'{doc}    {attr}\n    {vis}fn {fn}{gen}({params}) -> {rt} {{\n        A::{ret.lower()}("{name}", vec![{args}])\n    }}')
out.append("];")
out.append("#[cfg(feature = \"functions\")]\nmod functions {\n    use super::super::custom::A;\n    use serde_json_path::functions::{LogicalType, NodesType, ValueType};")
out += fns
out.append("}\n#[cfg(feature = \"functions\")]\n#[allow(unused_imports)]\nuse serde_json_path::functions::{LogicalType, NodesType, ValueType};")
open(f"{V}/harness/src/sigs.rs", "w").write("\n".join(out) + "\n")
print(len(seen))
