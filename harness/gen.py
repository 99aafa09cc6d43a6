#!/usr/bin/env python3
"""Regenerates the feature lists and module tables of the harness crates from the modules present.
src/bt: B-tree configuration (nightly, `unstable`); src/st: default configurations (stable; hb: without std); src/both: compiled in both."""
import os, re
H = os.path.dirname(os.path.abspath(__file__))
mods_of = lambda d: sorted(f[:-3] for f in os.listdir(os.path.join(H, "src", d)) if re.fullmatch(r"c\d\d\.rs", f))  # noqa
both = mods_of("both")
for kind in ("bt", "st"):
    own = mods_of(kind)
    mods = sorted(own + both)
    s = "// generated by gen.py\n#![allow(static_mut_refs, unused)]\npub mod common;\n#[path = \"../both/vcommon.rs\"]\npub mod vcommon;\n"
    for m in mods:
        s += '#[cfg(feature = "%s")]\n%spub mod %s;\n' % (m, '#[path = "../both/%s.rs"]\n' % m if m in both else "", m)
    s += "pub static TABLES: &[&[(&str, extern \"C-unwind\" fn())]] = &[\n"
    for m in mods:
        s += '    #[cfg(feature = "%s")]\n    %s::ENTRIES,\n' % (m, m)
    s += "];\n"
    open(os.path.join(H, "src", kind, "mod.rs"), "w").write(s)
    for c in ("ir", "rt") if kind == "bt" else ("ir", "rt", "hb-ir", "hb-rt"):
        p = os.path.join(H, c if c[0] == "h" else "%s-%s" % (kind, c), "Cargo.toml")
        t = open(p).read()
        t = re.sub(r"\[features\]\n(.*\n)*?(?=\[|\Z)", "", t)
        f = ('default = ["bt", "io"]\nbt = []\n' if kind == "bt" else "" if c[0] == "h" else 'default = ["io"]\n') + "io = []\n" + "".join("%s = []\n" % m for m in mods)
        t = t.replace("[workspace]", "[features]\n" + f + "[workspace]")
        open(p, "w").write(t)
