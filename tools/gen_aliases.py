#!/usr/bin/env python3
"""Writes alias/*/Cargo.toml: the crate under test under other names, one per build configuration,
so that one binary can hold all of them. Also checks_cfg's profile overrides and list of builds."""
import os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ALL = ["i16", "i32", "i64", "i128"]
INT = ["serde", "parity", "schemars", "quick-xml"]
# name: (features, overflow checks and debug assertions)
CONFIGS = {
    "nochk": (["std"] + ALL, False),
    "nostd": (ALL, True),
    "nostd_nochk": (ALL, False),
    "only16": (["i16"], False),
    "only32": (["i32"], False),
    "only64": (["i64"], False),
    "only128": (["i128"], False),
    "std16": (["std", "i16"], True),
    "std32": (["std", "i32"], True),
    "std64": (["std", "i64"], True),
    "std128": (["std", "i128"], True),
    "pair64": (["std", "i16", "i64"], False),
    "pair128": (["i32", "i128"], True),
    "every": (["std"] + ALL + INT, False),
    "every_nostd": (ALL + ["serde", "parity", "quick-xml"], True),
}
deps, profs, binds, fors = "", "", "", ""
for n, (f, chk) in CONFIGS.items():
    k = "fixnum_" + n
    d = os.path.join(root, "alias", n)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as o:
        o.write(f'''# Written by tools/gen_aliases.py: the crate under test in another configuration.
[package]
name = "{k}"
version = "0.9.2"
edition = "2021"
publish = false
autobins = false
autotests = false
autobenches = false
autoexamples = false

[lib]
path = "/repo/src/lib.rs"
doctest = false
test = false

[features]
default = [{", ".join(f'"{x}"' for x in f)}]
std = ["derive_more/error"]
i16 = []
i32 = []
i64 = []
i128 = []
serde = ["dep:serde"]
schemars = ["dep:schemars"]
parity = ["parity-scale-codec"]
quick-xml = ["serde?/derive", "serde?/alloc"]

[dependencies]
serde = {{ version = "1.0", default-features = false, optional = true }}
schemars = {{ version = "0.8", default-features = false, optional = true }}
parity-scale-codec = {{ version = "3", default-features = false, optional = true }}
typenum = "1.12.0"
derive_more = {{ version = "0.99.9", default-features = false }}
static_assertions = "1.1.0"
itoa = "1.0.1"
''')
    deps += f'{k} = {{ path = "../alias/{n}", optional = true }}\n'
    if not chk:
        profs += f"[profile.release.package.{k}]\noverflow-checks = false\ndebug-assertions = false\n"
    wide = {"i16": "i16 i64", "i32": "i32 i128", "i64": "i64 i128", "i128": "i128 Big"}
    ws = [x for x in ALL if x in f]
    binds += f"bind!({k} as {n}: {', '.join(wide[w] for w in ws)}; ints: );\n"
    P = {"i16": "U0 U2 U4", "i32": "U0 U5 U9", "i64": "U0 U9 U18", "i128": "U0 U9 U19 U38"}
    for w in ws:
        fors += f"        checks::for_types_of!({k} $f $args {w}: {P[w]});\n"
names = ", ".join(f'"dep:fixnum_{n}"' for n in CONFIGS)
p = os.path.join(root, "checks/Cargo.toml")
s = open(p).read()
a, b = s.index("# builds\n"), s.index("# end of builds\n")
open(p, "w").write(s[:a] + "# builds\n" + deps + "\n[features]\nbuilds = [" + names + "]\n" + s[b:])
open(os.path.join(root, "checks/src/builds.rs"), "w").write(
    "// Written by tools/gen_aliases.py.\n" + binds)
p = os.path.join(root, "checks_cfg/Cargo.toml")
s = open(p).read()
a, b = s.index("# builds\n"), s.index("# end of builds\n")
open(p, "w").write(s[:a] + "# builds\n" + "".join(f'fixnum_{n} = {{ path = "../alias/{n}" }}\n' for n in CONFIGS) + "\n" + profs + s[b:])
open(os.path.join(root, "checks_cfg/src/lib.rs"), "w").write('''// Written by tools/gen_aliases.py.
/// Calls `$f::<T>$args` for the types of every build.
#[macro_export]
macro_rules! for_builds {
    ($f:ident $args:tt) => {{
''' + "".join(f"        checks::for_types_of!(fixnum $f $args {w}: {P[w]});\n" for w in ALL) + fors + '''    }};
}
''')
