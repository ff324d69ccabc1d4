#!/usr/bin/env python3
"""Lays the crates of /repo out under /verif/work/mirror/<variant>/<crate> so that harnesses can depend on them.

Every source file is a copy of the one in /repo's working tree; only manifests are generated (from /repo's own, with
path dependencies made absolute, dev-dependencies dropped, and some dependencies redirected to stand-ins), and
the module roots of the crates whose other parts need the unavailable cardano-multiplatform-lib (CML) are
/repo's with the lines about those parts taken out.  A file is rewritten exactly when its content changes, so that
cargo, which goes by modification times, rebuilds whatever changed since the last build and nothing else.

variants:
  plain  real dependencies
  small  fraos alone, with small growth constants
  shim   small growth constants, `std` redirected to the controlled-scheduler shim, sled to the in-memory storage stand-in,
         rand to the enumerating stand-in
  cml    cardano-utils and utxo-selection with all of their parts; CML is a stand-in with the ledger's encoding, rand as in shim
  net    blockchain-source with all of its Cardano part: CML and cardano-net are stand-ins, the latter with the model of
         a node at the other end; sled as in shim
"""

import math
import os
import re
import shutil
import sys
import tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
WORK = os.path.join(VERIF, "work")
MC = os.path.join(VERIF, "mc")

CML = r"^cardano-multiplatform-lib$|^cml-[\w-]+$"
CRATES = ["deps", "core", "fraos", "indexed-log-map", "multiverse", "blockchain-source", "utxo-selection", "cardano-utils"]
NAMES = {"dcspark-core": "core", "dcspark-blockchain-source": "blockchain-source"}


def read(path):
    with open(path) as f:
        return f.read()


def remove(path):
    if os.path.islink(path) or os.path.isfile(path):
        os.remove(path)
    elif os.path.isdir(path):
        shutil.rmtree(path)


def copy(src, dst):
    with open(src, "rb") as f:
        data = f.read()
    if os.path.isfile(dst) and not os.path.islink(dst):
        with open(dst, "rb") as f:
            if f.read() == data:
                return
    remove(dst)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "wb") as f:
        f.write(data)


def write(dst, text):
    if os.path.isfile(dst) and not os.path.islink(dst) and read(dst) == text:
        return
    remove(dst)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "w") as f:
        f.write(text)


def modules(text, folder):
    """the modules a file declares, as (name, the declaration, whether it is written against what is not available)"""
    for line in text.splitlines():
        m = re.match(r"(?:pub(?:\([^)]*\))? )?mod (\w+);", line)
        for path in (f"{folder}/{m[1]}.rs", f"{folder}/{m[1]}/mod.rs") if m else ():
            if os.path.isfile(path):
                yield m[1], line, bool(re.search(r"\bcml_|\bcardano_(net|multiplatform_lib|utils)\b", read(path)))


def uses(names, text):
    if not names:
        return []
    n = "|".join(names)
    return [m[0] for m in re.finditer(rf"^(?:pub(?:\([^)]*\))? )?use (?:self::)?(?:{n})::[^;]*;", text, re.M)]


def without_cml(text, folder):
    """a module root without the modules that are written against CML"""
    gone = [(n, line) for n, line, cml in modules(text, folder) if cml]
    for part in [line for _, line in gone] + uses([n for n, _ in gone], text):
        text = text.replace(part + "\n", "", 1)
    return text


def cardano_stub(text, folder):
    """blockchain-source/src/cardano/mod.rs is itself written against CML: this one declares those of its modules that
    are not, and the few items that the rest of the crate names."""
    kept = [(n, line) for n, line, cml in modules(text, folder) if not cml]
    used = uses([n for n, _ in kept], text)
    return "\n".join([line for _, line in kept] + [x for x in used if x.startswith("pub")]) + CARDANO_STUB


CARDANO_STUB = """
mod stub {
    use dcspark_core::{BlockId, BlockNumber};
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct BlockEvent { pub id: BlockId, pub parent_id: BlockId, pub block_number: BlockNumber }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum CardanoNetworkEvent<Block, P> { Tip(P), Block(Block) }
    pub struct CardanoSource;
    impl CardanoSource { pub async fn stop(self) -> anyhow::Result<()> { Ok(()) } }
}
pub use stub::*;
"""

EDITS = {
    "utxo-selection": {"src/estimators/mod.rs": without_cml},
    "cardano-utils": {"src/lib.rs": without_cml},
    "blockchain-source": {"src/cardano/mod.rs": cardano_stub},
}


def small_constants(text):
    """The same code with a smaller growth unit, so that short histories reach the growth paths.  (If the constants are
    not found the checks run with the real ones and cover less.)"""
    small = {2048: 2, 4096 * 128: 64}

    def shrink(m):
        value = math.prod(int(x.replace("_", "")) for x in m[2].split("*"))
        return f"{m[1]}{small.get(value, m[2])};"

    return re.sub(r"(\bconst \w+: usize = )([\d_]+(?: \* [\d_]+)*);", shrink, text)


DROP_DEPS = {"utxo-selection": {"cardano-utils"}}
# the stand-ins have the interface of the real crate
SHIMS = {"sled": "sled", "rand": "rand", "cardano-net": "cardano-net"}


def toml_value(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, list):
        return "[" + ", ".join(toml_value(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{k} = {toml_value(x)}" for k, x in v.items()) + " }"
    raise TypeError(v)


def manifest(crate, variant, shims, base, crates=CRATES, cml=False):
    """cml: with all the parts that need CML, over stand-ins for it"""
    m = tomllib.loads(read(f"{REPO}/{crate}/Cargo.toml"))
    p = m["package"]
    out = ["[package]"]
    for k in ("name", "version", "edition"):
        if isinstance(p.get(k), str):
            # two variants of a crate can only be linked together under different versions
            v = f"{p[k]}-{variant}" if k == "version" and variant != "plain" else p[k]
            out.append(f"{k} = {toml_value(v)}")
    out += ["publish = false", "autobins = false", "autoexamples = false", "autotests = false", "autobenches = false", ""]
    if isinstance(m.get("lib"), dict):
        out.append("[lib]")
        out += [f"{k} = {toml_value(v)}" for k, v in m["lib"].items()]
        out.append("")
    out.append("[dependencies]")
    for name, d in m.get("dependencies", {}).items():
        if re.search(CML, name) and cml and os.path.isdir(f"{MC}/{name}"):
            out.append(f"{name} = {toml_value({'path': f'{MC}/{name}'})}")
            continue
        if re.search(CML, name) or (name in DROP_DEPS.get(crate, set()) and not cml):
            continue
        d = {"version": d} if isinstance(d, str) else dict(d)
        real = d.get("package", name)
        if real in shims:
            d = {"package": "mc-" + shims[real], "path": f"{MC}/{shims[real]}"}
        elif "path" in d:
            target = os.path.relpath(os.path.normpath(os.path.join(REPO, crate, d["path"])), REPO)
            d.pop("version", None)
            d["path"] = f"{base}/{target}" if target in crates else os.path.join(REPO, target)
        out.append(f"{name} = {toml_value(d)}")
    if "std" in shims:
        out.append(f'std = {{ package = "mc-std", path = "{MC}/std" }}')
    if m.get("features"):
        out.append("\n[features]")
        out += [f"{k} = {toml_value(v)}" for k, v in m["features"].items()]
    out.append("\n[lints.rust]\nunexpected_cfgs = \"allow\"\n")
    return "\n".join(out)


def lay_out(variant, crates=CRATES, std_crates=(), sled=False, rand=False, small=False, cml=False):
    base = f"{WORK}/mirror/{variant}"
    for crate in crates:
        src, dst = f"{REPO}/{crate}", f"{base}/{crate}"
        shims = {}
        if crate in std_crates:
            shims["std"] = "std"
        if sled:
            shims["sled"] = "sled"
        if rand and crate == "utxo-selection":
            shims["rand"] = "rand"
        if cml and crate == "blockchain-source":
            shims["cardano-net"] = "cardano-net"
        edits = {} if cml else EDITS.get(crate, {})
        want = {"Cargo.toml"}
        write(f"{dst}/Cargo.toml", manifest(crate, variant, shims, base, crates, cml=cml))
        for d, dirs, files in os.walk(src):
            dirs[:] = [x for x in dirs if x not in ("target", "tests", "examples", "benches")]
            for name in files:
                rel = os.path.relpath(os.path.join(d, name), src)
                if rel in ("Cargo.lock", "Cargo.toml"):
                    continue
                want.add(rel)
                if rel in edits:
                    write(f"{dst}/{rel}", edits[rel](read(f"{src}/{rel}"), os.path.dirname(f"{src}/{rel}")))
                elif small and crate == "fraos" and rel.endswith(".rs") and small_constants(read(f"{src}/{rel}")) != read(f"{src}/{rel}"):
                    write(f"{dst}/{rel}", small_constants(read(f"{src}/{rel}")))
                else:
                    copy(f"{src}/{rel}", f"{dst}/{rel}")
        for d, dirs, files in os.walk(dst):
            for name in files:
                if os.path.relpath(os.path.join(d, name), dst) not in want:
                    os.remove(os.path.join(d, name))


def main():
    lay_out("plain")
    lay_out("small", crates=("fraos",), small=True)
    lay_out("net", crates=("deps", "core", "multiverse", "blockchain-source"), sled=True, cml=True)
    lay_out("cml", crates=("deps", "core", "cardano-utils", "utxo-selection"), rand=True, cml=True)
    lay_out("shim", std_crates=("fraos", "indexed-log-map"), sled=True, rand=True, small=True)


if __name__ == "__main__":
    sys.exit(main())
