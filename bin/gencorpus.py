#!/usr/bin/env python3
"""Writes the corpora of programs (build/gen/<feature>.rs) the harness crate kani/auto compiles."""
import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import progen, programs

V = "/verif"
GEN = V + "/build/gen"


def emit_program(name, p):
    a, _ = progen.instantiate(p["src"])
    _, r = progen.instantiate(p.get("ref", p["src"]))
    mk = "".join(f"macro_rules! {m} {{ ($($e:tt)*) => {{ $($e)* }} }} " for m in sorted(p.get("markers", {"marker"})))
    pre = p.get("pre", "")
    go = p["go"]
    ga, _ = progen.instantiate(go)
    _, gr = progen.instantiate(p.get("rgo", go))
    return (f"pub mod {name} {{\n"
            f" pub mod a {{ use crate::support::*; use crate::support::{{ta as t, ra as r, wa as w, mka as mk}}; use auto_enums::{{auto_enum, enum_derive}}; use crate::has_a as has;\n"
            f"  {pre} {a}\n  pub fn go() -> u64 {{ {ga} }} }}\n"
            f" pub mod r {{ use crate::support::*; use crate::support::{{tr as t, rr as r, wr as w, mkr as mk}}; use crate::has_r as has;\n"
            f"  {mk}\n  {p.get("rpre", pre)} {r}\n  pub fn go() -> u64 {{ {gr} }} }}\n}}\n")


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def gated(p):
    return any(progen.needs_gate(progen.instantiate(p.get(k) or "")[0]) for k in ("src", "go", "pre"))


def emit_split(feature, progs):
    """Programs that only the unstable attributes on statements and expressions make possible go to a part of their own."""
    g = [p for p in progs if gated(p)]
    u = [p for p in progs if not gated(p)]
    emit(feature, u)
    if g:
        emit(feature + "-gated", g)
    return [feature] + [feature + ",gated"] * bool(g)


def emit(feature, progs, per_group=2, unwind=11):
    """progs: list of dicts(src, go, markers[, name])."""
    out = ["// generated by bin/gencorpus.py\n"]
    names = []
    for gi in range(0, len(progs), per_group):
        part = progs[gi:gi + per_group]
        g = f"g{gi // per_group:03}"
        names.append(g)
        ps = [p.get("name") or f"p{gi + j:03}" for j, p in enumerate(part)]
        out.append(f"pub mod {g} {{\n use crate::group;\n")
        for nm, p in zip(ps, part):
            out.append(emit_program(nm, p))
        out.append(f" group!({unwind}: {' '.join(ps)});\n}}\n")
    tab = ", ".join(f'("{g}", {g}::run as fn(&[u8; crate::support::NB]))' for g in names)
    out.append(f"#[cfg(not(kani))]\npub const TABLE: &[(&str, fn(&[u8; crate::support::NB]))] = &[{tab}];\n")
    write(f"{GEN}/{feature}.rs", "".join(out))
    return len(progs)


if __name__ == "__main__":
    for f in sys.argv[1:]:
        print(f, (emit_split if f in programs.SPLIT else emit)(f, programs.corpus(f, os.environ.get("VERIF_TIER", "quick"), 1)))
