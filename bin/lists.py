"""C12: lists of traits for #[enum_derive] / #[auto_enum], with the set of traits the result must implement."""
import random

# name -> (probe / use name, bit, spellings, standard-library supertraits that the derive must add by itself)
T = {}


def _t(name, key, bit, sp=None, deps=(), use=True):
    T[name] = dict(key=key, bit=bit, sp=sp or [name], deps=deps, use=use)


_t("Iterator", "iterator", 0)
_t("DoubleEndedIterator", "double_ended", 1, deps=["Iterator"])
_t("ExactSizeIterator", "exact_size", 2, deps=["Iterator"])
_t("FusedIterator", "fused", 3, deps=["Iterator"], use=False)
_t("TrustedLen", "trusted_len", 4, deps=["Iterator"], use=False)
_t("Extend", "extend", 5)
_t("Debug", "debug", 6, ["Debug", "fmt::Debug"])
_t("Display", "display", 7, ["Display", "fmt::Display"])
for i, n in enumerate(("Binary", "Octal", "LowerHex", "UpperHex", "LowerExp", "UpperExp", "Pointer")):
    _t(n, ("binary", "octal", "lower_hex", "upper_hex", "lower_exp", "upper_exp", "pointer")[i], 8 + i, ["fmt::" + n])
_t("fmt::Write", "fmt_write", 15)
_t("Error", "error", 16, ["Error", "error::Error"], deps=["Debug", "Display"], use=False)
_t("Deref", "deref", 17)
_t("DerefMut", "deref_mut", 18, deps=["Deref"])
_t("Index", "index", 19)
_t("IndexMut", "index_mut", 20, deps=["Index"])
_t("RangeBounds", "range_bounds", 21)
_t("AsRef", "as_ref_", 22)
_t("AsMut", "as_mut_", 23)
_t("FnOnce", "fn_once", 24, use=False)
_t("FnMut", "fn_mut", 25, deps=["FnOnce"])
_t("Fn", "fn_", 26, deps=["FnMut", "FnOnce"])
_t("Coroutine", "coroutine", 27)
_t("Future", "future", 28)
_t("Read", "read", 29, ["Read", "io::Read"])
_t("BufRead", "buf_read", 30, ["BufRead", "io::BufRead"], deps=["Read"])
_t("Write", "write", 31, ["Write", "io::Write"])
_t("Seek", "seek", 32, ["Seek", "io::Seek"])
# not known to the macro: handed to #[derive], where path-qualified names work as well
_t("Clone", "clone_", 33, ["Clone", "std::clone::Clone", "::core::clone::Clone"])
_t("Copy", "copy", 34, ["Copy", "core::marker::Copy"], deps=["Clone"], use=False)
_t("PartialEq", "partial_eq", 35, ["PartialEq", "::std::cmp::PartialEq"])
_t("Eq", "eq_", 36, ["Eq", "std::cmp::Eq"], deps=["PartialEq"], use=False)
_t("PartialOrd", "partial_ord", 37, ["PartialOrd", "core::cmp::PartialOrd"], deps=["PartialEq"])
_t("Ord", "ord", 38, ["Ord", "core::cmp::Ord"], deps=["PartialOrd", "Eq", "PartialEq"], use=False)
_t("Hash", "hash", 39, ["Hash", "std::hash::Hash"], use=False)
STD = ("Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash")
# traits with parameters are derived for payloads that are type parameters only (derive_utils adds no bounds for others)
GENERIC = ("Extend", "Index", "IndexMut", "RangeBounds", "AsRef", "AsMut", "FnOnce", "FnMut", "Fn", "Coroutine")
USES = "use core::{fmt, error::{self, Error}}; use std::io; use crate::c12s::{u, za as z}; use crate::c12s::mask_a as mask;"
CLUSTERS = [
    ["Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator", "TrustedLen", "Extend"],
    ["Read", "BufRead", "Write", "Seek"], ["Debug", "Display", "Error", "fmt::Write"], ["Deref", "DerefMut"], ["Index", "IndexMut"],
    ["FnOnce", "FnMut", "Fn"], ["AsRef", "AsMut"], ["Binary", "Octal"], ["LowerHex", "UpperHex"], ["LowerExp", "UpperExp", "Pointer"],
]


# the traits of other crates, by the part of kani/ext they can be used in together (bit numbers of their own);
# `ask`: supertraits the list has to name itself (known finding)
X = {}


def _x(part, name, key, bit, deps=(), ask=(), generic=False):
    X.setdefault(part, {})[name] = dict(key=key, bit=bit, sp=[name], deps=list(deps) + list(ask), ask=ask, use=True, x=True, generic=generic)


for i, (n, k) in enumerate((("Stream", "stream"), ("Sink", "sink"), ("AsyncRead", "fut_read"), ("AsyncWrite", "fut_write"), ("AsyncSeek", "fut_seek"), ("AsyncBufRead", "fut_buf"))):
    _x("x1", "futures03::" + n, k, i, ask=["futures03::AsyncRead"] * (n == "AsyncBufRead"), generic=n == "Sink" or n == "Stream")
for part, cr in (("x1", "tokio1"), ("x2", "tokio03"), ("x3", "tokio02")):
    for i, (n, k) in enumerate((("AsyncRead", "tokio_read"), ("AsyncWrite", "tokio_write"), ("AsyncSeek", "tokio_seek"), ("AsyncBufRead", "tokio_buf"))):
        _x(part, f"{cr}::{n}", k, 6 + i, ask=[cr + "::AsyncRead"] * (n == "AsyncBufRead"))
_x("x1", "rayon::ParallelIterator", "par_iter", 10)
_x("x1", "rayon::IndexedParallelIterator", "par_indexed", 11, deps=["rayon::ParallelIterator"])
_x("x1", "rayon::ParallelExtend", "par_extend", 12, generic=True)
_x("x1", "serde::Serialize", "serialize", 13)
_x("x1", "http_body1::Body", "body", 14, generic=True)
for i, (n, k) in enumerate((("futures01::Future", "f1_future"), ("futures01::Stream", "f1_stream"), ("futures01::Sink", "f1_sink"))):
    _x("x4", n, k, i)
_x("x4", "tokio01::AsyncRead", "t1_read", 3, ask=["Read"])
_x("x4", "tokio01::AsyncWrite", "t1_write", 4, ask=["Write"])
# std traits that share a last path segment, a family or a method name with them
NEAR = dict(x1=["Iterator", "ExactSizeIterator", "Extend", "Future", "Read", "BufRead", "Write", "Seek", "fmt::Write", "Clone", "Debug"],
            x2=["Read", "BufRead", "Write", "Seek", "Future", "fmt::Write", "Copy", "Clone"], x3=["Read", "BufRead", "Write", "Seek", "Future", "fmt::Write", "Hash"],
            x4=["Read", "BufRead", "Write", "Future", "Iterator", "fmt::Write", "Debug"])
USES_X = "use core::{fmt, error::{self, Error}}; use std::io; use crate::xs::u; use crate::c12s::za as z; use crate::c12s::mask_a as mask; use crate::xs::mask_x;"
RUSES_X = USES_X.replace("za as z", "zr as z").replace(" use crate::c12s::mask_a as mask;", "").replace(" use crate::xs::mask_x;", "")


def closure(names, tab=T):
    s = set(names)
    while True:
        n = s | {d for x in s for d in tab[x]["deps"]}
        if n == s:
            return s
        s = n


def program(listed, other="", via="enum", tab=T):
    """listed: [(name, spelling)]; other: traits of an ordinary #[derive] beside it."""
    T = tab
    if via == "concrete" and any(n in GENERIC or T[n].get("generic") for n, _ in listed):
        via = "enum"
    have = closure([n for n, _ in listed] + [o.strip() for o in other.split(",") if o.strip()], T)
    mask = sum(1 << T[n]["bit"] for n in have if not T[n].get("x"))
    xm, xr = "", ""
    if any(t.get("x") for t in T.values()):
        xm = "ev(mask_x!(e) as u32); "
        xr = "ev(%d); " % sum(1 << T[n]["bit"] for n in have if T[n].get("x"))
    args = ", ".join(s for _, s in listed)
    uses = [T[n]["key"] for n in T if n in have and T[n]["use"] and (n != "PartialEq" or "Clone" in have)]
    most = 3 if any(t.get("x") for t in T.values()) else 7
    if len(uses) > most:
        uses = random.Random(args + via).sample(uses, most)
    body = "".join(f"h = h.rotate_left(7) ^ u::{k}(&mut e) as u64; " for k in uses)
    dv = f"#[derive({other})] " if other else ""
    if via == "enum":
        src = f"#[enum_derive({args})] {dv}pub enum E<A, B> {{ X(A), Y(B) }}"
        mk = "let mut e = if c() { E::X(z::<1>()) } else { E::Y(z::<2>()) };"
    elif via == "concrete":
        src = f"{dv}#[enum_derive({args},)] enum E {{ X(crate::c12s::Z<1>), Y(crate::c12s::Z<2>), V(crate::c12s::Z<3>) }}"
        mk = "let mut e = match n() { 0 => E::X(z::<1>()), 1 => E::Y(z::<2>()), _ => E::V(z::<3>()) };"
    else:
        src = ""
        mk = f"#[auto_enum({args})] let mut e = match n() {{ 0 => z::<1>(), 1 => z::<2>(), _ => z::<3>() }};"
    a = f"{{ {mk} let m: u64 = mask!(e); {xm}let mut h = 5u64; {body} h ^ (m << 20) }}"
    rmk = "if c() { z::<1>() } else { z::<2>() }" if via == "enum" else "match n() { 0 => z::<1>(), 1 => z::<2>(), _ => z::<3>() }"
    r = f"{{ let mut e = {rmk}; let m: u64 = {mask}; {xr}let mut h = 5u64; {body} h ^ (m << 20) }}"
    if xm:
        return dict(src=src, go=a, ref="", rgo=r, pre=USES_X, rpre=RUSES_X, markers=set(), sites=3, list=args)
    return dict(src=src, go=a, ref="", rgo=r, pre=USES, rpre=USES.replace("za as z", "zr as z").replace(" use crate::c12s::mask_a as mask;", ""),
                markers=set(), sites=3, list=args)


def ok(names):
    """Lists the property is about: the supertraits of ordinary derives are for the user to list (known finding)."""
    s = set(names)
    return all(d in s for n in s if n in STD for d in T[n]["deps"])


def corpus(tier, seed):
    rng = random.Random(f"c12-{seed}")
    res = []
    sp = lambda n: (n, rng.choice(T[n]["sp"]))
    for n in T:
        for s in T[n]["sp"]:
            names = [n] + [d for d in sorted(closure([n])) if d != n and n in STD]
            res.append(program([(n, s)] + [sp(d) for d in names[1:]]))
    # ordered pairs of the traits that share a supertrait or are each other's supertrait, in every spelling
    for cl in CLUSTERS:
        for a in cl:
            for b in cl:
                if a != b:
                    for s1 in T[a]["sp"]:
                        for s2 in T[b]["sp"]:
                            res.append(program([(a, s1), (b, s2)], via=rng.choice(["enum", "enum", "concrete", "auto"])))
    for cl in CLUSTERS:
        if len(cl) > 2:
            for _ in range(14):
                k = rng.randint(3, len(cl))
                res.append(program([sp(n) for n in rng.sample(cl, k)], via=rng.choice(["enum", "concrete", "auto"])))
    # equivalent spellings in one list
    for n in ("Debug", "Display", "Read", "BufRead", "Write", "Seek", "Error"):
        a, b = T[n]["sp"]
        res += [program([(n, a), (n, b)]), program([(n, b), (n, a)])]
    # every order of the ordinary derives
    for _ in range(24):
        ns = rng.sample(STD, rng.randint(1, 7))
        ns = sorted(closure(ns))
        ns.sort(key=lambda _: rng.random())
        res.append(program([sp(n) for n in ns], via=rng.choice(["enum", "concrete", "auto"])))
    # mixed lists
    for _ in range(60 if tier == "quick" else 400):
        ns = rng.sample(list(T), rng.choice([2, 3, 3, 4, 5, 6, 8, 12, 20]))
        other = ""
        if rng.random() < .3:
            other = "Clone"
            ns = [n for n in ns if n != "Clone"]
        if not ok(ns + [other] * bool(other)):
            ns = [n for n in sorted(closure(ns), key=lambda _: rng.random()) if n != other]
        if ns:
            res.append(program([sp(n) for n in ns], other, via=rng.choice(["enum", "concrete"] if other else ["enum", "concrete", "auto"])))
    # everything at once
    for _ in range(4):
        ns = sorted(T, key=lambda _: rng.random())
        res.append(program([sp(n) for n in ns]))
    seen, out = set(), []
    for p in res:
        k = (p["list"], p["src"])
        if k not in seen:
            seen.add(k)
            out.append(p)
    return out


def corpus_x(part, tier, seed):
    """Lists with the traits of other crates."""
    rng = random.Random(f"c12-{part}-{seed}")
    near = {n: T[n] for n in closure(NEAR[part])}
    tab = {**near, **X[part]}
    sp = lambda n: (n, rng.choice(tab[n]["sp"]))
    vias = ["enum", "enum", "concrete", "auto"]

    def add(ns, ordered=False, other=""):
        ns = list(ns)
        # supertraits the user has to list, in any place
        while True:
            miss = [d for n in ns for d in tab[n].get("ask", tab[n]["deps"] if n in STD else ()) if d not in ns and d != other]
            if not miss:
                break
            ns.insert(rng.randint(0, len(ns)), miss[0])
        if not ordered:
            rng.shuffle(ns)
        via = rng.choice(vias)
        res.append(program([sp(n) for n in ns], other, via="enum" if other and via == "auto" else via, tab=tab))

    res = []
    xs = list(X[part])
    for n in xs:
        add([n])
    for a in xs:
        for b in xs:
            if a != b and (part != "x1" or rng.random() < (1 if a.split("::")[0] == b.split("::")[0] or a.split("::")[1] == b.split("::")[1] else .15)):
                add([a, b], True)
        # the std trait its name could be taken for
        for b in near:
            if b.split("::")[-1].lower() in a.lower() or rng.random() < (.1 if tier == "quick" else 1):
                add(rng.sample([a, b], 2), True)
    for _ in range(12 if tier == "quick" else 200):
        k = rng.choice([2, 3, 3, 4, 6, 8])
        add(rng.sample(list(tab), min(k, len(tab))))
    for _ in range(2):
        add(list(tab))
    seen, out = set(), []
    for p in res:
        k = (p["list"], p["src"])
        if k not in seen:
            seen.add(k)
            out.append(p)
    return out


def few(part):
    """Lists whose supertraits from other crates are left out (see known-findings.txt)."""
    return [n for n, t in X[part].items() if t["ask"]]


def few_source(part):
    return "use auto_enums::enum_derive;\n" + "".join(f"mod k{i} {{ use super::*; #[enum_derive({n})] pub enum E<A, B> {{ X(A), Y(B) }} }}\n"
                                                      for i, n in enumerate(few(part)))


# lists that leave out a supertrait of an ordinary derive (see known-findings.txt)
DROPPED = ("Copy", "Eq", "PartialOrd", "Ord")


def dropped_source():
    """One line per list, so that an error is attributed by its line."""
    return "use auto_enums::enum_derive;\n" + "".join(f"mod k{i} {{ use super::*; #[enum_derive({n})] pub enum E<A, B> {{ X(A), Y(B) }} }}\n"
                                                      for i, n in enumerate(DROPPED))
