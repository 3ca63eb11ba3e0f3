"""C11: programs about pinned enums. Accepting ones and attacks (which must be rejected or be harmless)."""
import os
import random
import re

V = "/verif"
W = "with(|cx| { %s })"
R = "x.poll_fill_buf(cx).is_pending();"
# trait as written in the list -> a call on `x: Pin<&mut E>`
P1 = {
    "Future": W % "core::future::Future::poll(x, cx);",
    "Coroutine": "core::ops::Coroutine::resume(x, 3u32);",
    "futures03::Stream": W % "futures::stream::Stream::poll_next(x, cx);",
    "futures03::Sink": W % "futures::sink::Sink::<u32>::poll_ready(x, cx);",
    "futures03::AsyncRead": W % "futures::io::AsyncRead::poll_read(x, cx, &mut []);",
    "futures03::AsyncWrite": W % "futures::io::AsyncWrite::poll_write(x, cx, &[]);",
    "futures03::AsyncSeek": W % "futures::io::AsyncSeek::poll_seek(x, cx, std::io::SeekFrom::Start(1));",
    "futures03::AsyncBufRead": W % "futures::io::AsyncBufRead::poll_fill_buf(x, cx);",
    "tokio1::AsyncRead": W % "tokio::io::AsyncRead::poll_read(x, cx, &mut tokio::io::ReadBuf::new(&mut []));",
    "tokio1::AsyncWrite": W % "tokio::io::AsyncWrite::poll_write(x, cx, &[]);",
    "tokio1::AsyncSeek": "tokio::io::AsyncSeek::start_seek(x, std::io::SeekFrom::Start(1));",
    "tokio1::AsyncBufRead": W % "tokio::io::AsyncBufRead::poll_fill_buf(x, cx);",
    "http_body1::Body": W % "http_body::Body::poll_frame(x, cx);",
}
P2 = {k.replace("tokio1", "tokio03"): v for k, v in P1.items() if k.startswith("tokio1")}
P3 = {k.replace("tokio1", "tokio02"): v for k, v in P1.items() if k.startswith("tokio1")}
P3["tokio02::AsyncRead"] = W % "tokio::io::AsyncRead::poll_read(x, cx, &mut []);"
P3["tokio02::AsyncSeek"] = W % "tokio::io::AsyncSeek::start_seek(x, cx, std::io::SeekFrom::Start(1));"
PARTS = {"p1": P1, "p2": P2, "p3": P3}
# by-value item types make these derivable for payloads that are type parameters only
GENERIC = ("Coroutine", "futures03::Sink", "http_body1::Body", "futures03::Stream")
COMPANIONS = ["Debug", "Display", "Iterator", "DoubleEndedIterator", "Read", "io::Write", "Deref"]
NOPIN = {"p1": ["Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator", "TrustedLen", "Extend", "Debug", "Display", "fmt::Binary",
                "fmt::Octal", "fmt::LowerHex", "fmt::UpperHex", "fmt::LowerExp", "fmt::UpperExp", "fmt::Pointer", "fmt::Write", "Error", "Deref",
                "DerefMut", "Index", "IndexMut", "RangeBounds", "AsRef", "AsMut", "FnOnce", "FnMut", "Fn", "io::Read", "io::BufRead",
                "io::Write", "io::Seek", "rayon::ParallelIterator", "rayon::IndexedParallelIterator", "rayon::ParallelExtend",
                "serde::Serialize", "Clone"], "p2": [], "p3": []}
BY_VALUE = ("Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator", "TrustedLen", "FnOnce", "FnMut", "Fn", "rayon::ParallelIterator", "rayon::IndexedParallelIterator")
# declaration shapes: generics, header arguments, variants
SHAPES = {
    "g2": ("A, B", "A, B", [("X", "A"), ("Y", "B")], ""),
    "g1": ("A", "A", [("X", "A")], ""),
    "g4": ("A, B, C, D", "A, B, C, D", [("X", "A"), ("Y", "B"), ("V", "C"), ("Z", "D")], ""),
    "dup": ("A, B", "A, B", [("X", "A"), ("Y", "B"), ("V", "A")], ""),
    "bnd": ("A: Mk, B, const C: usize", "A, B, C", [("X", "A"), ("Y", "B")], "where B: Mk + Sized"),
    "mix": ("A", "A", [("X", "A"), ("Y", "U<2>")], ""),
    "box": ("A, B", "A, B", [("X", "A"), ("Y", "Pin<Box<B>>")], ""),
    "conc": ("", "", [("X", "U<1>"), ("Y", "U<2>")], ""),
}


def close(ts, rng):
    """AsyncBufRead has AsyncRead as its supertrait, which is for the user to list."""
    ts = list(ts)
    for t in ts[:]:
        r = t.replace("BufRead", "Read")
        if t.endswith("AsyncBufRead") and r not in ts:
            ts.insert(rng.randint(0, len(ts)), r)
    return tuple(ts)


def own_read(t, shape):
    """AsyncBufRead alone, its supertrait implemented by the user."""
    g, h, vs, wh = SHAPES[shape]
    m = "futures::io" if t.startswith("futures") else "tokio::io"
    buf, n = ("ReadBuf<'_>", "()") if t.startswith(("tokio1", "tokio03")) else ("[u8]", "usize")
    buf = buf.replace("ReadBuf", "tokio::io::ReadBuf")
    return (f"impl<{g}> {m}::AsyncRead for E<{h}> {wh} {{ fn poll_read(self: Pin<&mut Self>, _: &mut core::task::Context<'_>, _: &mut {buf}) "
            f"-> core::task::Poll<io::Result<{n}>> {{ core::task::Poll::Pending }} }}")


def shapes_for(traits):
    s = list(SHAPES)
    if any(t in GENERIC for t in traits):
        s = [x for x in s if x not in ("mix", "conc", "box")]
    if traits != ("Future",):
        s = [x for x in s if x != "box"]
    return s


def decl(args, shape, bounds=None, attrs=""):
    g, h, vs, wh = SHAPES[shape]
    if bounds:
        g = ", ".join(f"{p}: {bounds}" if ":" not in p and "'" not in p else p + f" + {bounds}" if p[0] in "ABCD" and p[1] == ":" else p for p in g.split(", "))
    body = ", ".join(f"{v}({t})" for v, t in vs)
    return f"#[enum_derive({args})] {attrs} pub enum E{'<' + g + '>' if g else ''} {wh} {{ {body} }}"


def inst(shape, tys):
    """Type with its parameters replaced, and the payload type per variant."""
    g, h, vs, wh = SHAPES[shape]
    ps = [p for p in h.split(", ") if p in ("A", "B", "C", "D")] if shape != "bnd" else ["A", "B"]
    m = dict(zip(ps, tys))
    sub = lambda t: re.sub(r"\b[ABCD]\b", lambda k: m.get(k.group(0), k.group(0)), t)
    if shape == "bnd":
        ty = f"E<{m['A']}, {m['B']}, 3>"
    else:
        ty = "E" + (f"<{', '.join(m[p] for p in ps)}>" if ps else "")
    return ty, [(v, sub(t)) for v, t in vs]


def combos(shape, tier="quick"):
    g, h, vs, wh = SHAPES[shape]
    k = dict(g2=2, g1=1, g4=4, dup=2, bnd=2, mix=1, box=2, conc=0)[shape]
    if k == 4:
        pats = ["UUUU", "UUQN", "NUUU", "UNUU", "UUNU", "UUUN", "QUNU", "NNNN", "UUUQ"]
    elif k == 2:
        pats = ["UU", "NU", "UN", "QN", "NN", "QU", "UQ"] if tier != "quick" else ["UU", "NU", "UN", "QN"]
    elif k == 1:
        pats = ["N", "U", "Q"]
    else:
        pats = [""]
    for p in pats:
        ts = [{"N": f"N<{i}>", "U": f"U<{i}>", "Q": f"Q<Never, {i}>"}[c] for i, c in enumerate(p, 1)]
        yield p, ts


def value(ty, variants):
    arms = ", ".join(f"{i if i + 1 < len(variants) else '_'} => E::{v}({'Box::pin(mk::<%s>())' % t[8:-2] if t.startswith('Pin<') else 'mk::<%s>()' % t})"
                     for i, (v, t) in enumerate(variants))
    return f"{{ let e: {ty} = match n() {{ {arms} }}; e }}"


def exercise(shape, call, ts):
    ty, vs = inst(shape, ts)
    unpin = all(not t.startswith(("N<", "Q<")) for _, t in vs)
    return f"pinned!({value(ty, vs)}, {value(ty, vs)}, {str(unpin).lower()}, |x| {{ {call} }});"


def generic_unpin(shape):
    """For every Unpin payload, not only those at hand."""
    g, h, vs, wh = SHAPES[shape]
    if not g:
        return ""
    if shape == "bnd":
        return "pub fn all<A: Unpin + Mk, B: Unpin + Mk>() { need_unpin::<E<A, B, 5>>() }"
    gg = ", ".join(p + (": Unpin" if shape != "box" or p == "A" else "") for p in g.split(", "))
    return f"pub fn all<{gg}>() {{ need_unpin::<E<{h}>>() }}"


def accepting(part, tier, seed):
    """-> [(name, module body)]"""
    traits = PARTS[part]
    rng = random.Random(f"c11-{part}-{seed}")
    res = []
    lists = [(t,) for t in traits]
    names = list(traits)
    comp = [c for c in COMPANIONS if part == "p1" or c != "x"]
    for _ in range((16 if part == "p1" else 6) if tier == "quick" else 120):
        k = rng.randint(1, min(4, len(names)))
        l = rng.sample(names, k) + rng.sample(comp, rng.randint(0, 3))
        rng.shuffle(l)
        lists.append(tuple(l))
    lists = [close(l, rng) for l in lists]
    for ts in lists:
        pin = [t for t in ts if t in traits]
        sh = shapes_for(ts)
        if len(ts) > 1 and not ts == close(ts[:1], rng):
            sh = [x for x in sh if x in ("g2", "bnd")]
        for s in sh:
            body = "".join(exercise(s, traits[rng.choice(pin)], c) + " " for _, c in list(combos(s, tier))[:3 if len(ts) > 2 or tier == "quick" and s == "g4" else 9])
            res.append(f"use super::*; {decl(', '.join(ts), s)} {generic_unpin(s)} pub fn go() {{ {body} }}")
    for t in traits:
        if t.endswith("AsyncBufRead"):
            for s in ("g2", "bnd"):
                body = "".join(exercise(s, traits[t], c) + " " for _, c in list(combos(s, tier))[:3])
                res.append(f"use super::*; {decl(t, s)} {own_read(t, s)} {generic_unpin(s)} pub fn go() {{ {body} }}")
    # derives without pin projection leave Drop and Unpin to the user (Drop: unless a method takes the payload out)
    for t in NOPIN[part]:
        drop = t not in BY_VALUE
        res.append(f"use super::*; {decl(t, 'g2')} impl<A, B> Unpin for E<A, B> {{}} "
                   + ("static mut DR: u32 = 0; impl<A, B> Drop for E<A, B> { fn drop(&mut self) { unsafe { DR += 1 } } } " if drop else "")
                   + "pub fn go() { let d0 = drops(); " + ("unsafe { DR = 0 } " if drop else "")
                   + "{ let e: E<N<1>, U<2>> = if c() { E::X(mk()) } else { E::Y(mk()) }; assert!(of(&e).unpin(), \"the user's own Unpin impl\"); } "
                   + ("assert!(unsafe { DR } == 1, \"the user's Drop runs once\"); " if drop else "")
                   + "assert!(drops() == d0 + 1, \"the payload is dropped once\"); }")
    # results of #[auto_enum]: the enum cannot be named, its auto traits are visible
    if part == "p1":
        for ts, un in (("N<1>", "N<2>"), False), (("U<1>", "N<2>"), False), (("N<1>", "U<2>"), False), (("U<1>", "U<2>"), True):
            for tr, ret, call in (("Future", "impl core::future::Future<Output = u32>", P1["Future"]),
                                  ("futures03::Stream", "impl futures::stream::Stream<Item = u32>", P1["futures03::Stream"])):
                res.append(f"use super::*; #[auto_enum({tr})] fn f() -> {ret} {{ if c() {{ mk::<{ts[0]}>() }} else if c() {{ mk::<{ts[1]}>() }} else {{ mk::<U<9>>() }} }} "
                           f"pub fn go() {{ pinned!(f(), f(), {str(un).lower()}, |x| {{ {call} }}); }}")
    return res


DROP_TAKE = "{ fn drop(&mut self) { match self { %s } } }"


def drop_body(shape):
    return DROP_TAKE % " ".join(f"E::{v}(x) => x.steal()," for v, _ in SHAPES[shape][2])


def attacks(part, tier, seed):
    """-> [(key, list, module body)]: programs in which safe code tries to move a pinned payload."""
    traits = PARTS[part]
    rng = random.Random(f"c11a-{part}-{seed}")
    lists = [(t,) for t in traits]
    names = list(traits)
    for t in names:
        for _ in range(2 if tier == "quick" else 6):
            l = [t] + rng.sample([c for c in COMPANIONS if "Iterator" not in c], rng.randint(1, 2)) + (rng.sample([x for x in names if x != t], rng.randint(0, 2)))
            rng.shuffle(l)
            lists.append(tuple(l))
    lists = [close(l, rng) for l in lists]
    res = []

    def add(key, ts, text, shape, tys, call):
        ty, vs = inst(shape, tys)
        go = f"pub fn go() {{ pinned!({value(ty, vs)}, {value(ty, vs)}, of(&{value(ty, vs)}).unpin(), |x| {{ {call} }}); }}"
        res.append((key, ", ".join(ts), f"use super::*; {text} {go}"))

    for ts in lists + [(t,) for t in names if t.endswith("AsyncBufRead")]:
        call = traits[[t for t in ts if t in traits][0]]
        alone = len(ts) == 1 and ts[0].endswith("AsyncBufRead")
        for shape in ("g2", "g1", "g4", "dup", "bnd"):
            if len(ts) > 1 and shape not in ("g2", "bnd"):
                continue
            g, h, vs, wh = SHAPES[shape]
            n = dict(g2=2, g1=1, g4=4, dup=2, bnd=2)[shape]
            ns = [f"N<{i}>" for i in range(1, n + 1)]
            qs = [f"Q<Never, {i}>" for i in range(1, n + 1)]
            args = ", ".join(ts)
            d = decl(args, shape)
            if alone:
                d += own_read(ts[0], shape)
            nty, _ = inst(shape, ns)
            qty, _ = inst(shape, qs)
            add("unpin-generic", ts, f"{d} impl<{g}> Unpin for E<{h}> {wh} {{}}", shape, ns, call)
            add("unpin-instance", ts, f"{d} impl Unpin for {nty} {{}}", shape, ns, call)
            add("unpin-local", ts, f"{d} impl Unpin for {qty} {{}}", shape, qs, call)
            if shape == "g2":
                add("unpin-bounded", ts, f"{d} impl<A: Mk, B: Mk> Unpin for E<A, B> {{}}", shape, ns, call)
                add("unpin-partial", ts, f"{d} impl<B> Unpin for E<N<1>, B> {{}}", shape, ns, call)
                add("unpin-where", ts, f"{d} impl<A, B> Unpin for E<A, B> where (A, B): Copy2 {{}} pub trait Copy2 {{}} impl<A, B> Copy2 for (A, B) {{}}", shape, ns, call)
            if alone:
                continue
            db = decl(args, shape, bounds="Steal")
            dg = re.match(r".*?pub enum E<(.*?)> ", db).group(1)
            add("drop", ts, f"{db} impl<{dg}> Drop for E<{h}> {wh} {drop_body(shape)}", shape, ns, call)
        if not alone and not any(t in GENERIC for t in ts):
            # with concrete payloads there is nothing to move, but the impls must still be the macro's
            res.append(("drop-concrete", ", ".join(ts), f"use super::*; {decl(', '.join(ts), 'mix', bounds='Steal')} impl<A: Steal> Drop for E<A> {drop_body('mix')} "
                        + "pub fn go() { " + exercise("mix", call, ["N<1>"]) + " }"))
    return res


HEAD = "use crate::support::*; use crate::{harness, pinned}; use auto_enums::{auto_enum, enum_derive}; use core::pin::Pin; use core::fmt; use std::io;\n"


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def emit(part, tier, seed, per=4):
    mods = accepting(part, tier, seed)
    out, names = [HEAD], []
    for gi in range(0, len(mods), per):
        g = f"g{gi // per:03}"
        names.append(g)
        ms = mods[gi:gi + per]
        out.append(f"pub mod {g} {{ use super::*;\n" + "".join(f"pub mod m{j} {{ {m} }}\n" for j, m in enumerate(ms))
                   + f"harness!({' '.join('m%d' % j for j in range(len(ms)))});\n}}\n")
    out.append(table(names))
    write(f"{V}/build/gen/pin-{part}.rs", "".join(out))
    return len(mods)


def table(names):
    return ("#[cfg(not(kani))]\npub const TABLE: &[(&str, fn(&[u8; NB]))] = &["
            + ", ".join(f'("{g}", {g}::run as fn(&[u8; NB]))' for g in names) + "];\n")


def emit_attacks(part, atks):
    """One attack per line: line number = index + 2."""
    out = [HEAD]
    for i, (_, _, m) in atks:
        out.append(f"pub mod k{i} {{ use super::*; pub mod m {{ {m} }} harness!(m); }}\n")
    out.append(table([f"k{i}" for i, _ in atks]))
    write(f"{V}/build/gen/atk-{part}.rs", "".join(out))


if __name__ == "__main__":
    for p in PARTS:
        a = attacks(p, "quick", 1)
        print(p, emit(p, "quick", 1), len(a))
        emit_attacks(p, list(enumerate(a)))

