"""C18: programs whose result sites are told apart by their variants (build/gen/c18.rs), and programs with too few results."""
import os, random, re
import gencorpus, hand, progen

V = "/verif"
R = "impl Iterator<Item = u32>"
NOT_THE_ENUM = (".map(", ".chain(", ".take(", ".skip(", ".filter(", "child", "S.f", "eat(", "macro_rules", ".zip(", ".by_ref(", "Box<dyn")


def many(n, at="Iterator"):
    arms = " ".join(f"{i} => t::<{i + 1}>(v())," for i in range(n - 1))
    return f"#[auto_enum({at})] fn f() -> {R} {{ let k = (n() as u32) + 4 * (n() as u32) + 16 * (n() as u32) + 64 * (n() as u32); match k {{ {arms} _ => t::<{n}>(v()) }} }}"


def hand_written():
    """Programs of the other corpora whose value is the enum itself and which have one enum."""
    res = []
    for f in ("C13", "C14", "C15", "C16", "C17"):
        for i, p in enumerate(getattr(hand, f)):
            s = p["src"]
            if p["go"] != "obs(f())" or "ref" in p or p.get("pre") or s.count("auto_enum(") != 1 or any(x in s for x in NOT_THE_ENUM):
                continue
            ks = [int(k) for k in re.findall(r"\bt::<(\d+)>", s)]
            # every site has a number of its own, except where one expression has one site
            if len(ks) < 2 or len(ks) != len(set(ks)):
                continue
            res.append(dict(src=s, markers=p["markers"], n=len(ks), look="look(&f())"))
    for n in (2, 9, 16, 17, 18, 33, 40, 70):
        res.append(dict(src=many(n), markers=set(), n=n, look="look(&f())"))
    A = lambda k: f"t::<{k}>(v())"
    add = lambda src, n, look="look(&f())": res.append(dict(src=src, markers={"marker", "mk"}, n=n, look=look))
    # the same text at several sites
    same = "{ ev(1); " + A(1) + " }"
    add(f"#[auto_enum(Iterator)] fn f() -> {R} {{ let q = v(); match n() {{ 0 => s(1, q), 1 => s(2, q), 2 if c() => s(3, q), _ => s(4, q) }} }}", 4)
    add(f"#[auto_enum(Iterator)] fn f() -> {R} {{ let k = n(); match k {{ 0 => s(k as u32, 7), 1 => s(k as u32, 7), 2 => s(k as u32, 7), _ => s(k as u32, 7) }} }}", 4)
    add(f"#[auto_enum(Iterator)] fn f() -> {R} {{ let k = n(); if k == 0 {{ s(k as u32, 7) }} else if k == 1 {{ s(k as u32, 7) }} else if k == 2 {{ s(k as u32, 7) }} else {{ s(k as u32, 7) }} }}", 4)
    add(f"#[auto_enum(Iterator)] fn f() -> {R} {{ let mut k = 0; if c() {{ return s(k, 7); }} k += 1; if c() {{ return s(k, 7); }} k += 1; loop {{ if c() {{ break s(k, 7); }} k += 1; if c() {{ break s(k, 7); }} k += 1; return s(k, 7); }} }}", 5)
    add(f"#[auto_enum(Iterator)] fn f() -> {R} {{ let mut k = 0; let x = if c() {{ marker!(s(k, 7)) }} else {{ k += 1; marker!(s(k, 7)) }}; x }}", 2)
    add(f"#[auto_enum(Iterator)] fn f() -> {R} {{ let k = n() as u32; match k {{ 0 => s(k, 7), 1 => {{ #[nested] if k == 1 {{ s(k, 7) }} else {{ s(k, 7) }} }} _ => {{ #[nested] match k {{ 2 => s(k, 7), _ => s(k, 7) }} }} }} }}", 5)
    add(f"#[auto_enum(Iterator)] fn f() -> Result<u32, {R}> {{ let mut k = 0; q(k)?; k += 1; q(k)?; k += 1; q(k)?; k += 1; Ok(q(k)?) }}", 4, "look_r(f())")
    add(f"fn f() -> {R} {{ #[auto_enum(Iterator)] let it = {{ let k = n() as u32; match k {{ 0 => s(k, 7), 1 => s(k, 7), _ => {{ if k == 2 {{ return_(); }} #[nested] if k == 2 {{ s(k, 7) }} else {{ s(k, 7) }} }} }} }}; it }} fn return_() {{}}", 4)
    add(f"fn f() -> {R} {{ #[auto_enum(Iterator)] let h = |k: u32| {{ if k == 0 {{ return s(k, 7); }} if k == 1 {{ return s(k, 7); }} match k {{ 2 => s(k, 7), _ => s(k, 7) }} }}; h(n() as u32) }}", 4)
    # two enums in one function do not share variants
    add(f"fn f() -> ({R}, {R}) {{ let k = n() as u32; #[auto_enum(Iterator)] let a = match k {{ 0 => s(k, 7), 1 => s(k, 7), 2 => s(k, 7), _ => s(k, 7) }}; "
        f"let b = #[auto_enum(Iterator)] match k {{ 0 => s(0, 7), _ => s(1, 7) }}; (a, b) }}", 4, "look(&f().0)")
    add(f"fn f() -> ({R}, {R}) {{ let k = n() as u32; #[auto_enum(Iterator)] let a = match k {{ 0 => s(k, 7), 1 => s(k, 7), 2 => s(k, 7), _ => s(k, 7) }}; "
        f"let b = #[auto_enum(Iterator)] match k {{ 0 => s(0, 7), _ => s(1, 7) }}; (a, b) }}", 2, "look(&f().1)")
    # an outer enum around an inner one: its variants are its own
    add(f"#[auto_enum(Iterator)] fn f() -> {R} {{ let k = n() as u32; match k {{ 0 => s(k, 7), 1 => {{ #[auto_enum(Debug)] let z = match n() {{ 0 => 3u8, 1 => 4u8, _ => 'x' }}; ev(dbg(&z) as u32); s(k, 7) }} _ => {{ let k = 2; s(k, 7) }} }} }}", 3)
    add(f"#[auto_enum(Iterator, marker = mk)] fn f() -> {R} {{ let k = n() as u32; #[auto_enum(Iterator)] let a = match k {{ 0 => {{ if c() {{ return mk!(s(5, 7)); }} s(k, 7) }} _ => {{ if c() {{ return s(6, 7); }} s(k, 7) }} }}; ev(eat(a)); if c() {{ s(7, 7) }} else {{ s(8, 7) }} }}", 4)
    return res


def random_ones(tier, seed):
    n = 40 if tier == "quick" else 300
    sd = "" if seed == 1 else f"{seed}-"
    res = []
    adapt = progen.adapt
    progen.adapt = lambda g, t, p=.25: t        # the value must be the enum itself
    try:
        for i in range(n):
            kw = [dict(), dict(mkp=.6), dict(kinds=["loop", "block", "match"])][i % 3]
            p = progen.fn_program(random.Random(f"{sd}c18-{i}"), 3, forms=("fn", "fn", "let", "expr", "closure"), **kw)
            if "Option<impl" in p["src"] and "Some(#[auto_enum" in p["src"]:
                look = "look(&f().unwrap())"
            else:
                look = "look(&f())"
            res.append(dict(src=p["src"], markers=p["markers"], n=p["sites"], look=look))
        for i in range(n // 4):
            p = progen.try_program(random.Random(f"{sd}c18t-{i}"))
            res.append(dict(src=p["src"], markers=p["markers"], n=p["sites"], look="look_r(f())"))
    finally:
        progen.adapt = adapt
    return res


USES = "use crate::support::*; use auto_enums::auto_enum;"


def emit(tier, seed, per=2, unwind=11):
    progs = hand_written() + random_ones(tier, seed)
    out = ["// generated by bin/sites.py\n"]
    names = []
    for gi in range(0, len(progs), per):
        g = f"g{gi // per:03}"
        names.append(g)
        out.append(f"pub mod {g} {{\n use crate::sites;\n")
        ps = []
        for j, p in enumerate(progs[gi:gi + per]):
            m = f"p{gi + j:03}"
            ps.append(f"{m} {p['n']}")
            # every other program has results of one type, so that sharing a variant would go unnoticed by rustc
            own = "ta as t, ra as r, wa as w" if (gi + j) % 2 else "tr as t, rr as r, wr as w"
            a, _ = progen.instantiate(p["src"])
            out.append(f"pub mod {m} {{ {USES} use crate::support::{{{own}}};\n {a}\n pub fn go() -> Option<(u32, impl Eq, usize)> {{ {p['look']} }} }}\n")
        out.append(f" sites!({unwind}: {', '.join(ps)});\n}}\n")
    out.append(table(names))
    write(f"{V}/build/gen/c18.rs", "".join(out))
    return progs


def table(names):
    t = ", ".join(f'("{g}", {g}::run as fn(&[u8; crate::support::NB]))' for g in names)
    return f"#[cfg(not(kani))]\npub const TABLE: &[(&str, fn(&[u8; crate::support::NB]))] = &[{t}];\n"


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def too_few():
    """Programs with fewer than two results: [(name, function f, how to look at its value)]. All are fine Rust without the macro."""
    A, B = "t::<1>(v())", "t::<2>(v())"
    F = lambda name, body, args="Iterator": (name, f"#[auto_enum({args})] fn f() -> {R} {{ {body} }}", "look(&f())")
    L = lambda name, body: (name, f"fn f() -> {R} {{ {body} }}", "look(&f())")
    one = [
        ("match", f"match n() {{ _ => {A} }}"), ("match-panic", f"match n() {{ 77 => panic!(), _ => {A} }}"),
        ("match-unreachable", f"match n() {{ 0..=3 => {A}, _ => unreachable!() }}"),
        ("match-never", f"match n() {{ #[never] 77 => never(), _ => {A} }}"),
        ("match-block-panic", f"match n() {{ 77 => {{ ev(1); panic!(\"a\"); }} _ => {{ ev(2); {A} }} }}"),
        ("if-panic", f"if n() < 4 {{ {A} }} else {{ panic!() }}"), ("else", f"if n() > 4 {{ unreachable!(); }} else {{ {A} }}"),
        ("if-if", f"if n() > 4 {{ panic!() }} else if n() < 4 {{ {A} }} else {{ panic!() }}"),
        ("loop", f"loop {{ break {A}; }}"), ("loop-label", f"'a: loop {{ ev(1); loop {{ break 'a {A}; }} }}"),
        ("loop-cond", f"let mut i = 0; loop {{ i += 1; if i > 2 || c() {{ break {A}; }} }}"),
        ("nested", f"match n() {{ #[nested] _ => match n() {{ _ => {A} }} }}"),
        ("nested2", f"if n() > 4 {{ panic!() }} else {{ ev(1); #[nested] loop {{ break {A}; }} }}"),
        ("nested-let", f"match n() {{ 77 => panic!(), _ => {{ #[nested] let x = match n() {{ _ => {A} }}; ev(3); x }} }}"),
        ("marker", f"let x; x = marker!({A}); x"), ("marker-tail", f"marker!({A})"), ("marker-call", f"id(marker!({A}))"),
        ("block", f"{{ ev(1); unsafe {{ (match n() {{ _ => {A} }}) }} }}"),
        ("paren", f"((if n() > 4 {{ panic!() }} else {{ {A} }}))"),
        ("method", f"match n() {{ _ => {A} }}.map(|q| q ^ 3)"),
        ("inner-closure", f"let h = || -> u32 {{ if c() {{ return 3; }} 4 }}; ev(h()); match n() {{ _ => {A} }}"),
        ("inner-loop", f"ev(loop {{ if c() {{ break 3; }} break 4; }}); match n() {{ _ => {A} }}"),
        ("child", f"#[auto_enum(Iterator)] let i = if c() {{ {A} }} else {{ {B} }}; ev(eat(i)); match n() {{ _ => {A} }}"),
    ]
    res = []
    for name, b in one:
        res.append(F("fn-" + name, b))
        res.append(L("let-" + name, f"#[auto_enum(Iterator)] let it = {{ {b} }}; it"))
        if name not in ("marker-call",):
            res.append(L("expr-" + name, f"let it = #[auto_enum(Iterator)] {{ {b} }}; it"))
        res.append(L("closure-" + name, f"#[auto_enum(Iterator)] let h = || {{ {b} }}; h()"))
        res.append((f"method-{name}", f"pub struct S; impl S {{ #[auto_enum(Iterator)] pub fn f(&self) -> {R} {{ {b} }} }}", "look(&S.f())"))
        res.append(F("custom-" + name, b.replace("marker!", "mk!"), "Iterator, marker = mk"))
    res += [
        F("return", f"return {A};"), F("return-cond", f"ev(3); if true {{ return {A}; }} panic!()"),
        F("return-nested-fn", f"fn g() -> u32 {{ return 3; }} ev(g()); return {A};"),
        F("return-closure", f"let h = |x: u32| {{ if c() {{ return 4; }} x }}; ev(h(2)); return {A};"),
        F("return-loop", f"loop {{ if c() {{ return {A}; }} }}"),
        L("closure-return", f"#[auto_enum(Iterator)] let h = || {{ ev(1); return {A}; }}; h()"),
        L("closure-match", f"let h = #[auto_enum(Iterator)] |a: u32| match a {{ _ => {A} }}; h(v())"),
        L("semi", f"let x; #[auto_enum(Iterator)] {{ x = marker!({A}); }} ; x"),
        L("semi-if", f"let x; #[auto_enum(Iterator)] if n() < 4 {{ x = marker!({A}); }} else {{ panic!(); }}; x"),
        L("semi-match", f"let x; #[auto_enum(Iterator)] match n() {{ _ => {{ x = marker!({A}); }} }}; x"),
        # no result at all
        F("zero", A), F("zero-block", f"ev(1); {{ ev(2); {A} }}"), F("zero-let", f"let x = {A}; x"), F("zero-method", f"{A}.map(|q| q ^ 1)"),
        L("zero-let-stmt", f"#[auto_enum(Iterator)] let it = {A}; it"), L("zero-expr", f"let it = #[auto_enum(Iterator)] {{ ev(1); {A} }}; it"),
        L("zero-call", f"let it = id(#[auto_enum(Iterator)] {A}); it"),
        L("zero-closure", f"#[auto_enum(Iterator)] let h = || {A}; h()"), L("zero-other-marker", f"macro_rules! foo {{ ($e:expr) => {{ $e }} }} #[auto_enum(Iterator)] let it = {{ let x = pick(foo!({A}), foo!({A})); x }}; it"),
        L("zero-macro-semi", f"macro_rules! foo {{ ($e:expr) => {{ $e }} }} #[auto_enum(Iterator)] foo!(ev(1)); {A}"),
        L("zero-macro-brace", f"macro_rules! foo {{ ($e:expr) => {{ $e }} }} #[auto_enum(Iterator)] foo! {{ ev(1) }} {A}"),
        L("zero-macro-own", f"macro_rules! mk {{ ($e:expr) => {{ $e }} }} let x; #[auto_enum(Iterator, marker = mk)] mk! {{ {{ x = {A}; }} }} x"),
        F("zero-default-marker", f"macro_rules! marker {{ ($e:expr) => {{ $e }} }} let x = pick(marker!({A}), marker!({A})); x", "Iterator, marker = mk"),
        # `?` only from the second one on
        ("try-one", f"#[auto_enum(Iterator)] fn f() -> Result<u32, {R}> {{ let a = r::<1>()?; Ok(a) }}", "look_r(f())"),
        ("try-one-std", f"#[auto_enum(Iterator)] fn f() -> std::result::Result<u32, {R}> {{ ev(2); Ok(r::<1>()?) }}", "look_r(f())"),
        ("try-closure", f"#[auto_enum(Iterator)] fn f() -> Result<u32, {R}> {{ let a = r::<1>()?; let h = || -> Option<u32> {{ let x = o()?; Some(o()? ^ x) }}; ev(h().unwrap_or(3)); Ok(a) }}", "look_r(f())"),
        ("try-async", f"#[auto_enum(Iterator)] fn f() -> Result<u32, {R}> {{ let a = r::<1>()?; let h = async {{ let x = Ok::<u32, u32>(4)?; Ok::<u32, u32>(Ok::<u32, u32>(x)?) }}; ev(block_on(h).unwrap_or(3)); Ok(a) }}", "look_r(f())"),
        # errors that are not about the number of results
        F("if-no-else-nested", f"match n() {{ 77 => {{ #[nested] if c() {{ ev(1); }} panic!() }} _ => {A} }}"),
    ]
    return res


def emit_too_few(items):
    """One program per line: line number = position + 2."""
    out = ["use crate::sites;\n"]
    for i, (_, src, look) in items:
        out.append(f"pub mod k{i} {{ use crate::sites; pub mod p {{ {USES} use crate::support::{{ta as t, ra as r, wa as w}}; {src} pub fn go() -> Option<(u32, impl Eq, usize)> {{ {look} }} }} sites!(11: p 0); }}\n")
    out.append(table([f"k{i}" for i, _ in items]))
    write(f"{V}/build/gen/c18k.rs", "".join(out))
