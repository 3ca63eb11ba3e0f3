"""Hand-written programs, per property. `@T(ty)@` is a let type only the macro sees."""
R = "impl Iterator<Item = u32>"


def F(body, args="Iterator", ret=R, go="obs(f())", markers=("marker",), **kw):
    """A function with the attribute on it."""
    return P(f"#[auto_enum({args})] fn f() -> {ret} {{ {body} }}", go, markers, **kw)


def L(body, args="", ret=R, go="obs(f())", markers=("marker",), **kw):
    """A function whose own attribute is a dummy (or missing when args is None)."""
    at = "" if args is None else f"#[auto_enum{'(' + args + ')' if args else ''}] "
    return P(f"{at}fn f() -> {ret} {{ {body} }}", go, markers, **kw)


def P(src, go="obs(f())", markers=("marker",), ref=None, rgo=None):
    p = dict(src=src, go=go, markers=set(markers))
    if ref is not None:
        p["ref"] = ref
    if rgo is not None:
        p["rgo"] = rgo
    return p


A, B, C, D = "t::<1>(v())", "t::<2>(v())", "t::<3>(v())", "t::<4>(v())"
M3 = f"match n() {{ 0 => {A}, 1 => {B}, _ => {C} }}"
I3 = f"if c() {{ {A} }} else if n() == 2 {{ {B} }} else {{ {C} }}"

C13 = [
    F(M3), F(I3),
    F(f"match n() {{ 0 | 3 => {A}, x if x == 1 && c() => {B}, y @ 1..=2 => {{ ev(y as u32); {C} }} _ => {D} }}"),
    F(f"match (n(), o()) {{ (0, None) => {A}, (0 | 1, Some(q)) => t::<2>(q), (_, Some(q)) if c() => t::<3>(q), _ => {D} }}"),
    F("{{({ unsafe {{({ unsafe { unsafe {{ " + M3 + " }}}})}} })}}"),
    F(f"({M3})"), F(f"(({I3}))"),
    F(f"{M3}.map(|q| q ^ 5)"), F(f"{I3}.map(|q| q ^ 5).filter(|q| q % 2 == 0)"),
    F(f"({M3}).take(1)"), F(f"({{ ev(3); {M3} }}).skip(1)"), F(f"{{ ev(3); {I3} }}.map(|q| q + 1)"),
    F(f"unsafe {{ ev(1); {M3} }}.map(|q| q + 1)"),
    F(f"(({M3}.map(|q| q + 1)).skip(1)).map(|q| q ^ 9)"),
    F(f"if let Some(q) = o() {{ t::<1>(q) }} else if let 1 | 2 = n() {{ {B} }} else {{ {C} }}"),
    F(f"if c() {{ ev(1); let x = v(); t::<1>(x) }} else {{ ev(2); {{ let y = v(); ev(y); t::<2>(y) }} }}"),
    F(f"match c() {{ true => {{ {A} }} false => {{ {B} }} }}"),
    F(f"match c() {{ true => {{ fn g() -> u32 {{ 4 }} ev(g()); {A} }} false => {B}, }}"),
    # the arms' expressions may need the comma the macro adds
    F(f"match n() {{ 0 => if c() {{ t::<1>(1) }} else {{ t::<1>(2) }} 1 => match c() {{ true => t::<2>(1), _ => t::<2>(2) }} _ => unsafe {{ {C} }} }}"),
    F(f"match n() {{ 0 => {{ {A} }}, 1 => ({B}), _ => {{ {{ {C} }} }} }}"),
    F(f"match n() {{ 0 => {A}, 1 => loop {{ if c() {{ break {B}; }} break t::<2>(1); }} _ => {C} }}"),
    F(f"match n() {{ 0 => {A}, 1 => {{ let mut i = 0; while i < 2 {{ i += 1; ev(i); }} {B} }} _ => {C} }}"),
    F("match n() { 0 => t::<1>(v()), 1 => t::<2>(v()), 2 => t::<3>(v()), _ if c() => t::<4>(v()), _ if c() => t::<5>(v()), "
      "_ if c() => t::<6>(v()), _ if c() => t::<7>(v()), _ if c() => t::<8>(v()), _ if c() => t::<9>(v()), "
      "_ if c() => t::<10>(v()), _ if c() => t::<11>(v()), _ => t::<12>(v()) }"),
    # values of macros
    P("mod kit { macro_rules! panic_ { ($e:expr) => { $e } } macro_rules! unreachable_ { ($e:expr) => { $e } } pub(crate) use {panic_ as panic, unreachable_ as unreachable}; "
      "pub mod std { pub(crate) use super::panic; } } "
      + f"#[auto_enum(Iterator)] fn f() -> {R} {{ match n() {{ 0 => kit::panic!({A}), 1 => {{ ev(3); kit::unreachable!({B}) }} 2 if c() => self::kit::panic!({C}), 3 => kit::std::panic!({D}), _ => t::<5>(v()) }} }}"),
    F("match n() { 0 => std::matches!(n(), 1 | 2), 1 => core::cfg!(any()), 2 => matches!(n(), 3), _ => c() }", "Debug", "impl core::fmt::Debug", "dbg(&f())"),
    F("if n() == 1 { ev(1); std::cfg!(all()) } else if c() { core::matches!(n(), 1 | 3) } else { ev(2); { std::cfg!(any()) } }", "Debug", "impl core::fmt::Debug", "dbg(&f())"),
    # branches without a value
    F(f"match n() {{ 0 => {A}, 77 => panic!(), 78 => unreachable!(), 79 => std::panic!(\"x\"), 80 => core::unreachable!(), _ => {B} }}"),
    F(f"match n() {{ 0 => {A}, 77 => panic!(\"a\"), 78 => {{ unreachable!(\"b\") }} 79 => {{ panic!() }}, 80 => {{ ev(1); core::panic!(); }} 81 => {{ std::unreachable!(); }} _ => {B} }}"),
    F(f"if c() {{ {A} }} else if n() == 90 {{ panic!() }} else if n() == 91 {{ unreachable!(\"q\"); }} else if n() == 92 {{ std::panic!() }} else {{ {B} }}"),
    F(f"match n() {{ 0 => {A}, 77 => match n() {{ 0 => panic!(), 1..=3 => panic!(), _ => unreachable!() }}, _ => {B} }}"),
    F(f"match n() {{ 0 => {A}, 77 => match n() {{ 0 => panic!(), 1..=3 => {B}, _ => unreachable!() }}, _ => {C} }}"),
    F(f"match n() {{ 0 => {A}, 77 => {{ {{ panic!() }} }} 78 => ((panic!())), 79 => unsafe {{ unreachable!() }}, _ => {B} }}"),
    F(f"match n() {{ 0 => {A}, #[never] 77 => never(), #[never] 78 => loop {{ ev(1); }}, 79 => #[never] never(), _ => {B} }}"),
    F(f"if c() {{ {A} }} else if n() > 7 {{ #[never] never() }} else if n() > 8 {{ #[never] {{ never() }} }} else {{ {B} }}"),
    F(f"match n() {{ 0 => {A}, 1 => {{ return {B}; }} 2 => return {C}, _ => {D} }}"),
    F(f"match n() {{ 0 => {A}, 77 => {{ let _x: u32 = panic!(); }} _ => {B} }}"),
    L(f"#[auto_enum(Iterator)] let it = match n() {{ 0 => {A}, 1 => None?, 2 => std::option::Option::None?, 3 if c() => core::option::Option::None?, _ => {B} }}; Some(it)",
      ret=f"Option<{R}>", go="match f() { Some(i) => obs(i), None => 3 }"),
    L(f"#[auto_enum(Iterator)] let it = if c() {{ {A} }} else if c() {{ Err(4u32)? }} else if c() {{ std::result::Result::Err(5u32)? }} else if c() {{ core::result::Result::Err(6u32)? }} else {{ {B} }}; Ok(it)",
      ret=f"Result<{R}, u32>", go="match f() { Ok(i) => obs(i), Err(e) => e as u64 }"),
    L(f"let mut i = 0; loop {{ i += 1; #[auto_enum(Iterator)] let it = match n() {{ 0 => {A}, 1 if i < 3 => continue, 2 => break v(), _ => {B} }}; break eat(it); }}",
      ret="u32", go="f() as u64"),
    # where the annotated expression stands
    L(f"let it = {{ #[auto_enum(Iterator)] {I3} }}; it"), L(f"Some(#[auto_enum(Iterator)] {M3})", ret=f"Option<{R}>", go="obs(f().unwrap())"),
    L(f"return #[auto_enum(Iterator)] {M3};"), L(f"let (a, b) = (#[auto_enum(Iterator)] {M3}, #[auto_enum(Iterator)] {I3}); ev(eat(b)); a"),
    L(f"let x = [#[auto_enum(Iterator)] {M3}]; x.into_iter().next().unwrap()"),
    L(f"struct S<X> {{ x: X }} let s = S {{ x: #[auto_enum(Iterator)] {M3} }}; s.x"),
    L(f"let k = eat(#[auto_enum(Iterator)] {I3}) ^ eat(#[auto_enum(Iterator)] {I3}); k", ret="u32", go="f() as u64"),
    L(f"let s = &mut #[auto_enum(Iterator)] {M3}; eat(s)", ret="u32", go="f() as u64"),
    L(f"match (#[auto_enum(Iterator)] {M3}).next() {{ Some(q) => q, None => 3 }}", ret="u32", go="f() as u64"),
    L(f"if let Some(q) = {{ #[auto_enum(Iterator)] {M3} }}.next() {{ ev(q); }} while c() {{ ev(eat(#[auto_enum(Iterator)] {I3})); if c() {{ break; }} return 4; }} v()", ret="u32", go="f() as u64"),
    L(f"let mut z = 0; for q in #[auto_enum(Iterator)] {M3} {{ z ^= q; }} z", ret="u32", go="f() as u64"),
    L(f"let x; x = #[auto_enum(Iterator)] {M3}; x", None), L(f"let Some(it) = Some(#[auto_enum(Iterator)] {M3}) else {{ panic!() }}; it", None),
    L(f"let h = |a: u32| {{ ev(a); #[auto_enum(Iterator)] {M3} }}; h(v())"),
    L(f"let h = #[auto_enum(Iterator)] |a: u32| match a % 2 {{ 0 => t::<1>(a), _ => t::<2>(a) }}; ev(eat(h(v()))); h(v())"),
    L(f"#[auto_enum(Iterator)] let h = |a: u32| if c() {{ t::<1>(a) }} else {{ t::<2>(a) }}; h(v())"),
    L(f"#[auto_enum(Iterator)] let h = |a: u32, (b, d): (u32, bool)| {{ ev(b); match d {{ true => t::<1>(a), false if b == 4 => t::<2>(a), _ => t::<3>(b) }} }}; h(v(), (v(), c()))"),
    L(f"let k = v(); #[auto_enum(Iterator)] let h = move || match n() {{ 0 => t::<1>(k), _ => t::<2>(k + 1) }}; h()", None),
    L(f"let x = async {{ #[auto_enum(Iterator)] {M3} }}; block_on(x)"), L(f"let x = async move {{ #[auto_enum(Iterator)] let i = {M3}; i }}; block_on(x)", None),
    P(f"#[auto_enum(Iterator)] async fn f() -> {R} {{ ev(1); {M3} }}", "obs(block_on(f()))"),
    P(f"#[auto_enum(Iterator)] async fn f() -> {R} {{ let a = std::future::ready(v()).await; ev(a); if c() {{ return t::<5>(a); }} {M3} }}", "obs(block_on(f()))"),
    P(f"#[auto_enum(Future)] fn f() -> impl std::future::Future<Output = u32> {{ {M3} }}", "block_on(f()) as u64"),
    P(f"#[auto_enum(Future)] fn f() -> impl std::future::Future<Output = u32> {{ match n() {{ 0 => async {{ v() }}, 1 => std::future::ready(v()), _ => {C} }} }}", "block_on(f()) as u64",
      ref="fn f() -> u32 { match n() { 0 => v(), 1 => v(), _ => block_on(t::<3>(v())) } }", rgo="f() as u64"),
    P(f"#[auto_enum(Debug)] fn f() -> impl std::fmt::Debug {{ {M3} }}", "dbg(&f())"),
    P(f"#[auto_enum(fmt::Debug, Display)] fn f() -> impl std::fmt::Debug + std::fmt::Display {{ {I3} }}", "dbg(&f()) ^ dsp(&f())"),
    P(f"#[auto_enum(Error)] fn f() -> impl std::error::Error {{ {I3} }}", "{ let e = f(); dbg(&e) ^ dsp(&e) ^ src(&e) }", ref=f"fn f() -> D {{ {I3} }}", rgo="{ let e = f(); dbg(&e) ^ dsp(&e) ^ src(&In(&e)) }"),
    P("#[auto_enum(Debug)] fn f() -> impl std::fmt::Debug { match n() { 0 => t::<1>(v()), 1 => {} _ => t::<2>(v()) } }", "dbg(&f())",
      ref="fn f() -> Option<D> { match n() { 0 => Some(t::<1>(v())), 1 => None, _ => Some(t::<2>(v())) } }", rgo="match f() { Some(x) => dbg(&x), None => dbg(&()) }"),
    P(f"#[auto_enum(Iterator, Clone)] fn f() -> {R} + Clone {{ {M3} }}", "{ let a = f(); let b = a.clone(); obs(a) ^ (obs(b) << 1) }"),
    P(f"#[auto_enum(Transpose, Iterator)] fn f() -> Option<{R}> {{ match n() {{ 0 => Some({A}), 1 => None::<_>.or(o2::<2>()), _ => Some({C}) }}.transpose() }}",
      "match f() { Some(i) => obs(i), None => 3 }", ref=f"fn f() -> Option<{R}> {{ match n() {{ 0 => Some({A}), 1 => None::<_>.or(o2r::<2>()), _ => Some({C}) }} }}"),
    P(f"#[auto_enum(Transpose, Iterator)] fn f() -> Result<{R}, u32> {{ if c() {{ Ok({A}) }} else if c() {{ return Err(v()); }} else {{ Ok({B}) }}.transpose_ok() }}",
      "match f() { Ok(i) => obs(i), Err(e) => e as u64 }", ref=f"fn f() -> Result<{R}, u32> {{ if c() {{ Ok({A}) }} else if c() {{ return Err(v()); }} else {{ Ok({B}) }} }}"),
    # nested
    F(f"match n() {{ 0 => {A}, #[nested] 1 => match n() {{ 0 => {B}, _ => {C} }}, _ => {D} }}"),
    F(f"match n() {{ 0 => {A}, 1 => {{ #[nested] if c() {{ {B} }} else {{ {C} }} }} _ => {{ ev(2); #[nested] match c() {{ true => {D}, false => t::<5>(v()) }} }} }}"),
    F(f"if c() {{ #[nested] {{ if c() {{ {A} }} else {{ {B} }} }} }} else {{ #[nested] let x = match n() {{ 1 => {C}, _ => {D} }}; ev(3); x }}"),
    F(f"if c() {{ #[nested] let y = if c() {{ {A} }} else {{ {B} }}; #[nested] let z = if c() {{ {C} }} else {{ {D} }}; if c() {{ y }} else {{ z }} }} else {{ t::<5>(v()) }}"),
    F(f"match n() {{ 0 => {A}, 1 => {{ #[nested] let x = if c() {{ {B} }} else {{ {C} }}; #[nested] let _y = 3; x }} _ => {{ #[nested] {D} }} }}".replace("{ #[nested] " + D + " }", D)),
    F(f"if c() {{ {A} }} else if c() {{ #[nested] (({{ ev(1); unsafe {{ {M3.replace('::<', '::<1')} }} }})) }} else {{ {B} }}"),
    F(f"match n() {{ 0 => {A}, #[nested] 1 => {{ ev(1); loop {{ ev(2); if c() {{ break {B}; }} break {C}; }} }} _ => {D} }}"),
]
C14 = [
    F(f"loop {{ if c() {{ break {A}; }} if c() {{ break {B}; }} ev(1); break {C}; }}"),
    F(f"'a: loop {{ if c() {{ break 'a {A}; }} loop {{ if c() {{ break 'a {B}; }} if c() {{ break; }} break 'a {C}; }} }}"
      .replace("break; }", "break 'a t::<4>(v()); }")),
    F(f"let mut i = 0; 'a: loop {{ i += 1; while i < 9 {{ if c() {{ break; }} if c() {{ break 'a {A}; }} i += 3; }} if i > 1 {{ break {B}; }} }}"),
    F(f"let mut i = 0; 'a: loop {{ i += 1; for q in 0..2 {{ if c() {{ break; }} if c() {{ continue; }} if c() {{ break 'a {A}; }} ev(q); }} if i > 1 {{ break {B}; }} if c() {{ continue 'a; }} }}"),
    F(f"let mut i = 0; 'a: loop {{ i += 1; let x = 'b: loop {{ if c() {{ break 'b 3; }} if c() {{ break 'a {A}; }} break 4; }}; ev(x); if i > 1 {{ break 'a {B}; }} }}"),
    F(f"let mut i = 0; loop {{ i += 1; let x = loop {{ if c() {{ break 3; }} break 4; }}; ev(x); if c() {{ break {A}; }} if i > 1 {{ break {B}; }} }}"),
    F(f"let mut i = 0; loop {{ i += 1; let x = loop {{ break loop {{ break 4; }}; }}; ev(x); if c() {{ break {A}; }} if i > 1 {{ break {B}; }} }}"),
    F(f"loop {{ match n() {{ 0 => break {A}, 1 => {{ break {B}; }} _ => {{ if c() {{ break {C} }} else {{ break {D} }} }} }} }}"),
    F(f"loop {{ let x = match o() {{ Some(q) => q, None => break {A} }}; let Some(y) = o() else {{ break {B} }}; break t::<3>(x ^ y); }}"),
    F(f"loop {{ ev(if c() {{ break {A} }} else {{ 3 }}); ev(1 + (match c() {{ true => break {B}, _ => 4 }})); break {C}; }}"),
    F(f"loop {{ let h = || {{ let mut i = 0; loop {{ i += 1; if i > 1 {{ break 3; }} }} }}; ev(h()); if c() {{ break {A}; }} break {B}; }}"),
    F(f"'a: loop {{ let h = || 'a: loop {{ if c() {{ break 'a 3; }} break 4; }}; ev(h()); if c() {{ break 'a {A}; }} break {B}; }}"),
    F(f"'a: loop {{ let h = async {{ 'a: loop {{ if c() {{ break 'a 3; }} break 4; }} }}; ev(block_on(h)); if c() {{ break 'a {A}; }} break {B}; }}"),
    F(f"'a: loop {{ fn h() -> u32 {{ 'a: loop {{ if c() {{ break 'a 3; }} break 4; }} }} ev(h()); if c() {{ break 'a {A}; }} break {B}; }}"),
    F(f"'a: loop {{ let x = 'b: {{ if c() {{ break 'b 3; }} if c() {{ break 'a {A}; }} 4 }}; ev(x); break {B}; }}"),
    F(f"'a: loop {{ 'a: for q in 0..2 {{ if c() {{ break 'a; }} ev(q); }} 'a: while c() {{ break 'a; }} if c() {{ break 'a {A}; }} break {B}; }}"),
    F(f"'a: loop {{ let x = 'a: loop {{ if c() {{ break 'a 3; }} break 4; }}; let y = 'a: {{ if c() {{ break 'a 3; }} 4 }}; ev(x ^ y); if c() {{ break 'a {A}; }} break {B}; }}"),
    F(f"'a: loop {{ for q in 0..(if c() {{ break {A} }} else {{ 2 }}) {{ ev(q); if c() {{ break 'a {B}; }} }} while (if c() {{ break 'a {C} }} else {{ false }}) {{}} break {D}; }}"),
    F(f"loop {{ for q in 0..(if c() {{ break {A} }} else {{ 2 }}) {{ ev(q); if c() {{ break; }} }} break {D}; }}"),
    F(f"'a: loop {{ 'a: for q in 0..(if c() {{ break 'a {A} }} else {{ 2 }}) {{ ev(q); if c() {{ break 'a; }} }} break {D}; }}")
    if False else F(f"let mut i = 0; 'a: loop {{ i += 1; if i > 2 {{ return {C}; }} 'b: for q in 0..(if c() {{ break 'a {A} }} else {{ 2 }}) {{ ev(q); if c() {{ break 'b; }} if c() {{ continue 'a; }} return {B}; }} break {D}; }}"),
    F(f"'a: loop {{ 'b: loop {{ 'd: loop {{ if c() {{ break 'a {A}; }} if c() {{ break 'b; }} if c() {{ break 'd; }} return {B}; }} break 'a {C}; }} break 'a {D}; }}"),
    F(f"match n() {{ 0 => {A}, #[nested] 1 => loop {{ if c() {{ break {B}; }} break {C}; }}, _ => {{ #[nested] 'z: loop {{ loop {{ break 'z {D}; }} }} }} }}"),
    F(f"loop {{ if c() {{ break {A}; }} break if c() {{ t::<2>(1) }} else {{ t::<2>(2) }}; }}"),
    F(f"loop {{ if c() {{ break {{ ev(3); {A} }}; }} break ({B}); }}"),
    F(f"{{ ev(1); ('a: loop {{ if c() {{ break 'a {A}; }} ev(2); break {B}; }}) }}.map(|q| q ^ 3)"),
    F(f"let mut i = 0; loop {{ i += 1; if i > 2 {{ return {A}; }} if c() {{ break {B}; }} if c() {{ continue; }} ev(4); }}"),
    F(f"let mut i = 0; 'a: loop {{ i += 1; if i > 1 {{ return loop {{ break {A}; }}; }} if c() {{ break 'a {B}; }} }}".replace(f"loop {{ break {A}; }};", f"{{ ev(5); {A} }};")),
    F(f"loop {{ #[never] if c() {{ break marker!({A}); }} if c() {{ break {B}; }} break {C}; }}"),
    F(f"loop {{ if c() {{ break marker!({A}); }} if c() {{ break {B}; }} break {C}; }}"),
    F(f"loop {{ unsafe {{ if c() {{ break {A}; }} }} {{ if c() {{ break {B}; }} }} (if c() {{ break {C}; }}); break {D}; }}"),
    F(f"loop {{ break loop {{ if c() {{ break t::<1>(1); }} break t::<1>(2); }}; }}.chain({{ if c() {{ return marker!({B}); }} None }})".replace("return marker!", "return marker!")) if False else
    F(f"loop {{ if c() {{ break {B}; }} break loop {{ if c() {{ break t::<1>(1); }} break t::<1>(2); }}; }}"),
    L(f"#[auto_enum(Iterator)] let it = loop {{ if c() {{ break {A}; }} break {B}; }}; it"),
    L(f"let mut i = 0; 'o: loop {{ i += 1; #[auto_enum(Iterator)] let it = loop {{ if c() {{ break {A}; }} if c() && i < 3 {{ continue 'o; }} if c() {{ break 'o v(); }} break {B}; }}; break eat(it); }}", ret="u32", go="f() as u64"),
    L(f"let mut i = 0; 'o: while i < 2 {{ i += 1; let it = #[auto_enum(Iterator)] match n() {{ 0 => {A}, 1 => continue 'o, 2 => break, _ => {B} }}; ev(eat(it)); }} i", ret="u32", go="f() as u64"),
    L(f"#[auto_enum(Iterator)] let h = |a: u32| loop {{ if c() {{ break t::<1>(a); }} break {B}; }}; h(v())"),
    L(f"#[auto_enum(Iterator)] let h = |a: u32| 'a: loop {{ loop {{ if c() {{ break 'a t::<1>(a); }} if c() {{ return {C}; }} break; }} break {B}; }}; h(v())"),
    P("#[auto_enum(Debug)] fn f() -> impl std::fmt::Debug { loop { if c() { break; } break t::<2>(v()); } }", "dbg(&f())",
      ref="fn f() -> Option<D> { loop { if c() { break None; } break Some(t::<2>(v())); } }", rgo="match f() { Some(x) => dbg(&x), None => dbg(&()) }"),
    P("#[auto_enum(Debug)] fn f() -> impl std::fmt::Debug { 'a: loop { while c() { break 'a; } 'b: loop { if c() { break 'a t::<3>(v()); } break 'b; } break t::<2>(v()); } }", "dbg(&f())",
      ref="fn f() -> Option<D> { 'a: loop { while c() { break 'a None; } 'b: loop { if c() { break 'a Some(t::<3>(v())); } break 'b; } break Some(t::<2>(v())); } }", rgo="match f() { Some(x) => dbg(&x), None => dbg(&()) }"),
]
C15 = [
    F(f"if c() {{ return {A}; }} {B}".replace(B, f"marker!({B})")), F(f"if c() {{ return {A}; }} {M3.replace('::<1>', '::<9>')}"),
    F(f"if c() {{ return {A}; }} if c() {{ return {B}; }} return {C};"),
    F(f"let x = if c() {{ return {A} }} else {{ v() }}; let y = match n() {{ 0 => return {B}, q => q }}; ev(y as u32); return t::<3>(x);"),
    F(f"let mut i = 0; loop {{ i += 1; if c() {{ return {A}; }} for q in 0..2 {{ if c() {{ return {B}; }} ev(q); }} if i > 1 {{ return {C}; }} }}"),
    F(f"let h = |a: u32| {{ if a % 2 == 0 {{ return a + 1; }} a }}; ev(h(v())); if c() {{ return {A}; }} return {B};"),
    F(f"let h = |a: u32| {{ let g = |b: u32| {{ if b % 2 == 0 {{ return b + 1; }} return b; }}; return g(a) ^ 1; }}; ev(h(v())); if c() {{ return {A}; }} return {B};"),
    F(f"fn h(a: u32) -> u32 {{ if a % 2 == 0 {{ return a + 1; }} a }} ev(h(v())); if c() {{ return {A}; }} return {B};"),
    F(f"struct S; impl S {{ fn h(&self, a: u32) -> u32 {{ return a + 1; }} }} ev(S.h(v())); const K: u32 = {{ const fn k() -> u32 {{ return 3; }} k() }}; ev(K); if c() {{ return {A}; }} return {B};"),
    F(f"let h = async {{ if c() {{ return 3; }} 4 }}; ev(block_on(h)); if c() {{ return {A}; }} return {B};"),
    F(f"let h = async move {{ let g = || {{ return 3; }}; if c() {{ return g(); }} return 4; }}; ev(block_on(h)); if c() {{ return {A}; }} return {B};"),
    F(f"let h = || async {{ if c() {{ return 3; }} 4 }}; ev(block_on(h())); if c() {{ return {A}; }} return {B};"),
    F(f"ev(if c() {{ return {A} }} else {{ 3 }}); let s = (v(), if c() {{ return {B} }} else {{ 4 }}); ev(s.0 ^ s.1); let z = [v(), match c() {{ true => return {C}, _ => 5 }}]; ev(z[1]); return {D};"),
    F(f"let x = o().unwrap_or_else(|| {{ return 5; }}); ev(x); let Some(y) = o() else {{ return {A} }}; return t::<2>(y);"),
    F(f"if c() {{ return match n() {{ 0 => t::<1>(0), _ => t::<1>(1) }}; }} if c() {{ return if c() {{ {B} }} else {{ t::<2>(9) }}; }} return {{ ev(4); {C} }};"),
    F(f"unsafe {{ if c() {{ return {A}; }} }} 'b: {{ if c() {{ break 'b; }} if c() {{ return {B}; }} }} {{ {{ return {C}; }} }}"),
    F(f"match n() {{ 0 => return {A}, 1 => {{ return {B} }} 2 => {{ return {C}; }} _ => {D} }}"),
    F(f"if c() {{ return {A}; }} else if c() {{ return {B} }} else {{ {C} }}"),
    F(f"return {{ if c() {{ return {A}; }} {B} }};"), F(f"if c() {{ return marker!({A}); }} #[never] return marker!({B});"),
    # not converted: the function does not return impl Trait itself
    L(f"if c() {{ return None; }} #[auto_enum(Iterator)] let it = {M3}; Some(it)", ret=f"Option<{R}>", go="match f() { Some(i) => obs(i), None => 3 }"),
    L(f"if c() {{ return Box::new({A}); }} let h = #[auto_enum(Iterator)] |a: u32| {{ if c() {{ return t::<2>(a); }} {I3.replace('::<1>', '::<5>').replace('::<2>', '::<6>')} }}; Box::new(h(v()))", ret="Box<dyn Iterator<Item = u32>>"),
    L(f"#[auto_enum(Iterator)] let h = |a: u32| {{ if a % 2 == 0 {{ return t::<1>(a); }} let g = |b: u32| {{ if b % 3 == 0 {{ return 3; }} b }}; ev(g(a)); if c() {{ {B} }} else {{ {C} }} }}; ev(eat(h(v()))); h(v())"),
    L(f"let h = #[auto_enum(Iterator)] |a: u32| {{ if c() {{ return t::<1>(a); }} return t::<2>(a); }}; if c() {{ return 3; }} eat(h(v()))", ret="u32", go="f() as u64"),
    L(f"let h = #[auto_enum(Iterator)] |a: u32| {{ let x = (|| {{ let q: Option<u32> = o(); let z = q?; Some(z) }})().unwrap_or(3); ev(x); if c() {{ return t::<1>(a); }} return t::<2>(x); }}; eat(h(v()))", ret="u32", go="f() as u64"),
    P(f"pub struct S(u32); impl S {{ #[auto_enum(Iterator)] fn f(&mut self) -> {R} + '_ {{ self.0 += 1; if c() {{ return t::<1>(self.0); }} let h = || {{ return 4; }}; ev(h()); if c() {{ t::<2>(self.0) }} else {{ {C} }} }} }}", "{ let mut s = S(v()); let x = obs(s.f()); x ^ s.0 as u64 }"),
    P("#[auto_enum(Debug)] fn f() -> impl std::fmt::Debug { if c() { return; } return t::<2>(v()); }", "dbg(&f())",
      ref="fn f() -> Option<D> { if c() { return None; } return Some(t::<2>(v())); }", rgo="match f() { Some(x) => dbg(&x), None => dbg(&()) }"),
    # ?
    *[P(f"#[auto_enum(Iterator)] fn f() -> {p}Result<u32, {R}> {{ {b} }}", "obs_r(f())", ref=f"fn f() -> Result<u32, D> {{ {b} }}")
      for p in ("", "std::result::", "core::result::") for b in (
        "let a = r::<1>()?; let b = r::<2>()?; Ok(a ^ b)",
        "if c() { r::<1>()?; } match n() { 0 => { r::<2>()?; } _ => ev(r::<3>()?) } Ok(v())")],
    *[P(f"#[auto_enum(Iterator)] fn f() -> Result<u32, {R}> {{ {b} }}", "obs_r(f())", ref=f"fn f() -> Result<u32, D> {{ {b} }}") for b in (
        "let a = r::<1>()? + r::<2>()? + r::<3>()?; Ok(a)",
        "for q in 0..r::<1>()? % 3 { ev(r::<2>()? ^ q); } Ok(3)",
        "let mut i = 0; while r::<1>()? % 2 == 1 && i < 2 { i += 1; ev(r::<2>()?); if c() { break; } } Ok(i)",
        "let x = match r::<1>()? { q if q % 2 == 0 => r::<2>()?, q => q }; Ok(x ^ r::<3>()?)",
        "ev(id(r::<1>()?)); let s = (r::<2>()?, [r::<3>()?]); Ok(s.0 ^ s.1[0])",
        "let h = |a: u32| -> Option<u32> { let z = o()?; if a == 3 { None?; } Some(z) }; ev(h(3).unwrap_or(8)); r::<1>()?; Ok(r::<2>()?)",
        "let h = || -> Result<u32, u32> { Err(4u32)?; Ok(3) }; ev(h().unwrap_or_else(|e| e)); r::<1>()?; Ok(r::<2>()?)",
        "let h = async { let z = o()?; Some(z) }; ev(block_on(h).unwrap_or(8)); r::<1>()?; Ok(r::<2>()?)",
        "fn h() -> Option<u32> { let z = o()?; Some(z ^ 1) } ev(h().unwrap_or(8)); r::<1>()?; Ok(r::<2>()?)",
        "let h: Option<u32> = try { let z = o()?; z ^ 1 }; ev(h.unwrap_or(8)); r::<1>()?; Ok(r::<2>()?)",
        "struct S; impl S { fn h(&self) -> Option<u32> { let z = o()?; Some(z ^ 1) } } ev(S.h().unwrap_or(8)); r::<1>()?; Ok(r::<2>()?)",
        "if c() { return Ok(4); } let a = { ev(1); r::<1>()? }; let Ok(b) = Ok::<u32, u32>(r::<2>()?) else { return Ok(5) }; if c() { return Ok(r::<3>()?); } Ok(a ^ b)",
        "let a = r::<1>()?; 'b: { if c() { break 'b; } ev(r::<2>()?); } unsafe { ev(r::<3>()?); } Ok((a ^ (r::<4>()?)).count_ones())",
        "let h = { let g = r::<1>()?; move |a: u32| { let z: Option<u32> = (|| { let y = o()?; Some(y) })(); z.unwrap_or(a ^ g) } }; Ok(h(r::<2>()?))",
        "if c() { Err(marker!(t::<9>(v())))?; } r::<1>()?; Ok(r::<2>()?)".replace("Err(marker!(t::<9>(v())))?", "return Err(marker!(t::<9>(v())))"),
        "Ok(Some(r::<1>()?).map(|x| x ^ 1).unwrap() ^ r::<2>()?.count_ones())",
        "r::<1>()?; if r::<2>()? % 2 == 0 { Ok(1) } else { Err(marker!(t::<3>(v()))) }",
    )],
    P(f"#[auto_enum(Iterator)] fn f() -> Result<Option<u32>, {R}> {{ r::<1>()?; if c() {{ return Ok(None); }} Ok(Some(r::<2>()?)) }}", "obs_r(f().map(|x| x.unwrap_or(5)))", ref="fn f() -> Result<Option<u32>, D> { r::<1>()?; if c() { return Ok(None); } Ok(Some(r::<2>()?)) }"),
    P(f"#[auto_enum(Debug, Display)] fn f() -> Result<u32, impl std::fmt::Debug + std::fmt::Display> {{ if c() {{ Err(t::<1>(v()))?; }} if c() {{ Err(t::<2>(v()))? }} else {{ Ok(v()) }} }}",
      "match f() { Ok(x) => x as u64, Err(e) => dbg(&e) ^ dsp(&e) }", ref="fn f() -> Result<u32, D> { if c() { return Err(t::<1>(v())); } if c() { return Err(t::<2>(v())) } else { Ok(v()) } }"),
]
C16 = [
    F(f"if c() {{ return {A}; }} marker!({B})"), F(f"if c() {{ return marker!({A}); }} marker!({B})"),
    F(f"if c() {{ return marker! {{ {A} }}; }} marker! {{ {B} }}"), F(f"if c() {{ return marker![{A}]; }} marker![{B}]"),
    F(f"if c() {{ marker!({A}) }} else {{ marker!({B}) }}"), F(f"if c() {{ marker! {{ {A} }} }} else {{ marker! {{ {B} }} }}"),
    F(f"match n() {{ 0 => marker!({A}), 1 => marker! {{ {B} }}, 2 => marker! {{ {C} }}, _ => {D} }}"),
    F(f"match n() {{ 0 => {{ ev(1); marker!({A}) }} 1 => {{ marker!({B}) }}, _ => (marker!({C})) }}"),
    F(f"let a = marker!({A}); if c() {{ ev(3); return marker!({B}); }} a") if False else F(f"let x; if c() {{ x = marker!({A}); }} else {{ x = marker!({B}); }} x"),
    F(f"let x; match n() {{ 0 => x = marker!({A}), 1 => {{ x = marker!({B}); ev(2); }} _ => x = {{ ev(3); marker!({C}) }} }}; x"),
    F(f"let x = id(marker!({A})); let y = id(marker!({B})); if c() {{ x }} else {{ y }}".replace("if c() { x } else { y }", "[x, y].into_iter().nth(c() as usize).unwrap()")),
    F(f"let x = (marker!({A}), 3).0; let y = Some(marker!({B})).unwrap(); let mut z = [x, y]; z.swap(0, c() as usize); z.into_iter().next().unwrap()"),
    F(f"let h = |q: u32| marker!(t::<1>(q)); let g = || {{ ev(4); marker!({B}) }}; let x = if c() {{ h(v()) }} else {{ g() }}; [x].into_iter().next().unwrap()"
      .replace("let x = if c() { h(v()) } else { g() };", "let x = (c() as u8 == 1).then(|| h(v())).unwrap_or_else(g);")),
    F(f"let x = 'b: {{ if c() {{ break 'b marker!({A}); }} marker!({B}) }}; ev(2); x"),
    F(f"'b: {{ if c() {{ break 'b marker!({A}); }} if c() {{ break 'b marker!({B}); }} marker!({C}) }}"),
    F(f"let x = 'b: {{ if c() {{ break 'b marker!({A}); }} if c() {{ return {B}; }} marker!({C}) }}; x.map(|q| q) "
      .replace("x.map(|q| q)", "{ ev(9); x }").replace("return ", "return ")) if False else
    F(f"'b: {{ if c() {{ break 'b marker!({A}); }} if c() {{ return {B}; }} marker!({C}) }}"),
    F(f"loop {{ if c() {{ break marker!({A}); }} if c() {{ break {B}; }} if c() {{ return marker!({C}); }} break {D}; }}"),
    F(f"let x = loop {{ if c() {{ break marker!({A}); }} break marker!({B}); }}; ev(2); return #[never] x;") if False else
    F(f"loop {{ if c() {{ break marker!({A}); }} break marker!({B}); }}"),
    F(f"while c() {{ if c() {{ return marker!({A}); }} if c() {{ break; }} return marker!({B}); }} marker!({C})"),
    F(f"let x = o().map(|q| marker!(t::<1>(q))).unwrap_or_else(|| marker!({B})); {{ ev(4); {{ x }} }}"),
    F(f"#[never] {{ if c() {{ return marker!({A}); }} marker!({B}) }}"),
    F(f"ev(3); if c() {{ marker!({A}) }} else if c() {{ return {B}; }} else {{ ev(4); marker!({C}) }}"),
    *[F(f"if c() {{ return {A}; }} if c() {{ return {m}!({B}); }} {m}!({C})", args=a, markers=(m,)) for m, a in
      (("foo", "Iterator, marker = foo"), ("bar", "marker = bar, Iterator"), ("panic_", "marker = panic_, Iterator,"))],
    # the name of another macro of the surrounding code, and a default-named macro inside a custom-named item
    P(f"macro_rules! marker {{ ($e:expr) => {{ $e }} }} #[auto_enum(Iterator, marker = mk)] fn f() -> {R} {{ if c() {{ return marker!({A}); }} mk!({B}) }}", markers=("mk",)),
    P(f"macro_rules! foo {{ ($e:expr) => {{ $e }} }} #[auto_enum(Iterator)] fn f() -> {R} {{ if c() {{ return foo!({A}); }} ev(foo!(3)); match n() {{ 0 => foo!({B}), _ => {C} }} }}"),
    P(f"mod mm {{ macro_rules! mkk {{ ($e:expr) => {{ $e }} }} pub(super) use mkk; }} #[auto_enum(Iterator, marker = mkk)] fn f() -> {R} {{ if c() {{ return mm::mkk!({A}); }} ev(mm::mkk!(3)); match n() {{ 0 => mm::mkk!({B}), _ => {C} }} }}", markers=("marker_unused",)),
    # children
    L(f"let it; #[auto_enum(Iterator)] match n() {{ 0 => it = marker!({A}), 1 => it = marker!({B}), _ => {{ it = marker!({C}); }} }}; it"),
    L(f"let it; #[auto_enum(Iterator)] if c() {{ it = marker!({A}); }} else {{ it = {{ ev(3); marker!({B}) }}; }}; it"),
    L(f"let it; #[auto_enum(Iterator)] {{ if c() {{ it = marker!({A}); }} else {{ it = marker!({B}); }} }}; it"),
    L(f"let it; #[auto_enum(Iterator)] loop {{ if c() {{ it = marker!({A}); break; }} ev(2); it = marker!({B}); break; }}; it"),
    L(f"#[auto_enum(Iterator)] let h = |a: u32| {{ let x; if c() {{ x = marker!(t::<1>(a)); }} else {{ x = marker!({B}); }} ev(3); x }}; h(v())") if False else
    L(f"#[auto_enum(Iterator)] let it = {{ let x; if c() {{ x = marker!({A}); }} else {{ x = marker!({B}); }} ev(3); x }}; it"),
    F(f"let it; #[auto_enum(Iterator)] match n() {{ 0 => it = marker!({A}), _ => it = marker!({B}) }}; if c() {{ return {C}; }} match n() {{ 1 => w(it), _ => {D} }}"),
    F(f"let it; #[auto_enum(Iterator, marker = mk)] match n() {{ 0 => it = mk!({A}), 1 => return {D}, _ => it = mk!({B}) }}; if c() {{ return {C}; }} match n() {{ 1 => w(it), _ => t::<5>(v()) }}", markers=("marker", "mk")),
    F(f"#[auto_enum(Iterator, marker = mk)] let it = match n() {{ 0 => mk!({A}), 1 => return marker!({D}), 2 => {{ return foo!({C}) }} _ => {B} }}; if c() {{ return foo!(t::<5>(v())); }} w(foo!(t::<6>(v()))).chain({{ ev(eat(it)); None }})".replace("w(foo!(t::<6>(v()))).chain({ ev(eat(it)); None })", "match n() { 0 => { ev(eat(it)); foo!(t::<6>(v())) } _ => t::<7>(v()) }").replace("return marker!(", "return foo!("),
      args="Iterator, marker = foo", markers=("foo", "mk")),
    F(f"#[auto_enum(Iterator, marker = bar)] let it = match n() {{ 0 => {A}, 1 => return foo!({B}), _ => {{ #[auto_enum(Iterator, marker = baz)] match n() {{ 0 => {C}, 1 => return foo!({D}), 2 => baz!(t::<5>(v())), _ => t::<6>(v()) }} }} }}; ev(eat(it)); match n() {{ 0 => t::<7>(v()), _ => foo!(t::<8>(v())) }}",
      args="Iterator, marker = foo", markers=("foo", "bar", "baz")),
    F(f"#[auto_enum(Iterator, marker = m1)] let a = if c() {{ m1!({A}) }} else {{ {B} }}; #[auto_enum(Iterator, marker = m1)] let b = if c() {{ {C} }} else {{ m1!({D}) }}; ev(eat(a)); if c() {{ return marker!(w(b)); }} if c() {{ t::<5>(v()) }} else {{ t::<6>(v()) }}", markers=("marker", "m1")),
    F(f"let a = {{ #[auto_enum(Iterator)] if c() {{ marker!({A}) }} else {{ {B} }} }}; ev(eat(a)); if c() {{ return marker!({C}); }} {D}".replace(D, f"marker!({D})")),
    # one `?` is an ordinary one
    *[L(f"#[auto_enum(Iterator)] let h = {h}; match h(v()) {{ Some(i) => eat(i), None => 3 }}", ret="u32", go="f() as u64") for h in (
        "|a: u32| { let y = o()?; Some(pick(marker!(t::<1>(a)), marker!(t::<2>(y)))) }",
        "|a: u32| { let x; if c() { x = marker!(t::<1>(a)); } else { x = marker!(t::<2>(o()?)); } Some(x) }",
        "|a: u32| { ev(o()?); let g = |q: u32| { ev(o()?); Some(q) }; ev(g(a)?.min(3)); Some(pick(marker!(t::<1>(a)), marker!(t::<2>(v())))) }".replace("ev(o()?); let g", "let g"),
        "move |a: u32| -> Option<_> { if a > 5 { return None; } let y = o()?; Some(pick(marker!(t::<1>(a)), marker!(t::<2>(y)))) }".replace("return None", "#[never] return None"))],
]
C17 = [
    # every arm of an inner match is nested on its own
    F(f"match n() {{ 0 => {A}, 1 => match n() {{ #[nested] 0 => if c() {{ {B} }} else {{ {C} }}, #[nested] _ => match c() {{ true => {D}, false => t::<5>(v()) }} }}, _ => t::<6>(v()) }}"),
    F(f"if c() {{ {A} }} else {{ let z = match n() {{ #[nested] 0 => if c() {{ {B} }} else {{ {C} }}, #[nested] 1 => {{ ev(4); match c() {{ true => {D}, false => t::<5>(v()) }} }} _ => panic!() }}; ev(3); z }}".replace("n() { #[nested]", "n() & 1 { #[nested]")),
    F(f"match n() {{ 0 => {{ ev(1); id(match c() {{ #[nested] true => match c() {{ true => {A}, false => {B} }}, #[nested] false => loop {{ if c() {{ break {C}; }} break {D}; }} }}) }} _ => t::<5>(v()) }}"),
    L(f"#[auto_enum(Iterator)] let a = {M3}; #[auto_enum(Iterator)] let b = {I3}; ev(eat(a)); b"),
    L(f"#[auto_enum(Iterator)] let it = match n() {{ 0 => {A}, _ => {B} }}; #[auto_enum(Iterator)] match n() {{ 0 => w(it), 1 => {C}, _ => {D} }}"),
    L(f"if c() {{ #[auto_enum(Iterator)] let a = {M3}; ev(eat(a)); }} while c() {{ ev(eat(#[auto_enum(Iterator)] {I3})); break; }} let h = |q: u32| {{ #[auto_enum(Iterator)] let z = if q == 3 {{ t::<1>(q) }} else {{ {B} }}; eat(z) }}; h(3) ^ h(v())", ret="u32", go="f() as u64"),
    F(f"#[auto_enum(Iterator)] let it = match n() {{ 0 => {A}, 1 => return {D}, _ => {B} }}; match n() {{ 0 => w(it), _ => {C} }}"),
    F(f"#[auto_enum(Iterator)] let it = if c() {{ {A} }} else if c() {{ return {C}; }} else {{ {B} }}; if c() {{ it }} else {{ w({D}) }}"),
    F(f"let it = #[auto_enum(Iterator)] {M3}; let jt = #[auto_enum(Iterator)] {I3}; match n() {{ 0 => it, 1 => w(jt), _ => {D} }}")
    if False else F(f"let it = #[auto_enum(Iterator)] {M3}; let jt = #[auto_enum(Iterator)] {I3}; match n() {{ 0 => it, 1 => {{ ev(eat(it)); w(jt) }} _ => {D} }}"),
    F(f"match n() {{ 0 => {{ #[auto_enum(Iterator)] let it = {M3}; it }} 1 => {{ let x = v(); #[auto_enum(Iterator)] let it = if c() {{ t::<5>(x) }} else {{ {D} }}; w(it) }} _ => t::<6>(v()) }}"),
    F(f"match n() {{ 0 => {{ let q = {{ #[auto_enum(Iterator)] {M3} }}; q }} 1 => {{ {{ #[nested] match n() {{ 0 => {D}, _ => t::<5>(v()) }} }} }} _ => t::<6>(v()) }}"),
    F(f"match n() {{ #[nested] 0 => {{ #[auto_enum(Iterator)] let it = {M3}; if c() {{ it }} else {{ t::<9>(v()) }} }} _ => {D} }}"),
    F(f"if c() {{ #[nested] let x = {{ #[auto_enum(Iterator)] let y = {I3}; ev(3); if c() {{ y }} else {{ {D} }} }}; x }} else {{ t::<5>(v()) }}"),
    F(f"#[auto_enum(Iterator)] let a = {{ #[auto_enum(Iterator)] let b = {{ #[auto_enum(Iterator)] let d = {M3}; if c() {{ d }} else {{ {D} }} }}; if c() {{ b }} else {{ t::<5>(v()) }} }}; if c() {{ a }} else {{ t::<6>(v()) }}"),
    F(f"#[auto_enum(Iterator)] let it = loop {{ if c() {{ break {A}; }} if c() {{ return {C}; }} break {B}; }}; if c() {{ it }} else {{ {D} }}"),
    F(f"loop {{ #[auto_enum(Iterator)] let it = match n() {{ 0 => {A}, 1 => break {C}, _ => {B} }}; if c() {{ break it; }} ev(3); break {D}; }}".replace("break it;", "break w(it);")),
    F(f"loop {{ let it = #[auto_enum(Iterator)] if c() {{ {A} }} else if c() {{ break {C}; }} else {{ {B} }}; break w(it); }}"),
    F(f"#[auto_enum(Iterator)] let h = |a: u32| {{ if a % 2 == 0 {{ return t::<1>(a); }} if c() {{ {B} }} else {{ {C} }} }}; if c() {{ return w(h(v())); }} {{ ev(eat(h(4))); if c() {{ {D} }} else {{ h(5) }} }}"),
    F(f"let h = #[auto_enum(Iterator)] |a: u32| match a % 3 {{ 0 => t::<1>(a), _ => {B} }}; if c() {{ h(v()) }} else {{ {D} }}"),
    F(f"let h = || {{ #[auto_enum(Iterator)] let it = {M3}; return it; }}; if c() {{ return {D}; }} return h();"),
    F(f"fn g() -> {R} {{ #[auto_enum(Iterator)] let it = {M3}; it }} if c() {{ return {D}; }} return g();", ref=f"fn f() -> D {{ fn g() -> D {{ let it = {M3}; it }} if c() {{ return {D}; }} return g(); }}"),
    F(f"#[auto_enum(Iterator)] fn g() -> {R} {{ if c() {{ return t::<8>(v()); }} {M3} }} if c() {{ return {D}; }} return g();", ref=f"fn f() -> D {{ fn g() -> D {{ if c() {{ return t::<8>(v()); }} {M3} }} if c() {{ return {D}; }} return g(); }}"),
    # never
    F(f"match n() {{ 0 => {A}, #[never] 1 => {{ return {C}; }} 2 => {{ #[never] {{ return {D}; }} }} _ => {B} }}"),
    F(f"match n() {{ 0 => {A}, 1 => #[never] loop {{ if c() {{ return {C}; }} return {D}; }}, _ => {B} }}"),
    F(f"if c() {{ {A} }} else if c() {{ #[never] loop {{ return {C}; }} }} else {{ {B} }}"),
    F(f"if c() {{ #[never] return marker!({A}); }} {M3.replace('::<1>', '::<9>')}"),
    F(f"loop {{ if c() {{ #[never] break marker!({A}); }} if c() {{ break {B}; }} break {C}; }}"),
    F(f"#[never] let _q = 3; #[nested] let x = 4; ev(x); {M3}"), F(f"ev(#[never] 3); ev(#[nested] 4); {M3}"),
    F(f"match #[never] n() {{ 0 => {A}, _ => {{ ev(#[never] 5); {B} }} }}"),
    F(f"match n() {{ 0 => {A}, 3 => {{ #[nested] let x = if c() {{ {B} }} else {{ {C} }}; #[nested] let _y = 5; x }} _ => {D} }}"),
    F(f"if c() {{ {A} }} else if c() {{ #[nested] let x = if c() {{ {B} }} else {{ {C} }}; #[nested] x }} else {{ {D} }}"),
    L(f"#[auto_enum(Debug)] let a = {M3}; #[auto_enum(Iterator)] let b = {I3}; ev(dbg(&a) as u32); b"),
    L(f"#[auto_enum(Iterator)] let a = if c() {{ {A} }} else {{ #[nested] match n() {{ 0 => {B}, _ => {{ #[nested] if c() {{ {C} }} else {{ {D} }} }} }} }}; a"),
    L(f"let mut x = 0; loop {{ x += 1; let _ = {{ #[auto_enum(Iterator)] {M3} }}; #[auto_enum(Iterator)] let it = {I3}; if x > 1 {{ break eat(it); }} }}", ret="u32", go="f() as u64"),
    L(f"match n() {{ 0 => Box::new({{ #[auto_enum(Iterator)] {M3} }}) as Box<dyn Iterator<Item = u32>>, _ => {{ #[auto_enum(Iterator)] let it = {I3}; Box::new(it) }} }}", ret="Box<dyn Iterator<Item = u32>>"),
    L(f"#[auto_enum] let it = {{ #[auto_enum(Iterator)] {M3} }}; it") if False else L(f"let it = {{ #[auto_enum(Iterator)] {M3} }}; it"),
    P(f"#[auto_enum] fn f() -> u32 {{ {{ #[auto_enum(Iterator)] let a = {M3}; ev(eat(a)); }} if c() {{ return 3; }} let z = o()?.max(3); z }}".replace("let z = o()?.max(3); z", "4"), "f() as u64"),
]
C19 = [
    # signatures
    P(f"#[inline] #[must_use] #[auto_enum(Iterator)] #[allow(unused)] pub(crate) fn f<'a, X: Into<u32> + Copy, const N: usize>(x: &'a X, mut y: u32, _: [u8; N]) -> {R} + 'a where X: 'a {{ y += 1; match n() {{ 0 => t::<1>((*x).into()), _ => t::<2>(y + N as u32) }} }}",
      "obs(f(&3u8, v(), [0; 3]))"),
    P(f"#[auto_enum(Iterator)] unsafe fn f(p: *const u32) -> {R} {{ if c() {{ t::<1>(*p) }} else {{ {B} }} }}", "{ let x = v(); obs(unsafe { f(&x) }) }"),
    P(f"#[auto_enum(Iterator)] extern \"C\" fn f(p: u32) -> {R} {{ if c() {{ t::<1>(p) }} else {{ {B} }} }}", "obs(f(v()))"),
    P(f"#[auto_enum(Iterator)] const fn f(p: u32, q: bool) -> {R} {{ if q {{ mk::<1>(p) }} else {{ mk::<2>(p) }} }}", "obs(f(v(), c()))"),
    P(f"pub trait Tr {{ fn f(&self, x: u32) -> Box<dyn Iterator<Item = u32>>; }} pub struct S(u32); impl Tr for S {{ #[auto_enum] fn f(&self, x: u32) -> Box<dyn Iterator<Item = u32>> {{ #[auto_enum(Iterator)] let it = match n() {{ 0 => t::<1>(self.0), _ => t::<2>(x) }}; Box::new(it) }} }}", "obs(S(v()).f(v()))"),
    P(f"pub struct S<X>(X); impl<X: Clone + Into<u32>> S<X> {{ #[auto_enum(Iterator)] pub fn f(self: &mut Self, (a, b): (u32, bool)) -> {R} + use<'_, X> {{ if b {{ t::<1>(self.0.clone().into()) }} else {{ t::<2>(a) }} }} }}", "obs(S(7u8).f((v(), c())))") ,
    # statements and attributes in the body
    F(f"#[cfg(any())] compile_error!(\"x\"); #[cfg(all())] ev(3); #[allow(unused_variables)] let x = 3; #[cfg(any())] let x = 4; ev(x); match n() {{ #[cfg(any())] 0 => panic!(), #[allow(unused)] 1 => {A}, #[cfg(all())] _ => {B} }}")
    if False else F(f"#[cfg(any())] ev(4); #[cfg(all())] ev(3); #[allow(unused_variables)] let x = 3; #[cfg(any())] let x = 4; ev(x); match n() {{ #[allow(unused)] 1 => {A}, #[cfg(all())] _ => {B} }}"),
    F(f"const K: u32 = 3; static Z: u32 = 4; type Q = u32; use core::cmp::max as mx; struct S {{ a: Q }} enum E2 {{ X(u32), Y }} impl S {{ fn g(&self) -> u32 {{ mx(self.a, K) }} }} let s = S {{ a: v() }}; ev(s.g() ^ Z); let e = if c() {{ E2::X(5) }} else {{ E2::Y }}; match e {{ E2::X(q) if q == 5 => {A}, E2::X(_) => {B}, E2::Y => {C} }}"),
    F("let S { a, b: (ref x, mut y), .. } = S { a: v(), b: (v(), v()), z: 0 }; struct S { a: u32, b: (u32, u32), z: u8 } y += 1; ev(a ^ *x); match (a, &Some(y)) { (0, _) => t::<1>(a), (_, Some(q)) if *q > 3 => t::<2>(*q), (_, &Some(q @ 0..=9)) => t::<3>(q), _ => t::<4>(y) }"),
    F(f"let a = [v(), v(), v()]; match a {{ [x, .., y] if x < y => t::<1>(x), [x, rest @ ..] => {{ ev(rest.len() as u32); t::<2>(x) }} }}"),
    F(f"let x = v(); let y = x as u64 as u32; let z = -(x as i32) as u32; let w_ = !z; let r = &x; let mut m = *r; m += 1; m <<= 1; let rg = (0..3u32).rev().sum::<u32>(); let tu = (y, z, (w_, m)); ev(tu.0 ^ tu.2.1 ^ rg); let s = \"lit\"; ev(s.len() as u32); ev(b'a' as u32); if (x == 4) as u8 == 0 && !c() || c() {{ {A} }} else {{ {B} }}"),
    F(f"let h = |a: u32, b: &mut u32| -> u32 {{ *b += a; *b }}; let mut q = v(); ev(h(3, &mut q)); let g = move |x| x ^ q; ev(g(4)); let p: fn(u32) -> u32 = |z| z + 1; ev(p(2)); if c() {{ {A} }} else {{ {B} }}"),
    F(f"let mut i = 0; let x = loop {{ i += 1; if i == 2 {{ continue; }} if i > 3 {{ break i; }} }}; 'l: for a in 0..2 {{ for b in 0..2 {{ if c() {{ continue 'l; }} ev(a ^ b); }} }} while let Some(q) = o() {{ ev(q); if c() {{ break; }} i += 1; if i > 5 {{ break; }} }} ev(x); if c() {{ {A} }} else {{ {B} }}"),
    F(f"let x = {{ let y = v(); y + 1 }}; let z = unsafe {{ *(&x as *const u32) }}; let q = const {{ 3 + 4 }}; let a = [0u8; 3]; let s = &a[1..]; ev(s.len() as u32 ^ z ^ q); let Some(t_) = Some(x) else {{ unreachable!() }}; let b = matches!(t_, 1..=300); debug_assert!(b || !b); if b {{ {A} }} else {{ {B} }}"),
    F("let v_ = vec2(v()); let s = format_args!(\"{}\", 3).as_str().is_none(); ev(s as u32); match v_.as_slice() { [a] => t::<1>(*a), [a, b, ..] if a > b => t::<2>(*a), [a, ..] => t::<3>(*a), [] => t::<4>(v()) }")
    if False else F("let v_ = [v(), 3]; match v_.as_slice() { [a] => t::<1>(*a), [a, b, ..] if a > b => t::<2>(*a), [a, ..] => t::<3>(*a), [] => t::<4>(v()) }"),
    # order of evaluation
    F(f"match {{ ev(1); n() }} {{ x if {{ ev(2); x == 0 }} => {{ ev(3); {A} }} x if {{ ev(4); x == 1 }} => {{ ev(5); {B} }} _ => {{ ev(6); {C} }} }}"),
    F(f"if {{ ev(1); c() }} {{ ev(2); t::<1>({{ ev(3); v() }}) }} else if {{ ev(4); c() }} {{ t::<2>({{ ev(5); v() }} + {{ ev(6); v() }}) }} else {{ ev(7); {C} }}"),
    F(f"let d = Dr(3); let x = match c() {{ true => {{ let _e = Dr(4); v() }} false => 2 }}; {{ let _q = Dr(5); }} if c() {{ let _z = Dr(6); t::<1>(x) }} else {{ drop(d); {B} }}"),
    F(f"let _d = Dr(3); let mut i = 0; loop {{ let _e = Dr(4); i += 1; if c() {{ let _g = Dr(5); break {A}; }} if c() {{ return {B}; }} if i > 1 {{ break {C}; }} }}"),
    F(f"match Dr(3).0 {{ 3 if c() => {A}, _ => {{ let _d = Dr(4); if c() {{ let _e = Dr(5); return {B}; }} {C} }} }}"),
    F(f"if let 3 = Dr(3).0 {{ let _k = Dr(7); if c() {{ return {C}; }} {A} }} else {{ {B} }}"),
    # shadowing names that the expansion might use
    F("let err = v(); let val = v(); let x = err ^ val; let r_ = |Ok: u32| Ok; ev(r_(3)); match n() { 0 => t::<1>(x), _ => t::<2>(err) }".replace("|Ok: u32| Ok", "|ok: u32| ok")),
    P(f"mod core {{}} mod std {{}} #[auto_enum(Iterator)] fn f() -> {R} {{ if c() {{ {A} }} else {{ {B} }} }}"),
    P(f"struct Option; struct Some_; trait Iterator2 {{}} #[auto_enum(Iterator)] fn f() -> {R} {{ if c() {{ {A} }} else {{ {B} }} }}"),
    P(f"#[auto_enum(Iterator)] fn f() -> Result<u32, {R}> {{ let err = r::<1>()?; let val = r::<2>()?; let x = (val, err); Ok(x.0 ^ (x.1 << 1) ^ r::<3>()?) }}", "obs_r(f())", ref="fn f() -> Result<u32, D> { let err = r::<1>()?; let val = r::<2>()?; let x = (val, err); Ok(x.0 ^ (x.1 << 1) ^ r::<3>()?) }"),
    P(f"#[auto_enum(Iterator)] fn f() -> ::std::result::Result<u32, u8> {{ ev(1); #[auto_enum(Iterator)] let it = {M3}; Ok(eat(it)) }}".replace("#[auto_enum(Iterator)] fn", "#[auto_enum] fn"), "f().unwrap_or(3) as u64"),
    # let statements
    L(f"#[allow(unused_mut)] #[auto_enum(Iterator)] let mut it = {M3}; ev(it.next().unwrap_or(3)); it"),
    L(f"#[auto_enum(Iterator)] #[allow(unused_mut)] let mut it = {I3}; ev(it.next().unwrap_or(3)); it"),
    L(f"#[auto_enum(Iterator)] let ref mut it = {M3}; eat(it)", ret="u32", go="f() as u64"),
    L(f"#[auto_enum(Iterator)] let it: _ = {M3}; it"), L(f"#[auto_enum(Iterator)] let _ = {M3}; v()", ret="u32", go="f() as u64"),
    L(f"#[auto_enum(Iterator)] let x @ _ = {M3}; x"),
    # declarations kept by enum_derive
    P("#[enum_derive(Iterator)] #[derive(Clone)] #[repr(u8)] #[allow(dead_code)] pub(crate) enum E<A, B> where A: Clone { A(A) = 5, B(B), }".replace(" = 5", ""),
      "{ let e: E<_, _> = if c() { E::A(t::<1>(v())) } else { E::B(t::<2>(v())) }; let g = e.clone(); obs(e) ^ (obs(g) << 1) }",
      ref="", rgo="{ let e = if c() { t::<1>(v()) } else { t::<2>(v()) }; let g = e.clone(); obs(e) ^ (obs(g) << 1) }"),
    P("pub mod m { use auto_enums::enum_derive; #[enum_derive(Iterator)] pub enum E<A: Iterator, B> where B: Clone { #[allow(dead_code)] First(A), Second(B) } } use m::E; use m::E::*;",
      "{ let mut e = if c() { First(t::<1>(v())) } else { Second(t::<2>(v())) }; let k = match &e { First(_) => 1, Second(_) => 2 }; ev(k); if let First(x) = &mut e { x.next(); } obs(e) }",
      ref="pub enum X {}", rgo="{ let b = c(); let mut e = if b { t::<1>(v()) } else { t::<2>(v()) }; ev(if b { 1 } else { 2 }); if b { e.next(); } obs(e) }"),
    P("#[enum_derive(Debug)] #[derive(Clone, Copy, PartialEq)] pub enum E<'a, A: 'a, const N: usize> where A: Copy { X(&'a A), Y([A; N]) }",
      "{ let q = v(); let e = if c() { E::X(&q) } else { E::Y([q; 1]) }; let g = e; ev((g == e) as u32); match e { E::X(x) => *x as u64, E::Y(y) => y[0] as u64 ^ 4 } }",
      ref="", rgo="{ let q = v(); let b = c(); ev(1); if b { q as u64 } else { q as u64 ^ 4 } }"),
    P("#[derive(Clone, Copy, Hash)] #[enum_derive(Display, PartialEq)] #[repr(C)] pub enum E { X(u32), Y(u8) } const _: () = { let _ = E::X(3); };",
      "{ let e = if c() { E::X(v()) } else { E::Y(3) }; let g = e; ev((g == e) as u32); match g { E::X(x) => x as u64, E::Y(y) => y as u64 } }",
      ref="", rgo="{ let b = c(); let x = if b { v() } else { 3 }; ev(1); x as u64 }"),
]


def X(pars, item, args, go="obs(f())", **kw):
    """An item generated by macro_rules!, parts of it passed through fragments."""
    src = f"macro_rules! mm {{ ({pars}) => {{ {item} }} }} mm!({args});"
    if go == "obs_r(f())":
        kw["ref"] = src.replace(R, "D")
    return P(src, go, **kw)


AI = f"#[auto_enum(Iterator)] fn f() -> {R}"
C13 += [
    X("$e:expr", f"{AI} {{ $e }}", M3), X("$e:expr", f"{AI} {{ $e }}", I3), X("$e:expr", f"{AI} {{ ev(1); $e }}", f"{{ ev(2); {I3} }}"),
    X("$e:expr", f"{AI} {{ ($e) }}", M3), X("$e:expr", f"{AI} {{ $e.map(|q| q ^ 5) }}", M3), X("$e:expr", f"{AI} {{ {{ unsafe {{ $e }} }} }}", f"({M3})"),
    X("$e:expr", f"{AI} {{ $e }}", f"{M3}.map(|q| q ^ 5)"), X("$e:expr", f"{AI} {{ $e.skip(1) }}", f"({I3}).map(|q| q ^ 5)"),
    X("$e:expr, $g:expr", f"{AI} {{ match $g {{ 0 => $e, 1 => {B}, _ => {C} }} }}", f"{A}, n()"),
    X("$e:expr, $g:expr", f"{AI} {{ if $g {{ $e }} else {{ {B} }} }}", f"{A}, c()"),
    X("$e:expr, $p:expr", f"{AI} {{ match n() {{ 0 => $e, 77 => $p, 78 => {{ $p }} 79 => {{ ev(1); $p }} 80 => ($p), 81 => {{ $p; }} _ => {B} }} }}", f"{A}, panic!()"),
    X("$e:expr, $p:expr", f"{AI} {{ match n() {{ 0 => $e, 77 => $p, 78 => {{ {{ $p }} }} _ => {B} }} }}", f"{A}, {{ ev(3); unreachable!() }}"),
    X("$e:expr, $p:expr", f"{AI} {{ match n() {{ 0 => $e, 77 => $p, _ => {B} }} }}", f"{A}, match n() {{ 0 => panic!(), 1..=3 => panic!(), _ => unreachable!() }}"),
    X("$e:expr, $p:expr", f"{AI} {{ match n() {{ 0 => $e, 1 => $p, 2 => {{ $p }} _ => {B} }} }}", f"{A}, return {C}"),
    X("$e:expr, $p:expr", f"{AI} {{ if c() {{ $e }} else if n() > 90 {{ $p }} else if n() > 80 {{ #[never] $p }} else {{ {B} }} }}", f"{A}, std::panic!(\"x\")"),
    X("$e:expr, $p:expr", f"{AI} {{ match n() {{ 0 => $e, #[never] 77 => $p, 78 => #[never] $p, _ => {B} }} }}", f"{A}, never()"),
    X("$($n:pat => $e:expr),*", f"{AI} {{ match n() {{ $($n => $e),* }} }}", f"0 | 3 => {A}, 1 => {B}, 2 if false => {D}, _ => {C}".replace("2 if false", "4..=9")),
    X("$($n:pat, $g:expr => $e:expr),*", f"{AI} {{ match n() {{ $($n if $g => $e,)* _ => {D} }} }}", f"0 | 3, c() => {A}, 1, true => {{ ev(1); {B} }}, k, k > 1 => {C}".replace("k, k > 1", "2, c()")),
    X("$e:expr, $($g:expr => $h:expr),*", f"{AI} {{ $(if $g {{ $h }} else)* {{ $e }} }}", f"{A}, c() => {B}, n() == 1 => {{ ev(1); {C} }}, c() => {D}"),
    X("$b:block", f"{AI} $b", f"{{ ev(3); {M3} }}"), X("$b:block", f"{AI} {{ $b }}", f"{{ ev(3); {I3} }}"),
    X("$b:block, $h:block", f"{AI} {{ if c() $b else if c() $h else {{ {C} }} }}", f"{{ ev(1); {A} }}, {{ {B} }}"),
    X("$b:block, $h:block", f"{AI} {{ match n() {{ 0 => $b, 1 => $h, _ => {C} }} }}", f"{{ ev(1); {A} }}, {{ {B} }}"),
    X("$b:block, $h:block", f"{AI} {{ match n() {{ 0 => {A}, 77 => $b, 78 => $h, _ => {C} }} }}", "{ panic!() }, { ev(1); unreachable!(); }"),
    X("$b:block", f"{AI} {{ unsafe {{ $b }} }}", f"{{ ev(1); {M3} }}"),
    X("$b:block", f"{AI} {{ $b.map(|q| q + 1) }}", f"{{ ev(1); {M3} }}"),
    X("$e:expr", f"#[auto_enum] fn f() -> {R} {{ #[auto_enum(Iterator)] let it = $e; it }}", M3),
    X("$e:expr", f"#[auto_enum] fn f() -> {R} {{ #[auto_enum(Iterator)] let it = ({{ ev(1); $e }}).skip(1); it }}", I3),
    X("$e:expr", f"#[auto_enum] fn f() -> {R} {{ let it = #[auto_enum(Iterator)] $e; it }}", M3),
    X("$e:expr", f"#[auto_enum] fn f() -> Option<{R}> {{ Some(#[auto_enum(Iterator)] $e) }}", I3, go="obs(f().unwrap())"),
    X("$e:expr", f"#[auto_enum] fn f() -> {R} {{ $e }}", f"{{ #[auto_enum(Iterator)] let it = {M3}; it }}"),
    X("$s:stmt; $e:expr", f"{AI} {{ $s; $e }}", f"ev(4); {M3}"),
    X("$i:item $e:expr", f"{AI} {{ $i $e }}", f"fn g() -> u32 {{ 4 }} match n() {{ 0 => {A}, 1 => {{ ev(g()); {B} }} _ => {C} }}"),
    X("$i:item", "$i", f"{AI} {{ {M3} }}"),
    X("$(#[$m:meta])* $v:vis $n:ident $e:expr", f"$(#[$m])* $v fn $n() -> {R} {{ $e }}", f"#[allow(dead_code)] #[auto_enum(Iterator)] #[inline] pub(crate) f {M3}"),
    X("$t:path, $e:expr", f"#[auto_enum($t)] fn f() -> {R} {{ $e }}", f"Iterator, {M3}"),
    X("$($t:path),*; $r:ty; $e:expr", "#[auto_enum($($t),*)] fn f() -> $r { $e }", f"Iterator, DoubleEndedIterator; {R}; {M3}"),
    X("$l:literal $e:expr", f"{AI} {{ match n() {{ $l => $e, _ => {B} }} }}", f"1 {A}"),
]
C14 += [
    X("$b:block", f"{AI} {{ loop $b }}", f"{{ ev(1); if c() {{ break {A}; }} break {B}; }}"),
    X("$e:expr", f"{AI} {{ $e }}", f"loop {{ if c() {{ break {A}; }} ev(2); break {B} }}"),
    X("$e:expr", f"{AI} {{ loop {{ if c() {{ break $e; }} break {B} }} }}", f"{{ ev(5); {A} }}"),
    X("$e:expr", f"{AI} {{ loop {{ if c() {{ $e }} break {B} }} }}", f"break {A}"),
    X("$e:expr", f"{AI} {{ loop {{ if c() {{ $e; }} ev(1); break {B} }} }}", f"{{ ev(3); break {A} }}"),
    X("$e:expr", f"{AI} {{ $e }}", f"'a: loop {{ if c() {{ break 'a {A}; }} loop {{ if c() {{ break; }} break 'a {B} }} break {C} }}"),
    X("$e:expr", f"{AI} {{ loop {{ $e; loop {{ if c() {{ break; }} break }} break {B} }} }}", f"{{ if c() {{ break {A}; }} }}"),
    X("$e:expr", f"{AI} {{ loop {{ let mut i = 0; $e; for _ in {{ if c() {{ break {C}; }} 0..2 }} {{ i += 1; if i == 2 {{ break; }} }} break {B} }} }}", "loop { ev(1); if c() { break; } break }"),
    X("$e:expr", f"{AI} {{ match n() {{ 0 => {{ ev(1); #[nested] $e }} _ => {C} }} }}", f"loop {{ if c() {{ break {A}; }} break {B}; }}"),
    X("$e:expr", f"#[auto_enum] fn f() -> {R} {{ #[auto_enum(Iterator)] let it = $e; it }}", f"loop {{ if c() {{ break {A}; }} ev(2); break {B} }}"),
]
C15 += [
    X("$e:expr", f"{AI} {{ if c() {{ $e }} {I3} }}", "return t::<4>(1)"), X("$e:expr", f"{AI} {{ if c() {{ return $e; }} {I3} }}", "{ ev(2); t::<4>(1) }"),
    X("$e:expr", f"{AI} {{ $e; return {B}; }}", f"if c() {{ return {A} }}"), X("$s:stmt", f"{AI} {{ $s; return {B} }}", f"if c() {{ return {A}; }}"),
    X("$b:block", f"{AI} $b", f"{{ if c() {{ return {D}; }} {I3} }}"),
    X("$e:expr", f"#[auto_enum] fn f() -> {R} {{ #[auto_enum(Iterator)] let h = $e; h(v()) }}", f"|q: u32| {{ if q == 1 {{ return {A}; }} ev(q); {B} }}".replace(B, "match n() { 0 => t::<2>(q), _ => t::<3>(1) }")),
    X("$e:expr", f"#[auto_enum] fn f() -> {R} {{ #[auto_enum(Iterator)] let h = |q: u32| $e; h(v()) }}", f"{{ if c() {{ return {A}; }} match n() {{ 0 => {B}, _ => {C} }} }}"),
    X("$e:expr", f"{AI} {{ let k = $e; ev(k()); if c() {{ return {A}; }} match n() {{ 0 => {B}, _ => {C} }} }}", "|| { if c() { return 3u32; } 4 }"),
    X("$t:ty", f"#[auto_enum(Iterator)] fn f() -> $t {{ if c() {{ return {A}; }} {M3} }}".replace("return t::<1>", "return t::<4>"), R),
    P(f"#[auto_enum(Iterator)] fn f() -> ({R}) {{ if c() {{ return {A}; }} if c() {{ return {B}; }} match n() {{ 0 => {C}, _ => {D} }} }}"),
    P(f"#[auto_enum(Iterator)] fn f() -> (({R})) {{ if c() {{ return {A}; }} match n() {{ 0 => {C}, _ => {D} }} }}"),
    X("$t:ty", f"#[auto_enum(Iterator)] fn f() -> ($t) {{ if c() {{ return {A}; }} match n() {{ 0 => {C}, _ => {D} }} }}", f"({R})"),
    X("$t:ty", "#[auto_enum(Iterator)] fn f() -> Result<u32, $t> { ev(r::<1>()?); let k = r::<2>()?; Ok(k ^ 1) }", R, go="obs_r(f())"),
    X("$t:ty", "#[auto_enum(Iterator)] fn f() -> $t { ev(r::<1>()?); let k = r::<2>()?; Ok(k ^ 1) }", f"Result<u32, {R}>", go="obs_r(f())"),
    X("$a:ty, $t:ty", "#[auto_enum(Iterator)] fn f() -> std::result::Result<$a, ($t)> { ev(r::<1>()?); let k = r::<2>()?; Ok(k ^ r::<3>()?) }", f"u32, {R}", go="obs_r(f())"),
    X("$e:expr, $g:expr", f"#[auto_enum(Iterator)] fn f() -> Result<u32, {R}> {{ ev($e); let k = $g?; Ok(k) }}", "r::<1>()?, r::<2>()", go="obs_r(f())"),
    X("$e:expr", f"#[auto_enum(Iterator)] fn f() -> Result<u32, {R}> {{ ev(r::<2>()?); $e }}", "{ let k = r::<1>()?; Ok(k) }", go="obs_r(f())"),
    X("$e:expr", f"#[auto_enum(Iterator)] fn f() -> Result<u32, {R}> {{ let x = (|| $e)(); ev(x.unwrap_or(3)); let k = r::<2>()?; Ok(k ^ r::<1>()?) }}", "{ o()?; Some(4u32) }", go="obs_r(f())"),
]
C16 += [
    X("$e:expr", f"{AI} {{ if c() {{ $e }} else {{ {B} }} }}", f"{{ ev(1); marker!({A}) }}"),
    X("$e:expr", f"#[auto_enum] fn f() -> {R} {{ #[auto_enum(Iterator)] let it = {{ let x = $e; x }}; it }}", f"if c() {{ marker!({A}) }} else {{ marker!({B}) }}"),
    X("$e:expr", f"#[auto_enum] fn f() -> {R} {{ #[auto_enum(Iterator)] let it = {{ let x = if c() {{ marker!($e) }} else {{ marker!({B}) }}; x }}; it }}", A),
    X("$e:expr", f"#[auto_enum] fn f() -> {R} {{ let it = #[auto_enum(Iterator)] {{ let x = o().map_or_else(|| marker!({B}), |q| $e); x }}; it }}", f"{{ ev(1); marker!({A}) }}"),
    X("$m:ident $e:expr", f"#[auto_enum] fn f() -> {R} {{ #[auto_enum(Iterator, marker = $m)] let it = {{ let x = if c() {{ $e }} else {{ $m!({B}) }}; x }}; it }}", f"mk1 mk1!({A})", markers=("mk1",)),
    X("$m:ident $e:expr", f"#[auto_enum(Iterator, marker = $m)] fn f() -> {R} {{ let x = if c() {{ $e }} else {{ $m![{B}] }}; x }}", f"mk1 mk1! {{ {A} }}", markers=("mk1",)),
]
C17 += [
    X("$e:expr", f"{AI} {{ match n() {{ 0 => {A}, 1 => {{ ev(1); #[nested] $e }} _ => {C} }} }}", f"if c() {{ {B} }} else {{ {D} }}"),
    X("$e:expr", f"{AI} {{ match n() {{ 0 => {A}, 1 => {{ #[nested] let x = $e; x }} _ => {C} }} }}", f"if c() {{ {B} }} else {{ {D} }}"),
    X("$e:expr", f"{AI} {{ match n() {{ 0 => {A}, #[nested] 1 => $e, _ => {C} }} }}", f"if c() {{ {B} }} else {{ {D} }}"),
    X("$e:expr", f"{AI} {{ match n() {{ 0 => {A}, 1 => $e, _ => {C} }} }}", f"{{ #[nested] if c() {{ {B} }} else {{ {D} }} }}"),
    X("$e:expr", f"{AI} {{ match n() {{ 0 => {A}, 1 => $e, _ => {C} }} }}", f"{{ ev(1); {{ #[nested] let x = match c() {{ true => {B}, _ => {D} }}; x }} }}"),
    X("$e:expr", f"{AI} {{ match n() {{ 0 => {A}, 1 => $e, _ => {C} }} }}", f"{{ #[auto_enum(Iterator)] let x = match c() {{ true => {B}, _ => {D} }}; x }}"),
    X("$e:expr, $g:expr", f"{AI} {{ match n() {{ 0 => {A}, 1 => {{ #[auto_enum(Iterator)] let x = $e; x }} _ => $g }} }}", f"match c() {{ true => {B}, _ => {D} }}, {{ ev(2); {C} }}"),
    X("$i:item $e:expr", f"{AI} {{ $i $e }}", f"#[auto_enum(Iterator)] fn g() -> impl Iterator<Item = u32> {{ if c() {{ return t::<8>(1); }} return t::<9>(2); }} match n() {{ 0 => {{ ev(eat(g())); {A} }} 1 => {B}, _ => {C} }}"),
    X("$e:expr", f"{AI} {{ let k = eat($e); ev(k); {M3} }}", f"#[auto_enum(Iterator)] if c() {{ t::<4>(v()) }} else {{ t::<5>(v()) }}"),
]


# names that only look like the macro's own
MACS = "".join(f"macro_rules! {m} {{ ($e:expr) => {{ $e }} }} " for m in ("mark", "markers", "marker_", "marker2", "a_marker"))
C16 += [
    F(MACS + f"match n() {{ 0 => mark!({A}), 1 => markers!({B}), 2 => {{ ev(1); marker_!({C}) }} _ => {{ marker2!({D}) }} }}"),
    F(MACS + f"let x; if c() {{ x = marker!(a_marker!({A})); }} else if c() {{ x = marker![markers!({B})]; }} else {{ x = marker! {{ mark!({C}) }}; }} x"),
    F(MACS + f"if c() {{ return a_marker!({A}); }} if c() {{ return marker!({B}); }} match n() {{ 0 => a_marker!({C}), _ => marker!({D}) }}"),
    P("mod kit { macro_rules! marker_ { ($e:expr) => { $e } } pub(crate) use marker_ as marker; } "
      + f"#[auto_enum(Iterator)] fn f() -> {R} {{ match n() {{ 0 => kit::marker!({A}), 1 => {{ ev(1); self::kit::marker!({B}) }} 2 => marker!({C}), _ => {D} }} }}"),
    F(f"let x = if c() {{ r#try!({A}) }} else if c() {{ r#try![{B}] }} else {{ ev(1); r#try! {{ {C} }} }}; x", "Iterator, marker = r#try", markers=("r#try",)),
    F(f"match n() {{ 0 => r#loop!({A}), 1 => r#loop!({B}), _ => {{ ev(2); r#loop!({C}) }} }}", "marker = r#loop, Iterator", markers=("r#loop",)),
    L(f"#[auto_enum(Iterator, marker = mark)] let it = {{ let x = if c() {{ mark!({A}) }} else {{ mark!({B}) }}; x }}; "
      f"#[auto_enum(Iterator, marker = markers)] let jt = {{ let x = if c() {{ markers!({A}) }} else {{ markers!({B}) }}; x }}; ev(eat(jt)); it", markers=("mark", "markers")),
    F(f"let jt = {{ #[auto_enum(Iterator, marker = marker2)] let x = {{ let y; if c() {{ y = marker2!({A}); }} else if c() {{ return mark!({D}); }} else {{ y = marker2!({C}); }} y }}; x }}; if c() {{ mark!(jt) }} else {{ mark!(t::<5>(1)) }}", "Iterator, marker = mark", markers=("mark", "marker2")),
]
C14 += [
    F(f"'a: loop {{ 'aa: loop {{ 'ab: loop {{ if c() {{ break 'ab; }} if c() {{ break 'aa; }} break 'a {A}; }} if c() {{ break 'a {B}; }} break 'aa; }} if c() {{ break {C}; }} break 'a {D}; }}"),
    F(f"'aa: loop {{ let k = 'a: loop {{ if c() {{ break 'a 3u32; }} if c() {{ break 'aa {A}; }} break 4; }}; ev(k); if c() {{ break {B}; }} break 'aa {C}; }}"),
    F(f"'_a: loop {{ 'a_: loop {{ if c() {{ break '_a {A}; }} break 'a_; }} if c() {{ break {B}; }} break '_a {C}; }}"),
]
C13 += [
    F(f"match n() {{ #[rustfmt::never] 0 => {A}, #[clippy::nested] 1 => {B}, #[rustfmt::auto_enum] 2 => {C}, _ => {D} }}"),
    F(f"match n() {{ #[rustfmt::never] 0 => {A}, 1 => {{ #[rustfmt::nested] let x = {B}; x }} 2 => {{ #[clippy::auto_enum] let x = {C}; x }} _ => {{ #[clippy::never] let x = {D}; x }} }}"),
]


def c19_decls():
    """Enum declarations under enum_derive against the same declaration with the ordinary derives only."""
    res = []
    AV = "A(A), B(B)"
    decls = [   # (attributes before, attributes after, declaration, ordinary derives used, use)
        ("", "#[repr(u16)] #[allow(dead_code)]", f"pub enum E<A, B> {{ {AV} }}", "", "SZ"),
        ("#[repr(u32)]", "", f"pub(crate) enum E<A, B> {{ {AV} }}", "", "SZ"),
        ("", "#[repr(C, u8)]", f"enum E<A, B> {{ {AV} }}", "", "SZ"),
        ("", "#[repr(C)] #[allow(unused)]", f"enum E<A, B: Clone> where A: Clone {{ #[allow(dead_code)] A(A), B(#[allow(unused)] B) }}", "", "SZ"),
        ("", "#[derive(PartialEq)] #[repr(u16)]", f"enum E<A, B> {{ {AV} }}", "PartialEq", "SZ"),
        ("#[derive(PartialEq)]", "#[repr(i64)]", f"enum E<A, B> {{ {AV} }}", "PartialEq", "SZ"),
        ("#[derive(PartialEq)]", "#[derive(Hash)] #[repr(u64)]", f"enum E<A, B> {{ {AV} }}", "PartialEq Hash", "SZ"),
        ("#[doc = \"x\"] #[cfg(all())]", "/// y\n #[cfg_attr(all(), derive(PartialEq))] #[cfg_attr(any(), repr(u8))] #[cfg_attr(all(), repr(u32))]", f"enum E<A, B> {{ {AV} }}", "PartialEq", "SZ"),
        ("", "#[repr(u8)]", f"pub(in super) enum E<A, B, const N: usize = 3> {{ {AV} }}", "", "SZ"),
        ("", "#[repr(u16)]", f"enum E<A, B = A> {{ {AV} }}", "", "SZ"),
    ]
    lists_ = ["Iterator", "Iterator, Clone", "Clone, Iterator", "Debug, Clone", "Clone", "Iterator, DoubleEndedIterator, Clone, Debug", "Future", "Future, Clone", "Error, Clone",
              "Read, Clone", "::core::clone::Clone, Iterator", "transpose::Result", "Iterator, Clone, Copy"]
    ordi = lambda l: ", ".join(x for x in l.split(", ") if x.split("::")[-1] in ("Clone", "Copy"))
    for i, (b4, aft, d, der, use) in enumerate(decls):
        for j, l in enumerate(lists_):
            if (i + j) % 3 and not (j in (1, 3) and i in (0, 4)):
                continue
            if "Result" in l:
                l = "Iterator, Clone"
            bnd = d
            # bounded type parameters and Debug/Iterator need no change; pin-needing derives need none either
            o = ordi(l)
            go = ("{ type X = E<u8, u8>; let mut r = (core::mem::size_of::<X>() as u64) << 8 ^ (core::mem::align_of::<X>() as u64) ^ (core::mem::size_of::<E<u64, u8>>() as u64) << 20; "
                  "let mut e: X = if c() { E::A(v() as u8) } else { E::B(7) }; if let E::A(x) = &mut e { *x ^= 5; } ")
            if "PartialEq" in der:
                go += "r ^= ((e == E::A(3)) as u64) << 30 ^ ((e != E::B(7)) as u64) << 31; "
            if "Hash" in der:
                go += "fn hs<H: core::hash::Hash>(_: &H) {} hs(&e); "
            if "Clone" in l:
                go += "let g = e.clone(); r ^= match g { E::A(x) => x as u64, E::B(y) => 256 + y as u64 } << 40; "
            if "Copy" in l:
                go += "let g = e; r ^= match g { E::A(x) => x as u64, E::B(_) => 4 }; "
            go += "r ^= match e { E::A(x) => x as u64 * 3, E::B(y) => 64 + y as u64 }; r }"
            rd = f"#[derive({o})]" if o else ""
            res.append(P(f"{b4} #[enum_derive({l})] {aft} {bnd}", go, ref=f"{b4} {rd} {aft} {bnd}", markers=()))
    return res


C19 += c19_decls()

USE21 = ("use std::{fmt, error::{self, Error}, fmt::{Debug, Display}, future::Future, ops::{Deref, DerefMut}, io};")


def T21(src, go="obs(f())", ref=None, **kw):
    """A type_analysis program; in the reference every `impl ...` type is D."""
    p = P(src, go, ref=ref or imp(src), **kw)
    p["pre"] = USE21
    return p


def imp(src):
    """Replaces every outermost `impl A + B` type by D (only in types: after `->`, `<`, `,`, `(`, `[`, `&` or `:`)."""
    import re
    out, i = "", 0
    for m in re.finditer(r"(?<=[<:(,\[>&])\s*impl ", src):
        if m.start() < i:
            continue
        out += src[i:m.start()] + " D"
        j, d = m.end(), 0
        while j < len(src):
            ch = src[j]
            if ch in "<([" :
                d += 1
            elif ch in ")]" or ch == ">" and src[j - 1] != "-":
                if d == 0:
                    break
                d -= 1
            elif d == 0 and ch in ",;={":
                break
            j += 1
        out += " " * (src[j - 1] == " ") 
        i = j
    return out + src[i:]


def probes(x, have):
    """Which traits the type of x implements; T<K> implements all of them."""
    tests = [("Iterator<Item = u32>", "Iterator"), ("Debug", "Debug"), ("Display", "Display"), ("Error", "Error"),
             ("Future<Output = u32>", "Future"), ("Clone", "Clone")]
    return " ".join(f"has!({x}, {t}, {str(n in have).lower()});" for t, n in tests)


def c21():
    I = "Iterator<Item = u32>"
    res = []
    add = lambda *a, **k: res.append(T21(*a, **k))
    # functions
    for b in (M3, I3, f"if c() {{ return {A}; }} ev(3); return {B};", f"let x; if c() {{ x = marker!({A}); }} else {{ x = marker!({B}); }} x",
              f"loop {{ if c() {{ break {A}; }} break {B}; }}"):
        add(f"#[auto_enum] fn f() -> impl {I} {{ {b} }}")
    go_all = "{ let x = f(); let d = dbg(&x); obs(x) ^ d }"
    for ty in (f"impl {I} + Debug", f"impl Debug + {I}", f"impl {I} + fmt::Debug", f"impl fmt::Debug + {I} + Send + 'static"):
        for at in ("", "(Iterator)", "(Debug)", "(fmt::Debug)", "(Iterator, Debug)", "(Debug, Iterator)", "(fmt::Debug, Display)", "(marker = mk)", "(marker = mk, Debug)"):
            add(f"#[auto_enum{at}] fn f() -> {ty} {{ {M3} }}", go_all)
    # types that come out of macro_rules! fragments
    for at in ("", "(Debug)", "(Iterator, Debug)"):
        for pars, ty, arg in (("$t:ty", "$t", f"impl {I} + Debug"), ("$t:ty", "($t)", f"impl {I} + fmt::Debug"), ("$t:ty", "$t", f"(impl Debug + {I})"),
                              ("$i:ty", "impl Iterator<Item = $i> + Debug", "u32"), ("$i:ident", f"impl {I} + $i", "Debug"), ("$l:lifetime", f"impl {I} + Debug + $l", "'static")):
            add(f"macro_rules! mm {{ ({pars}) => {{ #[auto_enum{at}] fn f() -> {ty} {{ if c() {{ return {D}; }} {M3} }} }} }} mm!({arg});", go_all)
            add(f"macro_rules! mm {{ ({pars}) => {{ #[auto_enum] fn f() -> impl {I} + Debug {{ #[auto_enum{at}] let x: {ty} = {M3}; x }} }} }} mm!({arg});", go_all,
                ref=f"fn f() -> D {{ let x = {M3}; x }}")
    add(f"#[auto_enum] fn f() -> impl Debug + Display {{ {I3} }}", "{ let x = f(); dbg(&x) ^ dsp(&x) }")
    add(f"#[auto_enum] fn f() -> impl fmt::Debug + fmt::Display {{ {I3} }}", "{ let x = f(); dbg(&x) ^ dsp(&x) }")
    add(f"#[auto_enum] fn f() -> impl error::Error {{ {I3} }}", "{ let x = f(); dbg(&x) ^ dsp(&x) }")
    add(f"#[auto_enum] fn f() -> impl Error + fmt::Debug + Display {{ {I3} }}", "{ let x = f(); dbg(&x) ^ dsp(&x) }")
    add(f"#[auto_enum] fn f() -> impl Future<Output = u32> + Debug {{ {M3} }}", "block_on(f()) as u64")
    add(f"#[auto_enum] fn f() -> impl {I} + Clone {{ {M3} }}", "{ let x = f(); let y = x.clone(); obs(x) ^ obs(y) }")
    add(f"#[auto_enum] fn f() -> impl Fn(u32) -> u32 {{ match n() {{ 0 => |a: u32| a + 1, _ => |a: u32| a ^ 9 }} }}", "f()(v()) as u64",
        ref="fn f() -> Box<dyn Fn(u32) -> u32> { match n() { 0 => Box::new(|a: u32| a + 1), _ => Box::new(|a: u32| a ^ 9) } }")
    add(f"#[auto_enum] fn f() -> impl FnMut(u32) -> u32 {{ let mut k = v(); if c() {{ move |a: u32| {{ k += a; k }} }} else {{ |a: u32| a ^ 9 }} }}", "{ let mut h = f(); (h(3) ^ h(4)) as u64 }",
        ref="fn f() -> Box<dyn FnMut(u32) -> u32> { let mut k = v(); if c() { Box::new(move |a: u32| { k += a; k }) } else { Box::new(|a: u32| a ^ 9) } }")
    add(f"#[auto_enum] fn f() -> impl AsRef<[u32]> {{ let x = v(); match n() {{ 0 => [x, 4], 1 => [x], _ => [] as [u32; 0] }} }}", "f().as_ref().iter().fold(7, |a, b| a * 31 + *b as u64)",
        ref="fn f() -> Box<[u32]> { let x = v(); match n() { 0 => Box::new([x, 4]), 1 => Box::new([x]), _ => Box::new([]) } }")
    add(f"#[auto_enum] fn f() -> impl Iterator<Item = impl Debug> {{ {M3} }}", "{ let mut x = f(); let a = x.next().is_some() as u64; a + x.size_hint().0 as u64 }")
    add(f"#[auto_enum] fn f() -> impl Iterator<Item = (impl Debug + Clone, u8)> {{ match n() {{ 0 => {A}.map(|q| (q, 1)), _ => {B}.map(|q| (q, 2)) }} }}".replace("Debug + Clone", "Clone"),
        "{ let mut x = f(); x.next().map_or(4, |p| p.1 as u64) }", ref=f"fn f() -> Box<dyn Iterator<Item = (u32, u8)>> {{ match n() {{ 0 => Box::new({A}.map(|q| (q, 1))), _ => Box::new({B}.map(|q| (q, 2))) }} }}") if False else None
    # the impl Trait deeper in the return type
    X = f"let x; if c() {{ x = marker!({A}); }} else {{ ev(3); x = marker!({B}); }}"
    for ty, e, go in ((f"Option<impl {I}>", "Some(x)", "obs(f().unwrap())"), (f"Box<impl {I}>", "Box::new(x)", "obs(f())"),
                      (f"(u32, impl {I})", "(3, x)", "obs(f().1)"), (f"(impl {I}, u32)", "(x, 3)", "obs(f().0)"),
                      (f"Result<impl {I}, u32>", "Ok(x)", "obs(f().unwrap())"), (f"[impl {I}; 1]", "[x]", "obs(f().into_iter().next().unwrap())"),
                      (f"Option<(u8, Box<impl {I} + Debug>)>", "Some((3, Box::new(x)))", "{ let x = f().unwrap(); dbg(&x.1) ^ obs(x.1) }"),
                      (f"std::vec::IntoIter<impl {I}>", "[x].into_iter()", "0") ,
                      (f"W<impl {I}>", "W(x, 3)", "obs(f())")):
        if "vec::" in ty:
            continue
        add(f"#[auto_enum] fn f() -> {ty} {{ {X} {e} }}", go)
        if "(u8, " not in ty:
            add(f"#[auto_enum(Iterator)] fn f() -> {ty} {{ {X} {e} }}", go)
            add(f"#[auto_enum(Debug)] fn f() -> {ty} {{ {X} {e} }}", go)
    add(f"#[auto_enum] fn f() -> (impl {I}, impl Debug) {{ let x = pick(marker!({A}), marker!({B})); let y = pick(marker!({C}), marker!({D})); (x, y) }}",
        "{ let (x, y) = f(); obs(x) ^ dbg(&y) }", ref=f"fn f() -> (D, D) {{ let x = pick({A}, {B}); let y = pick({C}, {D}); (x, y) }}") if False else None
    add(f"#[auto_enum] fn f() -> Result<u32, impl Debug + Display> {{ let a = r::<1>()?; let b = r::<2>()?; Ok(a ^ b) }}", "match f() { Ok(x) => x as u64, Err(e) => dbg(&e) ^ dsp(&e) }")
    add(f"#[auto_enum] fn f() -> Result<u32, impl Error> {{ let a = r::<1>()?; let h = || -> Option<u32> {{ let z = o()?; Some(z) }}; ev(h().unwrap_or(3)); Ok(a ^ r::<2>()?) }}", "match f() { Ok(x) => x as u64, Err(e) => dbg(&e) ^ dsp(&e) }")
    add(f"#[auto_enum] fn f() -> std::result::Result<u32, impl Iterator<Item = u32>> {{ Ok(r::<1>()? ^ r::<2>()?) }}", "obs_r(f())")
    # arguments are not part of the return type
    add(f"#[auto_enum] fn f(q: impl Display + Copy) -> impl {I} {{ ev(dsp(&q) as u32); {M3} }}", "obs(f(3u8))",
        ref=f"fn f(q: impl Display + Copy) -> D {{ ev(dsp(&q) as u32); {M3} }}")
    add(f"#[auto_enum] fn f<X: Iterator<Item = u32>>(q: X) -> impl {I} {{ if c() {{ q.chain(None) }} else {{ {B} }} }}", "obs(f(t::<1>(v())))",
        ref=f"fn f<X: Iterator<Item = u32> + Into<D>>(q: X) -> D {{ if c() {{ q.into() }} else {{ {B} }} }}") if False else None
    # types that mention no impl Trait
    add(f"#[auto_enum] fn f() -> u32 {{ if c() {{ return 3; }} ev(4); match n() {{ 0 => v(), _ => 5 }} }}", "f() as u64")
    add(f"#[auto_enum] fn f() -> Option<u32> {{ let x: u32 = o()?; if c() {{ return None; }} Some(x) }}", "f().unwrap_or(3) as u64")
    add(f"#[auto_enum] fn f() -> Box<dyn {I}> {{ #[auto_enum] let it: impl {I} = {M3}; Box::new(it) }}")
    add(f"#[auto_enum] fn f() {{ #[auto_enum] let it: impl {I} = {M3}; ev(eat(it)); #[auto_enum] let x: u32 = if c() {{ v() }} else {{ 3 }}; ev(x); }}", "{ f(); 1 }")
    add(f"#[auto_enum] fn f() -> impl {I} {{ fn g() -> impl Debug {{ 3u8 }} ev(dbg(&g()) as u32); {M3} }}", ref=f"fn f() -> D {{ fn g() -> impl Debug {{ 3u8 }} ev(dbg(&g()) as u32); {M3} }}")
    add(f"#[auto_enum] fn f() -> u32 {{ fn g() -> impl Debug {{ 3u8 }} ev(dbg(&g()) as u32); if c() {{ 3 }} else {{ 4 }} }}", "f() as u64", ref=f"fn f() -> u32 {{ fn g() -> impl Debug {{ 3u8 }} ev(dbg(&g()) as u32); if c() {{ 3 }} else {{ 4 }} }}")
    # a function that needs no enum, because its value comes from one of its children or it has one result
    add(f"#[auto_enum] fn f() -> impl {I} {{ #[auto_enum] let it: impl {I} = {M3}; it }}")
    add(f"#[auto_enum] fn f() -> impl {I} {{ #[auto_enum(Iterator)] let it = {M3}; ev(3); it.map(|q| q ^ 4) }}", ref=f"fn f() -> Box<dyn {I}> {{ let it = {M3}; ev(3); Box::new(it.map(|q| q ^ 4)) }}")
    add(f"#[auto_enum] fn f() -> impl {I} {{ #[auto_enum] let it: impl {I} = {M3}; if c() {{ it }} else {{ {D} }} }}")
    add(f"#[auto_enum] fn f() -> impl {I} {{ #[auto_enum] let it: impl {I} = {M3}; return it; }}")
    add(f"#[auto_enum] fn f() -> impl {I} {{ #[auto_enum] let it: impl {I} = {M3}; if c() {{ return {D}; }} return it; }}")
    # markers of a child do not make the function one that has results of its own
    for ch in (f"let e = #[auto_enum(Iterator)] match n() {{ 0 => marker!({A}), 1 => {{ ev(3); marker!({B}) }} _ => {C} }}; return e;",
               f"#[auto_enum(Iterator)] let e = {{ let x; if c() {{ x = marker!({A}); }} else {{ x = marker!({B}); }} x }}; return e;",
               f"let e; #[auto_enum(Iterator)] match n() {{ 0 => e = marker!({A}), _ => e = marker!({B}) }}; return e;",
               f"#[auto_enum] let e: impl {I} = {{ let x; if c() {{ x = marker!({A}); }} else {{ x = marker!({B}); }} x }}; ev(4); e",
               f"ev(2); return #[auto_enum(Iterator)] if c() {{ marker!({A}) }} else {{ {B} }};"):
        add(f"#[auto_enum] fn f() -> impl {I} {{ {ch} }}")
    # let statements: the enum itself can be looked at
    for at, ty, have in (
            ("", f"impl {I}", ["Iterator"]), ("", "impl Debug", ["Debug"]), ("", "impl fmt::Debug", ["Debug"]), ("", "impl Display", ["Display"]),
            ("", "impl fmt::Display", ["Display"]), ("", "impl Clone", ["Clone"]), ("", "impl Future<Output = u32>", ["Future"]),
            ("", f"impl {I} + Debug", ["Iterator", "Debug"]), ("", f"impl {I} + fmt::Debug + Clone + Send + 'static", ["Iterator", "Debug", "Clone"]),
            ("", "impl Error", ["Error", "Debug", "Display"]), ("", "impl error::Error + Debug", ["Error", "Debug", "Display"]),
            ("", "impl Debug + Display + Error", ["Error", "Debug", "Display"]), ("", "impl fmt::Debug + fmt::Display + error::Error + Clone", ["Error", "Debug", "Display", "Clone"]),
            ("(Debug)", f"impl {I}", ["Iterator", "Debug"]), ("(Iterator)", f"impl {I}", ["Iterator"]), ("(Iterator, Debug)", f"impl {I}", ["Iterator", "Debug"]),
            ("(fmt::Debug)", "impl Debug", ["Debug"]), ("(Debug)", "impl fmt::Debug", ["Debug"]), ("(Clone)", f"impl {I} + Clone", ["Iterator", "Clone"]),
            ("(Error)", "impl Debug", ["Error", "Debug", "Display"]), ("(Display, marker = mk)", "impl Debug", ["Debug", "Display"]),
            ("(Iterator, Debug)", "_", ["Iterator", "Debug"])):
        add(f"#[auto_enum] fn f() {{ #[auto_enum{at}] let it: {ty} = {M3}; {probes('it', have)} }}", "{ f(); 1 }")
        add(f"fn f() {{ #[auto_enum{at}] let it: {ty} = {I3}; {probes('it', have)} }}", "{ f(); 1 }")
    for ty, e, p_, have in (
            (f"Option<impl {I}>", f"Some(pick(marker!({A}), marker!({B})))", "it.as_ref().unwrap()", ["Iterator"]),
            (f"(impl {I} + Debug, u8)", f"(pick(marker!({A}), marker!({B})), 3)", "it.0", ["Iterator", "Debug"]),
            (f"[impl Display; 2]", f"[marker!({A}), marker!({B})]", "it[0]", ["Display"]),
            (f"(impl {I}, impl Debug)", f"pick((marker!({A}), 3), (marker!({B}), 4))", "it.0", ["Iterator", "Debug"]),
            (f"W<impl Clone>", f"pick(W(marker!({A}), 1), W(marker!({B}), 2))", "it.0", ["Clone"]),
            (f"Option<impl Iterator<Item = impl Debug>>", f"Some(pick(marker!({A}), marker!({B})))", "it.as_ref().unwrap()", ["Iterator", "Debug"])):
        if "as_ref" in p_:
            body = f"let Some(z) = it else {{ panic!() }}; {probes('z', have)}"
        else:
            body = f"let z = it; {probes('z' + p_[2:], have)}"
        add(f"fn f() {{ #[auto_enum] let it: {ty} = {e}; {body} }}", "{ f(); 1 }", ref=f"fn f() {{ let it = {e.replace('marker!', '')}; {body} }}")
    return res


# every supported trait: (bound, trait for the probe, two values, other traits the list needs)
SUP21 = [
    ("Clone", "Clone", "[3u8]", "4u32", ""), ("Copy + Clone", "Copy", "[3u8]", "4u32", ""), ("PartialEq", "PartialEq", "3u8", "4u32", ""),
    ("PartialEq + Eq", "Eq", "3u8", "4u32", ""), ("PartialEq + PartialOrd", "PartialOrd", "3u8", "4u32", ""),
    ("PartialEq + Eq + PartialOrd + Ord", "Ord", "3u8", "4u32", ""), ("Hash", "Hash", "3u8", "4u32", ""),
    ("AsRef<[u32]>", "AsRef<[u32]>", "[v()]", "[4u32, 5]", ""), ("AsMut<[u32]>", "AsMut<[u32]>", "[v()]", "[4u32, 5]", ""),
    ("Debug", "Debug", "3u8", "4u32", ""), ("fmt::Debug", "Debug", "3u8", "4u32", ""), ("Display", "Display", "3u8", "'a'", ""), ("fmt::Display", "Display", "3u8", "'a'", ""),
    ("fmt::Binary", "fmt::Binary", "3u8", "4u32", ""), ("fmt::LowerExp", "fmt::LowerExp", "3u8", "4u32", ""), ("fmt::LowerHex", "fmt::LowerHex", "3u8", "4u32", ""),
    ("fmt::Octal", "fmt::Octal", "3u8", "4u32", ""), ("fmt::Pointer", "fmt::Pointer", "&3u8", "&4u32", ""), ("fmt::UpperExp", "fmt::UpperExp", "3u8", "4u32", ""),
    ("fmt::UpperHex", "fmt::UpperHex", "3u8", "4u32", ""), ("fmt::Write", "fmt::Write", "Out(core::cell::Cell::new(1))", "String::new()", ""),
    ("Iterator<Item = u32>", "Iterator<Item = u32>", "0..v()", "[4u32; 2].into_iter()", ""),
    ("DoubleEndedIterator<Item = u32>", "DoubleEndedIterator<Item = u32>", "Some(v()).into_iter()", "[4u32; 2].into_iter()", ""),
    ("ExactSizeIterator<Item = u32>", "ExactSizeIterator<Item = u32>", "Some(v()).into_iter()", "[4u32; 2].into_iter()", ""),
    ("FusedIterator<Item = u32>", "FusedIterator<Item = u32>", "Some(v()).into_iter()", "[4u32; 2].into_iter()", ""),
    ("TrustedLen<Item = u32>", "TrustedLen<Item = u32>", "Some(v()).into_iter()", "[4u32; 2].into_iter()", ""),
    ("Extend<u32>", "Extend<u32>", "Vec::new()", "std::collections::VecDeque::new()", ""),
    ("Deref<Target = u32>", "Deref<Target = u32>", "Box::new(v())", "std::rc::Rc::new(5u32)", ""),
    ("DerefMut<Target = u32>", "DerefMut<Target = u32>", "Box::new(v())", "std::mem::ManuallyDrop::new(5u32)", ""),
    ("Index<usize, Output = u32>", "Index<usize, Output = u32>", "[v()]", "[4u32, 5]", ""), ("IndexMut<usize, Output = u32>", "IndexMut<usize, Output = u32>", "[v()]", "[4u32, 5]", ""),
    ("RangeBounds<u32>", "RangeBounds<u32>", "0..v()", "..=7u32", ""),
    ("Fn(u32) -> u32", "Fn(u32) -> u32", "|a: u32| a + 1", "|a: u32| a ^ 2", ""), ("FnMut(u32) -> u32", "FnMut(u32) -> u32", "|a: u32| a + 1", "|a: u32| a ^ 2", ""),
    ("FnOnce(u32) -> u32", "FnOnce(u32) -> u32", "|a: u32| a + 1", "|a: u32| a ^ 2", ""), ("for<'a> Fn(&'a u32) -> u32", "Fn(&u32) -> u32", "|a: &u32| *a + 1", "|a: &u32| *a ^ 2", ""),
    ("Coroutine<(), Yield = u32, Return = u8>", "Coroutine<(), Yield = u32, Return = u8>", "Co(3)", "Co2", ""),
    ("Future<Output = u32>", "Future<Output = u32>", "core::future::ready(v())", "async { 5u32 }", ""),
    ("Read", "io::Read", "io::empty()", "&[1u8, 2][..]", ""), ("io::Read", "io::Read", "io::empty()", "&[1u8, 2][..]", ""),
    ("BufRead", "io::BufRead", "io::empty()", "&[1u8, 2][..]", ""), ("io::BufRead", "io::BufRead", "io::empty()", "&[1u8, 2][..]", ""),
    ("Write", "io::Write", "io::sink()", "Vec::<u8>::new()", ""), ("io::Write", "io::Write", "io::sink()", "Vec::<u8>::new()", ""),
    ("Seek", "io::Seek", "io::empty()", "io::Cursor::new([3u8; 2])", ""), ("io::Seek", "io::Seek", "io::empty()", "io::Cursor::new([3u8; 2])", ""),
    ("Error", "error::Error", "Ee(3)", "fmt::Error", ""), ("error::Error", "error::Error", "Ee(3)", "fmt::Error", ""),
]
USE_SUP21 = ("use std::{fmt::{self, Debug, Display}, error::{self, Error}, future::Future, hash::Hash, io::{self, Read, Write, BufRead, Seek}, iter::{FusedIterator, TrustedLen}, "
             "ops::{self, Deref, DerefMut, Index, IndexMut, RangeBounds, Coroutine, CoroutineState}, pin::Pin}; "
             "pub struct Co(u8); impl Coroutine<()> for Co { type Yield = u32; type Return = u8; fn resume(self: Pin<&mut Self>, _: ()) -> CoroutineState<u32, u8> { CoroutineState::Complete(self.0) } } "
             "pub struct Co2; impl Coroutine<()> for Co2 { type Yield = u32; type Return = u8; fn resume(self: Pin<&mut Self>, _: ()) -> CoroutineState<u32, u8> { CoroutineState::Yielded(4) } } "
             "#[derive(Debug)] pub struct Ee(u8); impl Display for Ee { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } } impl Error for Ee {} ")


def sup21():
    """Every trait of the supported list is collected: one program per position of the type, a few traits each."""
    import re
    out = []
    both = lambda x, y: f"if c() {{ {x} }} else {{ {y} }}"
    ref = lambda k: f"fn f() {{ {'ev(1); ' * k} }}"
    pos = [
        lambda i, b, t, x, y: (f"#[auto_enum] fn g{i}() -> impl {b} {{ {both(x, y)} }}", f"has!(g{i}(), {t}, true);"),
        lambda i, b, t, x, y: (f"fn g{i}() {{ #[auto_enum] let it: impl {b} = match n() {{ 0 => {x}, _ => {y} }}; has!(it, {t}, true); }}", f"g{i}();"),
        lambda i, b, t, x, y: (f"#[auto_enum] fn g{i}() -> Option<(u8, impl Sized + {b})> {{ let x; if c() {{ x = marker!({x}); }} else {{ x = marker!({y}); }} Some((3, x)) }}", f"has!(g{i}().unwrap().1, {t}, true);"),
        lambda i, b, t, x, y: (f"#[auto_enum(Clone, marker = mk)] fn g{i}() -> impl {b} {{ return {x}; #[allow(unreachable_code)] mk!({y}) }}" if "Clone" not in b and all(q not in x + y for q in ("Co", "io::", "Out", "Ee", "async", "&mut"))
                               else f"#[auto_enum(marker = mk)] fn g{i}() -> impl {b} {{ if c() {{ return {x}; }} mk!({y}) }}", f"has!(g{i}(), {t}, true);"),
    ]
    for pi, f in enumerate(pos):
        for lo in range(0, len(SUP21), 8):
            fs, go = [], []
            for i, (b, t, x, y, _) in enumerate(SUP21[lo:lo + 8]):
                a, g = f(i, b, t, x, y)
                fs.append(a)
                go.append(g)
            # the reference knows that every probe succeeds; it makes the same number of choices, which are not observable here
            p = dict(src=" ".join(fs) + " pub fn f() { " + " ".join(go) + " }", go="{ f(); 1 }", markers=set(),
                     ref="pub fn f() { " + "ev(1); " * len(go) + "}", pre=USE_SUP21, rpre="")
            out.append(p)
    return out


C21 = c21() + sup21()
