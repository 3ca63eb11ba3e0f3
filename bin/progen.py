"""Random well-typed programs over the constructs #[auto_enum] supports.

Every program is a text with macro attributes; `reference` strips them. In the reference all results
have one type, so the same text is an ordinary Rust program.
"""
import random, re

HELPERS = ("auto_enum", "nested", "never", "enum_derive")


def strip_attrs(src):
    """Remove the macro's attributes (balanced brackets) and let types only the macro understands."""
    out, i = [], 0
    pat = re.compile(r"#\[\s*(?:%s)\b" % "|".join(HELPERS))
    while True:
        m = pat.search(src, i)
        if not m:
            out.append(src[i:])
            break
        out.append(src[i:m.start()])
        j, d = m.start() + 1, 0
        while True:
            if src[j] == "[":
                d += 1
            elif src[j] == "]":
                d -= 1
                if d == 0:
                    break
            j += 1
        i = j + 1
    return "".join(out)


def instantiate(src):
    """`@T(ty)@` is a let type seen only by the macro -> (macro version, reference version)."""
    a = re.sub(r"@T\((.*?)\)@", r": \1", src)
    r = strip_attrs(re.sub(r"@T\((.*?)\)@", "", src))
    return a, r


def cx_out(cx):
    """Inside a further loop unlabelled exits mean that loop."""
    return {**cx, "loops": [(l, k, False, m) for (l, k, o, m) in cx.get("loops", [])], "ld": cx.get("ld", 0) + 1}


class G:
    def __init__(self, rng, depth=3):
        self.r = rng
        self.k = 0          # result sites so far
        self.u = 0          # unique names
        self.depth = depth
        self.budget = 26    # constructs left
        self.markers = {"marker"}
        self.mkp = None     # how often results are written with a marker (None: as the caller says)
        self.ta = False     # traits come from impl Trait types
        self.frag = 0       # how often expressions are marked as fragments

    def fr(self, e):
        """Perhaps marks e as an expression that reaches the macro through `$e:expr`."""
        return f"\u27e6{e}\u27e7" if self.frag and self.chance(self.frag) else e

    def site(self):
        self.k += 1
        return self.k

    def uniq(self, p):
        self.u += 1
        return f"{p}{self.u}"

    def chance(self, p):
        return self.r.random() < p

    # ---- values -----------------------------------------------------------------------------
    def leaf(self, cx, k=None):
        return self.fr(self.leaf_(cx, k))

    def leaf_(self, cx, k=None):
        """An expression that is one result."""
        k = self.site() if k is None else k
        t = f"t::<{k}>(v())"
        if "child" in cx.get("extra", []) and self.budget > 3 and self.chance(.12):
            return self.child_result(cx)
        x = self.r.random()
        if x < .55:
            return t
        if x < .65:
            return f"w({t})" if cx.get("wrap", True) else t
        if x < .75:
            return f"{{ ev({self.r.randrange(90)}); {t} }}"
        if x < .82:
            return f"match c() {{ true => {t}, false => t::<{k}>(5) }}" if cx.get("wrap", True) else t
        if x < .88:
            return f"if c() {{ {t} }} else {{ t::<{k}>(6) }}" if cx.get("wrap", True) else t
        if x < .94:
            return f"{{ let x = v(); t::<{k}>(x) }}"
        return f"({t})"

    # ---- statements -------------------------------------------------------------------------
    def stmts(self, cx, d, lo=0, hi=2):
        return " ".join(self.stmt(cx, d) for _ in range(self.r.randint(lo, hi)))

    def exits(self, cx):
        """Expressions that leave the surrounding code with a result or without one."""
        e = []
        if cx.get("ret"):
            e.append(lambda: f"return {self.ret_value(cx)}")
        for lab, kind, own, mk in cx.get("loops", []):
            names = ([""] if own else []) + ([lab] if lab else [])
            for nm in names:
                if kind == "result":
                    e.append(lambda nm=nm, mk=mk: f"break {nm} {self.marked(cx, mk)}")
                    e.append(lambda nm=nm: f"continue {nm}")
                elif kind in ("u32", "blk32"):
                    e.append(lambda nm=nm: f"break {nm} {self.r.randrange(9)}u32")
                elif kind == "unit":
                    e.append(lambda nm=nm: f"break {nm}")
                    e.append(lambda nm=nm: f"continue {nm}")
                elif kind == "blk":
                    e.append(lambda nm=nm: f"break {nm}")
        return e

    def marked(self, cx, mk, p=.2):
        x = self.leaf(cx)
        if not mk or not self.chance(self.mkp or p):
            return x
        return self.fr(self.m(mk, x, paren=False))

    def m(self, mk, x=None, cx=None, paren=True):
        """Result x behind a marker, in one of the spellings of a macro call."""
        x = x or self.leaf(cx)
        if mk == "marker!" or self.mkp is None:
            return f"{mk}!({x})"
        return self.r.choice([f"{mk}!({x})", f"{mk}!({x})", f"{mk}!({x})", f"{mk}! {{ {x} }}", f"{mk}![{x}]"] + [f"({mk}!({x}))"] * paren)

    def carrier(self, cx, mk, d):
        return self.fr(self.carrier_(cx, mk, d))

    def carrier_(self, cx, mk, d):
        """An expression the macro does not walk into: its results carry markers."""
        r = self.r
        m = lambda: self.m(mk, cx=cx)
        x = self.uniq("x")
        q = lambda: f"{mk}!(t::<{self.site()}>(q))"
        k = r.randrange(9)
        if k == 0:
            e = "".join(f" else if {self.cond()} {{ {self.stmts(cx, 1, 0, 1)} {x} = {m()}; }}" for _ in range(r.randint(0, 2)))
            return f"{{ let {x}; if {self.cond()} {{ {x} = {m()}; }}{e} else {{ {x} = {m()}; }} {x} }}"
        if k == 1:
            b = self.uniq("'c")
            return f"{b}: {{ {self.stmts(cx, 1, 0, 1)} if c() {{ break {b} {m()}; }} if {self.cond()} {{ break {b} {m()} }} {m()} }}"
        if k == 2:
            return f"{{ let {x} = o().map(|q| {q()}).unwrap_or_else(|| {m()}); {x} }}"
        if k == 3:
            return f"{{ let {x} = [{m()}, {m()}]; {x}.into_iter().nth(c() as usize).unwrap() }}"
        if k == 4:
            return f"id({m()})"
        if k == 5:
            return f"{{ let {x} = match o() {{ Some(q) if q % 2 == 0 => {q()}, Some(_) => {m()}, None => {m()} }}; {x} }}"
        if k == 6:
            i = self.uniq("i")
            return (f"{{ let mut {i} = 0; let {x} = loop {{ {i} += 1; if {i} > 2 {{ break {m()}; }} {self.stmts(cx_out(cx), 1, 0, 1)} "
                    f"if c() {{ break {m()}; }} }}; ev({i}); {x} }}")
        if k == 7:
            return f"{{ let {x} = if {self.cond()} {{ {m()} }} else {{ {self.stmts(cx, 1, 0, 1)} {m()} }}; {x} }}"
        return f"{{ let {x} = pick({m()}, {m()}); {x} }}"

    def ret_value(self, cx):
        if cx["ret"] == "site":
            return self.marked(cx, cx.get("ret_marker"), .25)
        return cx["ret"]()

    def push(self, cx, lab, kind, mk=None):
        own = kind not in ("blk", "blk32")
        # an unlabelled break means the innermost loop; it is not allowed inside a labelled block
        loops = [(l, k, False, m) for (l, k, o, m) in cx.get("loops", [])]
        return {**cx, "loops": loops + [(lab, kind, own, mk)], "ld": cx.get("ld", 0) + own}

    def cond(self):
        return self.r.choice(["c()", "c()", "n() == 1", "c() && n() < 2", "o().is_some()"])

    def stmt(self, cx, d):
        r = self.r
        self.budget -= 1
        if cx.get("slots") and self.chance(.35):
            sl, mk = r.choice(cx["slots"])
            q = lambda: self.m(mk, f"t::<{self.site()}>(q)")
            return r.choice([
                lambda: f"{sl} = Some({self.m(mk, cx={**cx, 'extra': []})});", lambda: f"{sl} = o().map(|q| {q()});",
                lambda: f"{{ let h = |q: u32| {{ ev(3); {q()} }}; {sl} = Some(h(v())); }}",
                lambda: f"if c() {{ let h = move || {mk}!(t::<{self.site()}>(4)); {sl} = Some(h()); }}",
                lambda: f"for q in 0..2 {{ {sl} = Some({q()}); }}"])()
        choices = ["ev", "let"]
        if d > 0 and self.budget > 0:
            choices += ["if", "ifelse", "match", "exit", "exit", "exit"]
            choices += cx.get("extra", [])
            if cx.get("inner", True):
                choices += ["blk", "closure", "async", "item", "letelse"]
                if cx.get("ld", 0) < 2:
                    choices += ["while", "for", "loop", "looplet"]
        ch = r.choice(choices)
        if ch == "ev":
            return f"ev({r.randrange(99)});"
        if ch == "let":
            x = self.uniq("x")
            return f"let {x} = v(); ev({x});"
        if ch == "if":
            return f"if {self.cond()} {{ {self.stmts(cx, d - 1, 1, 2)} }}"
        if ch == "ifelse":
            return f"if let Some(q) = o() {{ ev(q); {self.stmts(cx, d - 1)} }} else {{ {self.stmts(cx, d - 1, 1, 1)} }}"
        if ch == "match":
            return f"match n() {{ 0 | 3 => {{ {self.stmts(cx, d - 1, 1, 1)} }} x if x == 1 => {{ {self.stmts(cx, d - 1)} }} _ => ev(8), }}"
        if ch == "exit":
            e = self.exits(cx)
            if not e:
                return "ev(17);"
            return f"if {self.cond()} {{ {self.stmts(cx, 0, 0, 1)} {r.choice(e)()}; }}"
        if ch == "letelse":
            e = self.exits(cx)
            if not e:
                return "ev(18);"
            z = self.uniq("z")
            return f"let Some({z}) = o() else {{ {r.choice(e)()} }}; ev({z});"
        if ch in ("while", "for", "loop"):
            lab = self.uniq("'l") if self.chance(.5) else None
            if cx.get("shadow") and lab and self.chance(.3):
                lab = r.choice([l for l, _, _, _ in cx.get("loops", []) if l] or [lab])
            l = f"{lab}: " if lab else ""
            cx2 = self.push(self.hide(cx, lab), lab, "unit")
            body = self.stmts(cx2, d - 1, 1, 2)
            i = self.uniq("i")
            if ch == "while":
                return f"let mut {i} = 0u8; {l}while {i} < 2 {{ {i} += 1; {body} }}"
            if ch == "for":
                return f"{l}for {i} in 0..2u32 {{ ev({i}); {body} }}"
            return f"let mut {i} = 0u8; {l}loop {{ {i} += 1; if {i} > 2 {{ break; }} {body} }}"
        if ch == "looplet":
            lab = self.uniq("'l") if self.chance(.5) else None
            l = f"{lab}: " if lab else ""
            cx2 = self.push(self.hide(cx, lab), lab, "u32")
            i, y = self.uniq("i"), self.uniq("y")
            return (f"let mut {i} = 0u8; let {y} = {l}loop {{ {i} += 1; if {i} > 2 {{ break 1u32; }} "
                    f"{self.stmts(cx2, d - 1, 1, 2)} }}; ev({y});")
        if ch == "blk":
            lab, y = self.uniq("'b"), self.uniq("y")
            if self.chance(.5):
                cx2 = self.push(cx, lab, "blk")
                return f"{lab}: {{ {self.stmts(cx2, d - 1, 1, 2)} }}"
            cx2 = self.push(cx, lab, "blk32")
            return f"let {y} = {lab}: {{ {self.stmts(cx2, d - 1, 1, 2)} {r.randrange(50)}u32 }}; ev({y});"
        if ch in ("closure", "async", "item"):
            # code of its own: its exits are its own
            f = self.uniq("f")
            cx2 = dict(ret=lambda: f"{r.randrange(50)}u32", loops=[], inner=True, ld=cx.get("ld", 0))
            sub = d - 1
            if ch == "closure":
                body = self.stmts(cx2, sub, 1, 2)
                q = ""
                return f"let {f} = |a: u32| -> u32 {{ if a & 1 == 1 {{ return 4; }} {body} a }}; ev({f}(v()));"
            if ch == "async":
                body = self.stmts(cx2, sub, 1, 2)
                if self.chance(.4):
                    return (f"let {f} = async {{ if c() {{ Err(3u32)?; }} if c() {{ return Err(4u32); }} Ok::<u32, u32>(5) }}; "
                            f"ev(block_on({f}).unwrap_or_else(|e| e + 1));")
                return f"let {f} = async {{ if c() {{ return 4u32; }} {body} 9u32 }}; ev(block_on({f}));"
            body = self.stmts(cx2, sub, 1, 1)
            return f"fn {f}(a: u32) -> u32 {{ if a & 2 == 2 {{ return 6; }} {body} a }} ev({f}(v()));"
        if ch == "child":
            return self.child(cx, d - 1)
        raise AssertionError(ch)

    def hide(self, cx, lab):
        """A loop labelled like an outer one hides that label."""
        if not lab:
            return cx
        return {**cx, "loops": [(None if l == lab else l, k, o, m) for (l, k, o, m) in cx.get("loops", [])]}

    # ---- nested auto_enum ---------------------------------------------------------------------
    def child(self, cx, d):
        """A let statement or expression with an auto_enum of its own."""
        pre, post, cx = self.slot(cx)
        if pre:
            return pre + self.child_stmt(cx, d) + post
        return self.child_stmt(cx, d)

    def slot(self, cx):
        """A variable of the outer result type that code inside a child may fill through the outer marker."""
        outs = []
        if cx.get("ret") == "site" and cx.get("ret_marker"):
            outs.append(("return", cx["ret_marker"]))
        outs += [(f"break {nm}", mk) for l, k, o, mk in cx.get("loops", []) if k == "result" and mk for nm in [""] * o + [l] * bool(l)]
        outs = [(e, m) for e, m in outs if m != "marker"]
        if not self.mkp or not outs or not self.chance(.5):
            return "", "", cx
        e, m = self.r.choice(outs)
        sl = self.uniq("sl")
        return f"let mut {sl} = None; ", f" if let Some(z) = {sl} {{ #[never] {e} z; }}", {**cx, "slots": cx.get("slots", []) + [(sl, m)]}

    def inside(self, cx):
        """-> (name of the marker, attribute arguments, what is visible inside a child)"""
        custom = self.chance(.5)
        m = self.uniq("m") if custom else "marker"
        self.markers.add(m)
        args = f"Iterator, marker = {m}" if custom else "Iterator"
        vis = lambda k: k if k != "marker" else None    # default-named markers do not reach inside
        sub = {**cx, "marker": m, "ret_marker": vis(cx.get("ret_marker")),
               "loops": [(l, k, o, vis(mk)) for (l, k, o, mk) in cx.get("loops", [])], "arms": True}
        return custom, m, args, sub

    def child_result(self, cx):
        """A result of this enum that is the value of a child."""
        it = self.uniq("it")
        custom, m, args, sub = self.inside(cx)
        self.budget -= 3
        t = self.tail(sub, 1, force=True)
        return self.r.choice([
            f"{{ #[auto_enum({args})] let {it} = {t}; {it} }}", f"{{ #[auto_enum({args})] let {it} = {t}; ev(6); w({it}) }}",
            f"{{ let {it} = #[auto_enum({args})] {t}; {it} }}", f"{{ let {it} = {{ #[auto_enum({args})] {t} }}; {it} }}",
            f"{{ let h = || {{ ev(4); #[auto_enum({args})] let {it} = {self.tail(dict(marker=m, extra=[], ret=None, ld=2), 1, force=True)}; {it} }}; h() }}"])

    def child_stmt(self, cx, d):
        it = self.uniq("it")
        custom, m, args, sub = self.inside(cx)
        if self.mkp and self.chance(.4):
            # a statement with a semicolon: only markers make results
            sub = {**sub, "loops": [(l, k, False, mk) for (l, k, o, mk) in sub["loops"]]} if self.chance(.3) else sub
            y = lambda: f"{it} = {self.m(m, cx=sub)};"
            z = lambda: f"{{ {self.stmts(sub, 1, 0, 1)} {y()} }}"
            b = self.r.choice([lambda: f"match n() {{ 0 => {z()} 1 if c() => {z()} _ => {z()} }}", lambda: f"if {self.cond()} {z()} else {z()}",
                               lambda: f"{{ if c() {z()} else {z()} }}", lambda: f"if let Some(_) = o() {z()} else if c() {z()} else {z()}"])()
            return f"let {it}; #[auto_enum({args})] {b}; ev(eat({it}));"
        t = self.tail(sub, max(d, 1), force=True)
        x = self.r.random()
        if x < .4 or self.ta:
            if self.ta:
                a = [x for x in [f"marker = {m}" if custom else "", "Iterator" if self.chance(.2) else ""] if x]
                a = f"({', '.join(a)})" if a else ""
                ty = self.r.choice(["impl Iterator<Item = u32>", "impl Iterator<Item = u32> + Send"])
                return f"#[auto_enum{a}] let {it}@T({ty})@ = {t}; " + (f"has!({it}, Iterator<Item = u32>, true); " if self.chance(.5) else "") + f"ev(eat({it}));"
            return f"#[auto_enum({args})] let {it} = {t}; ev(eat({it}));"
        if x < .7:
            return f"let {it} = #[auto_enum({args})] {t}; ev(eat({it}));"
        return f"let {it}; {it} = #[auto_enum({args})] {t}; ev(eat({it}));"

    # ---- results ------------------------------------------------------------------------------
    def arm(self, cx, d):
        """Body of a match arm / if branch: (attribute on the arm, expression)."""
        r = self.r
        self.budget -= 1
        x = r.random()
        if self.mkp and cx.get("marker") and self.chance(.3):
            e = self.carrier(cx, cx["marker"], d)
            return ("#[never] ", e) if cx.get("arms", True) else ("", "#[never] {" + e + "}")
        if d > 0 and self.budget > 0:
            if x < .28:
                return "", self.nested(cx, d - 1)
            if x < .36 and cx.get("arms", True):
                return "#[nested] ", self.tail(cx, d - 1)
            if x < .50:
                e = self.exits(cx)
                if e:
                    return "", self.fr(r.choice(e)())
            if x < .62:
                return "", f"{{ {self.stmts(cx, d - 1, 1, 2)} {self.leaf(cx)} }}"
        if x > .97 and cx.get("ret") == "site":
            return "#[never] ", f"{{ ev(3); loop {{ if c() {{ ev(1); }} return {self.leaf(cx)}; }} }}"
        return "", self.marked(cx, cx.get("marker"), .15)

    def nested(self, cx, d):
        """A branch body whose results are found through #[nested]."""
        t = self.tail(cx, d)
        x = self.r.random()
        if x < .5:
            return f"{{ {self.stmts(cx, 1, 0, 1)} #[nested] {t} }}"
        y = self.uniq("y")
        if x < .75:
            return f"{{ #[nested] let {y} = {t}; ev(5); {y} }}"
        return f"{{ let {y} = #[nested] {t}; {y} }}"

    def tail(self, cx, d, force=False):
        return self.fr(self.tail_(cx, d, force))

    def tail_(self, cx, d, force=False):
        """An expression the macro walks into: at least one result of its own, two if `force`."""
        r = self.r
        kinds = ["match", "match", "if", "if"] + ["loop"] * (cx.get("ld", 0) < 2)
        if d > 0:
            kinds += ["block", "unsafe", "paren"]
        kinds = [k for k in kinds if k in cx.get("kinds", kinds)] or ["match"]
        k = r.choice(kinds)
        if k == "match":
            cx = {**cx, "arms": True}
            n = r.randint(2, 4)
            arms = [f"{i} => " for i in range(n - 1)] + ["_ => "]
            if self.chance(.3):
                arms[0] = "0 if c() => "
            s = ""
            for i, a in enumerate(arms):
                last = i == len(arms) - 1
                at, e = ("", self.leaf(cx)) if i == 0 or force and last else self.arm(cx, d)
                s += f"{at}{a}{e}, "
            if self.chance(.2):
                s = r.choice([f"99 => {self.fr('unreachable!()')}, ", f"99 => {self.fr('panic!(9)')}, ".replace("9)", '"x")'), "#[never] 99 => never(), ",
                               "99 => { ev(1); unreachable!() } ", "99 => { ev(2); panic!(\"y\"); } "]) + s
            return f"match n() {{ {s}}}"
        if k == "if":
            n = r.randint(0, 2)
            cxi = {**cx, "arms": False}
            s = f"if {self.cond()} {{ {self.stmts(cxi, min(d, 1), 0, 1)} {self.leaf(cxi)} }}"
            for _ in range(n):
                s += f" else if {r.choice([self.cond(), 'let Some(q) = o()'])} {{ {self.branch(cxi, d)} }}"
            return s + f" else {{ {self.leaf(cxi) if force else self.branch(cxi, d)} }}"
        if k == "loop":
            lab = self.uniq("'r") if self.chance(.6) else None
            i = self.uniq("i")
            cx2 = self.push(cx, lab, "result", cx.get("marker"))
            body = self.stmts(cx2, d, 1, 3)
            l = f"{lab}: " if lab else ""
            f = f" if c() {{ break {self.leaf(cx2)}; }}" if force else ""
            return f"{{ let mut {i} = 0u8; {l}loop {{ {i} += 1; if {i} > 2 {{ break {self.leaf(cx2)}; }}{f} {body} }} }}"
        if k == "block":
            return f"{{ {self.stmts(cx, d - 1)} {self.tail(cx, d - 1, force)} }}"
        if k == "unsafe":
            return f"unsafe {{ {self.tail(cx, d - 1, force)} }}"
        if k == "paren":
            return f"({self.tail(cx, d - 1, force)})"
        raise AssertionError(k)

    def branch(self, cx, d):
        at, e = self.arm(cx, d)
        return f"{at}{e}" if at.startswith("#[never]") else e


FORMS = ("fn", "fn", "let", "expr", "closure", "bare_let", "bare_expr", "method")


def adapt(g, t, p=.25):
    """Perhaps a chain of method calls on the annotated expression."""
    if g.chance(p):
        t += f".map(|q| q ^ {g.r.randrange(9)})" * g.r.randint(1, 2)
        if g.chance(.3):
            t = f"({t}).chain(None)"
    return t


def fn_program(rng, depth, extra=(), kinds=None, marker="marker", ret=True, inner=True, shadow=False, budget=22, mk=True,
               forms=FORMS, mkp=None, ta=False, frag=0):
    """One annotated function, closure, let statement or expression whose value is an iterator."""
    g = G(rng, depth)
    g.budget = budget
    form = rng.choice(forms)
    g.mkp, g.ta, g.frag = mkp, ta, frag
    if mkp and rng.random() < .5:
        marker = rng.choice(["foo", "mark", "m_", "panic_"])
    g.markers.add(marker)
    if form not in ("fn", "method", "closure"):
        ret = False
    cx = dict(ret="site" if ret else None, loops=[], inner=inner, extra=list(extra),
              marker=marker if mk else None, ret_marker=marker if mk else None, shadow=shadow)
    if kinds:
        cx["kinds"] = kinds
    margs = "" if marker == "marker" else f", marker = {marker}"
    if rng.random() < .3 and margs:
        at = f"#[auto_enum(marker = {marker}, Iterator)]"
    else:
        at = f"#[auto_enum(Iterator{margs}{',' if rng.random() < .2 else ''})]"
    go = "obs(f())"
    R = "impl Iterator<Item = u32>"
    if ta:
        a = [x for x in [margs[2:], "Iterator" if rng.random() < .2 else "", "Clone" if rng.random() < .15 else ""] if x]
        rng.shuffle(a)
        at = f"#[auto_enum({', '.join(a)})]" if a else "#[auto_enum]"
        R = rng.choice([R, R, "impl Iterator<Item = u32> + 'static", "impl Send + Iterator<Item = u32>"])
    if frag and rng.random() < .5:
        R = rng.choice([f"\u27e8{R}\u27e9", f"({R})", f"(\u27e8{R}\u27e9)"]) if " + " not in R else f"\u27e8{R}\u27e9"
    if form in ("fn", "method"):
        s = g.stmts(cx, depth, 0, 2)
        if mkp and rng.random() < .4:
            t = g.carrier(cx, marker, depth)
            t = f"#[never] {t}" if rng.random() < .2 else t
        else:
            t = adapt(g, g.tail(cx, depth, force=True), 0 if ret else .25)
        if form == "fn":
            src = f"{at} fn f() -> {R} {{ {s} {t} }}"
        else:
            go = "obs(S.f(3))"
            src = f"pub struct S; impl S {{ {at} pub fn f(&self, a: u32) -> {R} {{ ev(a); {s} {t} }} }}"
    elif form == "closure":
        s = g.stmts(cx, depth, 0, 2)
        t = g.tail(cx, depth, force=True)
        b = f"{{ {s} {t} }}" if s or rng.random() < .5 else t
        d = rng.choice(["", "#[auto_enum] "])
        mv = rng.choice(["", "move "])
        b = g.fr(f"{mv}|a: u32| {b}")
        if rng.random() < .5:
            src = f"{d}fn f() -> {R} {{ let y = v(); {at} let h = {b}; h(y) }}"
        else:
            src = f"{d}fn f() -> {R} {{ let y = v(); let h = {at} {b}; h(y) }}"
    else:
        s = g.stmts({**cx, "marker": None}, 1, 0, 1)
        # an attribute written inside an unannotated function is a root of its own
        d = "" if form.startswith("bare") else "#[auto_enum] "
        t = adapt(g, g.tail(cx, depth, force=True))
        if form.endswith("let") and ta:
            src = f"{d}fn f() -> {R} {{ {s} {at} let it@T({R})@ = {t}; has!(it, Iterator<Item = u32>, true); ev(7); it }}"
        elif form.endswith("let"):
            src = f"{d}fn f() -> {R} {{ {s} {at} let it = {t}; ev(7); it }}"
        elif rng.random() < .5:
            src = f"{d}fn f() -> {R} {{ {s} let it = {at} {t}; it }}"
        else:
            src = f"{d}fn f() -> Option<{R}> {{ {s} Some({at} {t}) }}"
            go = "obs(f().unwrap())"
    return fragments(dict(src=src, go=go, markers=g.markers, sites=g.k), rng)


KEEP = set("u8 u16 u32 u64 i8 i16 i32 i64 as break const continue else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while "
           "async await dyn t v c n o w r".split())


def fragments(p, rng):
    """Puts the marked expressions and types of a program into macro_rules! fragments: the macro sees them in invisible groups."""
    if "\u27e6" not in p["src"] and "\u27e8" not in p["src"]:
        return p
    seed = rng.random()
    plain = {**p, **{k: re.sub("[\u27e6-\u27e9]", "", p[k]) for k in ("src", "ref") if k in p}}
    for key in ("src", "ref"):
        if key not in p:
            continue
        rng2, s, args = random.Random(seed), p[key], []

        def walk(i, end, keep):
            """Copies s from i to the unmatched closing mark; fragments only where keep."""
            out = ""
            while i < len(s):
                ch = s[i]
                if ch in "\u27e6\u27e8":
                    frag = keep and rng2.random() < (.5 if ch == "\u27e6" else .8)
                    k = len(args)
                    if frag:
                        args.append(None)
                    j, inner = walk(i + 1, "\u27e7" if ch == "\u27e6" else "\u27e9", keep and not frag)
                    if frag:
                        args[k] = ("expr" if ch == "\u27e6" else "ty", inner)
                        inner = f"$e{k}_"
                    out += inner
                    i = j
                elif ch == end:
                    return i + 1, out
                else:
                    out += ch
                    i += 1
            return i, out
        body = walk(0, None, True)[1]
        words = lambda x: set(re.findall(r"'?\b[A-Za-z_]\w*", x))
        inside = set().union(set(), *[words(t) for _, t in args])
        # names that are bound on one side and used on the other come from one place, as hygiene demands
        names = sorted(x for x in inside & words(body) if re.fullmatch(r"'\w+|[a-z]{1,2}\d+|[a-z]|aa", x) and x not in KEEP and x != "'static")
        if any(x[0] == "'" for x in names):
            return plain    # syn does not parse a label that comes out of a fragment
        for x in names:
            body = re.sub(r"(?<!['$\w])" + re.escape(x) + r"\b", "$i_" + x, body)
        pars = [f"$i_{x}:ident" for x in names] + [f"$e{k}_:{a[0]}" for k, a in enumerate(args)]
        p[key] = f"macro_rules! mm {{ ({', '.join(pars)}) => {{ {body} }} }} mm!({', '.join(names + [t for _, t in args])});" if args else body
    return p


class Try(G):
    """`?` as the only result sites of a function returning Result<u32, impl Iterator>."""

    def q(self):
        return self.fr(self.fr(f"r::<{self.site()}>()") + "?")

    def stmt(self, cx, d):
        if cx.get("try") and self.chance(.35):
            x = self.uniq("x")
            return self.r.choice([
                lambda: f"let {x} = {self.q()}; ev({x});", lambda: f"ev({self.q()});", lambda: f"{self.q()};",
                lambda: f"let {x} = (|| -> Option<u32> {{ o()?; if c() {{ None?; }} Some(3) }})().unwrap_or(4); ev({x});",
                lambda: f"let {x} = (|| {{ if c() {{ Err(3u32)?; }} Ok::<u32, u32>(4) }})().unwrap_or(9); ev({x});",
                lambda: f"let {x} = {self.q()} ^ {self.q()}; ev({x});",
                lambda: f"if {self.q()} % 2 == 0 {{ ev({self.q()}); }}",
            ])()
        return super().stmt(cx, d)


def try_program(rng, depth=3, budget=14, frag=0):
    g = Try(rng, depth)
    g.budget, g.frag = budget, frag
    cx = dict(ret=lambda: rng.choice(["Ok(7u32)", "Ok(v())"]), loops=[], inner=True, marker=None)
    cx["try"] = True
    s = g.stmts(cx, depth, 1, 3)
    t = rng.choice([lambda: "Ok(v())", lambda: f"Ok({g.q()})", lambda: "if c() { Ok(3) } else { Ok(v()) }",
                    lambda: f"match n() {{ 0 => Ok({g.q()}), _ => Ok(2) }}"])()
    while g.k < 2:
        s += f" ev({g.q()});"
    R = "Result<u32, impl Iterator<Item = u32>>"
    if frag:
        R = rng.choice([R, R.replace("impl Iterator<Item = u32>", "\u27e8impl Iterator<Item = u32>\u27e9"), "Result<u32, (impl Iterator<Item = u32>)>"])
    path = rng.choice(["", "", "std::result::", "core::result::"])
    form = rng.choice(["fn", "fn", "closure", "expr"])
    if form == "fn":
        src = f"#[auto_enum(Iterator)] fn f() -> {path}{R} {{ {s} {t} }}"
        if frag and R[0] == "R" and "\u27e8" not in R and rng.random() < .5:
            src = src.replace(path + R, f"\u27e8{path}{R}\u27e9")
    elif form == "closure":
        src = f"#[auto_enum] fn f() -> {R} {{ #[auto_enum(Iterator)] let h = |aa: u32| {{ ev(aa); {s} {t} }}; h(v()) }}"
    else:
        src = f"fn f() -> {R} {{ let h = #[auto_enum(Iterator)] |aa: u32| {{ ev(aa); {s} {t} }}; h(v()) }}"
    # the error type of a closure is known through its `?`s only in the expanded program
    ref = src.replace("|aa: u32|", "|aa: u32| -> Result<u32, D>").replace("impl Iterator<Item = u32>", "D")
    return fragments(dict(src=src, ref=ref, go="obs_r(f())", markers={"marker"}, sites=g.k), rng)


def needs_gate(src):
    """Is #[auto_enum] used on a statement or expression outside of every annotated function?"""
    # covered: the extents of annotated functions
    cov = []
    for m in re.finditer(r"#\[\s*(?:\w+::)*auto_enum\b", src):
        i, d = m.start(), 0
        if any(a <= i < b for a, b in cov):
            continue
        # past this and further attributes
        j = i
        while True:
            k = src.index("[", j)
            d = 0
            while True:
                d += {"[": 1, "]": -1}.get(src[k], 0)
                k += 1
                if d == 0:
                    break
            mm = re.match(r"(?:\s|//[^\n]*\n|/\*.*?\*/)*", src[k:], re.S)
            j = k + mm.end()
            if not src.startswith("#", j):
                break
        if not re.match(r"(?:pub(?:\([^)]*\))?\s+|default\s+|const\s+|async\s+|unsafe\s+|extern\s+(?:\"[^\"]*\"\s+)?)*fn\b", src[j:]):
            return True
        k = closing(src, src.index("{", j))
        body = src[j + 2:k]
        # macro arguments and inner items are out of the outer attribute's reach
        for mm in re.finditer(r"\b\w+!\s*[({[]|\bfn \w+", body):
            b = mm.end() - 1 if body[mm.end() - 1] in "({[" else body.find("{", mm.end())
            if b >= 0 and needs_gate(body[b:closing(body, b)]):
                return True
        cov.append((i, k))
    return False


def closing(s, i):
    """Past the bracket that closes the one at `i`."""
    d = 0
    while i < len(s):
        d += 1 if s[i] in "({[" else -1 if s[i] in ")}]" else 0
        i += 1
        if d == 0:
            break
    return i
