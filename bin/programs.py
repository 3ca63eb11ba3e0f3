"""The corpora, per property: hand-written programs and seeded random ones."""
import random
import hand, lists, progen


def rnd(tag, count, **kw):
    depth = kw.pop("depth", 3)
    return [progen.fn_program(random.Random(f"{tag}-{i}"), depth, **kw) for i in range(count)]


def rtry(tag, count, **kw):
    return [progen.try_program(random.Random(f"{tag}-{i}"), **kw) for i in range(count)]


# corpora whose crate is compiled without proc_macro_hygiene and stmt_expr_attributes, where possible
SPLIT = ("c13", "c14", "c15", "c16", "c17", "c19", "c21")


def wrapped(ps):
    """Programs with an attribute inside an ordinary function, with #[auto_enum] without arguments on the function as well."""
    import gencorpus
    res = []
    for p in ps:
        if gencorpus.gated(p) and p["src"].lstrip().startswith("fn f("):
            res.append({**p, "src": "#[auto_enum] " + p["src"], "ref": p.get("ref", p["src"])})
    return res


def corpus(feature, tier, seed):
    n = 100 if tier == "quick" else 600
    sd = "" if seed == 1 else f"{seed}-"
    h = getattr(hand, feature.upper(), [])
    h = h + wrapped(h)
    if feature == "c12":
        return lists.corpus(tier, seed)
    if feature in lists.X:
        return lists.corpus_x(feature, tier, seed)
    fr = dict(frag=.3)
    if feature == "c13":
        return h + rnd(sd + "c13f", n // 4, inner=False, extra=[], ret=False, mk=False, **fr) + rnd(sd + "c13", n, inner=False, extra=[], ret=False, mk=False)
    if feature == "c14":
        return h + rnd(sd + "c14f", n // 5, kinds=["loop", "block", "match"], shadow=True, **fr) + rnd(sd + "c14", n, kinds=["loop", "block", "match"], shadow=True)
    if feature == "c15":
        return h + rnd(sd + "c15f", n // 5, **fr) + rtry(sd + "c15tf", n // 5, frag=.2) + rnd(sd + "c15", n // 2) + rtry(sd + "c15t", n // 2)
    if feature == "c16":
        return h + rnd(sd + "c16f", n // 5, extra=["child"], mkp=.6, **fr) + rnd(sd + "c16", n, extra=["child"] * 3, mkp=.6)
    if feature == "c17":
        return h + rnd(sd + "c17f", n // 4, extra=["child"] * 3, **fr) + rnd(sd + "c17", n, extra=["child"] * 4)
    if feature == "c21":
        forms = ("fn", "fn", "method", "let", "bare_let")
        return h + rnd(sd + "c21f", n // 5, extra=["child"], forms=forms, ta=True, **fr) + rnd(sd + "c21", n, extra=["child"] * 3, forms=forms, ta=True) + rnd(sd + "c21m", n // 3, extra=["child"], forms=forms, ta=True, mkp=.7)
    if feature == "c19":
        return h
    raise KeyError(feature)
