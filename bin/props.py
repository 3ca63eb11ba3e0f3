"""How each property is decided."""
import os, re
import vkrun as vk
import gencorpus, lists, programs
from vkrun import Part

D_ASSUME = [
    "payloads are the recording types P<K> of kani/derive/src/support.rs: every trait method mixes its id, arguments and K into the payload state and answers from it",
    "call sequences of at most 4 calls; buffers of at most 65536 bytes, at most 1030 vectored buffers; whole 64-bit numbers as arguments, answers and payload state; I/O errors of 32 kinds and every OS error code; inputs are 80 symbolic bytes; loop bounds are checked by unwinding assertions",
    "enum declarations under check: generic, concrete (or reversed parameters), bounded/where-clause/const-parameter shapes with four variants, six variants, a single variant, seventeen variants",
    "methods the derive does not forward are compared only for payloads whose own methods obey the traits' documented relations (lawful payloads)",
]


def derive(*features, extra=()):
    def go(prop):
        st = vk.new_stats()
        vk.forget(vk.KD)
        vk.forget(vk.ND)
        v = None
        for f in features:
            v = vk.check_part(prop, Part("derive", f), st)
            if v:
                break
        vk.finish(prop, "translation_validation", vk.coverage(st, parts=list(features), bounds=D_ASSUME[1]),
                  D_ASSUME + list(extra), v)
    return go


SHIM = ["futures 0.1 / tokio 0.1 traits are mirrored declaration by declaration under Kani (kani/shim-*), the real crates are used in native replay"]
RUN = dict(
    C01=derive("c01"), C02=derive("c02"), C03=derive("c03"), C04=derive("c04"), C05=derive("c05"),
    C06=derive("c06"), C07=derive("c07"), C08=derive("c08a", "c08b", "c08c", "c08d", extra=SHIM),
    C09=derive("c09a", "c09b", "c09c"), C10=derive("c10"),
)
A_ASSUME = [
    "programs: the hand-written ones of bin/hand.py and random ones of bin/progen.py (seeded), each compiled twice: with the macro of /repo's current source, and as the reference with the macro's attributes and markers removed and all results of one type",
    "inputs: 32 symbolic bits that drive every condition, match and number of the program; values are opaque tokens; loops are bounded by the program and checked by unwinding assertions (11)",
    "observed: the whole trace of effects (with order), the result's size_hint, first two items and end",
]


def auto(feature):
    """Corpus programs, expanded by the macro, against their reference."""
    def go(prop):
        st = vk.new_stats()
        vk.forget(vk.KD)
        vk.forget(vk.ND)
        progs = programs.corpus(feature, vk.TIER, vk.SEED)
        v, parts = None, gencorpus.emit_split(feature, progs)
        for f in parts:
            v = v or vk.check_part(prop, Part("auto", f), st)
        cov = vk.coverage(st, parts=parts, bounds=A_ASSUME[1])
        cov.update(programs=len(progs), harnesses=st["harnesses"],
                   result_sites=sum(p.get("sites") or p["src"].count("t::<") for p in progs))
        vk.finish(prop, "translation_validation", cov, A_ASSUME, v)
    return go


def left_out(prop, st, part, src, text, names):
    """Lists that leave out a supertrait the macro does not add: known findings; any unlisted one is a violation."""
    gencorpus.write(src, text)
    rc, out = vk.native_build(part, check=True)
    if rc is None:
        raise vk.NoVerdict("native build timed out")
    bad = {int(m) for m in re.findall(rf"--> \S*{re.escape(os.path.basename(src))}:(\d+):", out)}
    if rc != 0 and not bad:
        raise vk.NoVerdict("the crate under check does not build:\n" + out[-3000:])
    known = dict(vk.known_findings(prop))
    st["extra_lists"] = st.get("extra_lists", 0) + len(names)
    for i, n in enumerate(names):
        if i + 2 not in bad:
            continue
        if n in known:
            print(f"KNOWN-FINDING: property={prop} {known[n]}")
        else:
            return dict(kind="expansion-rejected", harness=f"{part.crate}/{part.feature}", what=f"#[enum_derive({n})] does not compile",
                        cmd=f"cd {part.dir} && cargo +{vk.NATIVE_TC} check --offline --lib --features {part.feature} --target-dir {vk.ND}", log=out[-4000:])
    return None


def lists12(prop):
    """C12: lists of traits."""
    st = vk.new_stats()
    vk.forget(vk.KD)
    vk.forget(vk.ND)
    v = left_out(prop, st, Part("auto", "c12k"), f"{vk.V}/build/gen/c12k.rs", lists.dropped_source(), lists.DROPPED)
    n = {}
    for f in ["c12"] + list(lists.X):
        if v:
            break
        if f in lists.X and lists.few(f):
            v = left_out(prop, st, Part("ext", f + ",few"), f"{vk.V}/build/gen/few-{f}.rs", lists.few_source(f), lists.few(f))
        progs = programs.corpus(f, vk.TIER, vk.SEED)
        gencorpus.emit(f, progs)
        n[f] = len(progs)
        v = v or vk.check_part(prop, Part("ext" if f in lists.X else "auto", f), st)
    vk.finish(prop, "translation_validation",
              vk.coverage(st, parts=n, programs=sum(n.values()), harnesses=st["harnesses"], lists_with_a_supertrait_left_out=st["extra_lists"], bounds=A_ASSUME[1]),
              A_ASSUME + ["lists: every trait alone in every spelling, all ordered pairs within families of related traits in every spelling, random longer lists; "
                          "which traits are implemented is read off the expanded enum by trait-resolution probes and compared with a table of the traits' supertraits",
                          "traits of other crates in four groups that can be named in one crate: {futures 0.3, tokio 1, rayon, serde, http-body 1}, {tokio 0.3}, {tokio 0.2}, {futures 0.1, tokio 0.1}",
                          "traits with parameters (Index, Fn, Extend, Sink, ...) are derived for payloads that are type parameters; Copy/Eq/PartialOrd/Ord and the async I/O traits of other crates are "
                          "listed with their supertraits (known finding)"] + SHIM, v)


RUN["C12"] = lists12
for f in ("c13", "c14", "c15", "c16", "c17", "c19", "c21"):
    RUN[f.upper()] = auto(f)

def sites18(prop):
    """C18: one variant per result, and errors where there are fewer than two results."""
    import sites
    st = vk.new_stats()
    vk.forget(vk.KD)
    vk.forget(vk.ND)
    progs = sites.emit(vk.TIER, vk.SEED)
    v = vk.check_part(prop, Part("auto", "c18"), st)
    todo = list(enumerate(sites.too_few()))
    n_few, accepted = len(todo), []
    part = Part("auto", "c18k")
    while todo and not v:
        sites.emit_too_few(todo)
        rc, out = vk.native_build(part, check=True, extra=["--message-format", "short"])
        if rc is None:
            raise vk.NoVerdict("native build timed out")
        if rc == 0:
            # accepted by the compiler: is there an enum with two variants?
            accepted = [n for _, (n, _, _) in todo]
            v = vk.check_part(prop, part, st)
            if v:
                v["accepted"] = "; ".join(f"k{i}: {n}: {s}" for i, (n, s, _) in todo[:6])
            break
        bad = {int(m) - 2 for m in re.findall(r"c18k\.rs:(\d+):\d+: error", out)}
        if not bad:
            raise vk.NoVerdict("the crate under check does not build:\n" + out[-3000:])
        todo = [a for i, a in enumerate(todo) if i not in bad]
    vk.finish(prop, "translation_validation",
              vk.coverage(st, parts=["c18", "c18k"], programs=len(progs), programs_with_too_few_results=n_few, accepted_with_too_few=accepted,
                          bounds="two runs with 32 symbolic bits each; up to 70 results"),
              ["programs: hand-written and random ones whose value is the enum itself; a result's site is visible in its size_hint, its variant through core::mem::discriminant, "
               "the number of variants through core::mem::variant_count",
               "every other program has results of one type only, so that a shared variant would not be a type error",
               "a program with too few results counts as prevented when rustc rejects it; an accepted one is executed symbolically"], v)


RUN["C18"] = sites18


def pin(prop):
    """C11: pinned payloads stay put, and what would move them is rejected or harmless."""
    import pins
    st = vk.new_stats()
    vk.forget(vk.KD)
    vk.forget(vk.ND)
    v = None
    n_acc, n_atk, accepted, known_hit = 0, 0, [], {}
    known = dict(vk.known_findings(prop))
    for p in pins.PARTS:
        n_acc += pins.emit(p, vk.TIER, vk.SEED)
        v = vk.check_part(prop, Part("pin", p), st)
        if v:
            break
        todo = list(enumerate(pins.attacks(p, vk.TIER, vk.SEED)))
        n_atk += len(todo)
        part = Part("pin", p + ",atk")
        while todo:
            pins.emit_attacks(p, todo)
            rc, out = vk.native_build(part, check=True, extra=["--message-format", "short"])
            if rc is None:
                raise vk.NoVerdict("native build timed out")
            if rc == 0:
                break
            bad = {int(m) - 2 for m in re.findall(rf"atk-{p}\.rs:(\d+):\d+: error", out)}
            if not bad:
                raise vk.NoVerdict("the crate under check does not build:\n" + out[-3000:])
            todo = [a for i, a in enumerate(todo) if i not in bad]
        for i, (key, _, _) in todo:
            if key in known:
                known_hit[key] = known_hit.get(key, 0) + 1
        todo = [a for a in todo if a[1][0] not in known]
        accepted += [f"{key}: #[enum_derive({l})]" for _, (key, l, _) in todo]
        if todo:
            # accepted by the compiler: can a payload be moved?
            pins.emit_attacks(p, todo)
            v = vk.check_part(prop, part, st)
            if v:
                v["attack"] = "; ".join(f"k{i}: {key}: #[enum_derive({l})]" for i, (key, l, _) in todo[:8])
                break
    for k in known_hit:
        print(f"KNOWN-FINDING: property={prop} {known[k]}")
    vk.finish(prop, "translation_validation",
              vk.coverage(st, parts=list(pins.PARTS), programs=n_acc, attacks=n_atk, attacks_accepted=accepted, known=known_hit,
                          bounds="32 symbolic bits: held variants, order and number of pinned calls; up to 4 variants"),
              ["payloads: PhantomPinned, !Unpin by a missing local trait impl, and Unpin ones; each remembers the address it was first pinned at",
               "safe code's means: moving the enum where it is Unpin, a Drop or Unpin impl of its own, pinned assignment",
               "an attack program counts as prevented when rustc rejects it (the same program without the user's impl is accepted in the first part); an accepted one is executed symbolically"], v)


RUN["C11"] = pin
PARTS = [Part("derive", f) for f in
         ("c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08a", "c08b", "c08c", "c08d", "c09a", "c09b", "c09c", "c10")]
AUTO = ["c12", "c13", "c14", "c15", "c16", "c17", "c19", "c21"]
PARTS += [Part("auto", f) for f in AUTO] + [Part("auto", f + ",gated") for f in AUTO if f in ("c13", "c14", "c15", "c16", "c17", "c21")]
PARTS += [Part("auto", "c18")]
PARTS += [Part("ext", f) for f in lists.X]
PARTS += [Part("pin", f) for f in ("p1", "p2", "p3")]
T_A = "bounded model checking (Kani/CBMC + SAT) of the macro's expansion against the unexpanded program"
N_A = ("Translation validation: each corpus program is expanded by the macro built from /repo's current source; CBMC shows "
       "result and effect trace equal to the reference program's for every choice of branches and inputs.")
T_P = "bounded model checking (Kani/CBMC + SAT) of pinned use of the derived enums, including attack programs the compiler accepts"
T_S = "bounded model checking (Kani/CBMC + SAT) of pairs of runs of the macro's expansion"
CLAIMS = {f.upper(): (T_A, "translation_validation", N_A) for f in AUTO}
CLAIMS["C11"] = (T_P, "translation_validation",
                 "Translation validation: enums derived by the macro of /repo's current source are used through Pin for every choice of variants and calls; "
                 "CBMC shows no payload is seen at two addresses. Attack programs must be rejected by rustc or be harmless under CBMC.")
CLAIMS["C18"] = (T_S, "translation_validation",
                 "Translation validation: programs expanded by the macro of /repo's current source are run twice under CBMC with independent inputs; equal variants mean equal result sites and "
                 "the enum has as many variants as results. Programs with fewer than two results must be rejected by rustc; accepted ones are executed symbolically.")
NA = {
    "C20": "Deciding that the macros return for every token stream needs symbolic execution of syn's and proc_macro2's parsers over heap-allocated token trees of unbounded shape. "
           "Tried: Kani's compiler aborts on any code that can build a syn::Error (syn's ThreadBound reaches the catch_unwind intrinsic); with that type replaced in a scratch copy of syn, "
           "syn::parse2::<Token![;]> of a one-token stream still gave no verdict in 10 minutes. No other symbolic executor for this code is installed, and running the macros on a list of "
           "inputs would be enumeration of concrete runs, not a solver's verdict.",
}
