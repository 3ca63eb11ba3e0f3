#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so the JSON stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

ED = "src/enum_derive.rs"
prop("C01", "Derived iterator traits behave exactly like the active variant's payload",
 "For every enum with one single-field payload per variant and #[enum_derive] of Iterator, DoubleEndedIterator, ExactSizeIterator, FusedIterator, TrustedLen or Extend, calling any required method, or any of the provided methods size_hint/count/last/nth/collect/partition/fold/all/any/find/find_map/position, nth_back/rfold/rfind and len, returns exactly what the same call on the payload of the variant currently held returns (using the payload's own implementation of that method) and leaves exactly that payload in the same state. No other variant's payload type is ever involved, arguments and closures are passed through unchanged, and the held variant never changes.",
 ["inputs", "histories", "configurations"],
 "all held variants, payload states, argument values and short call sequences, for generic, concrete and bounded enum declarations",
 "tests/run-pass only compiles the derives; no test calls a derived method and compares it with the payload, so a derive that dispatches to the wrong method or drops an override passes.",
 ["src/derive/core/iter.rs", ED],
 [("one derive function per trait that forwards each method", "src/derive/core/iter.rs"), ("match dispatch per variant", "src/derive/mod.rs")],
 ["methods of the derived trait impl"])
prop("C02", "Derived formatting, fmt::Write and Error behave like the active payload",
 "For every enum with #[enum_derive] of Debug, Display, Binary, Octal, LowerHex, UpperHex, LowerExp, UpperExp, Pointer, fmt::Write or Error, formatting or writing through the enum produces exactly the output, result and side effects of the same trait's method on the payload of the held variant, with all formatter options visible to the payload and fmt::Error propagated. Error::source reports the held payload as the source (and description is the payload's own).",
 ["inputs", "configurations"],
 "all held variants, payload states, written strings/characters, formatter outcomes (ok and error)",
 "run-pass tests only compile these derives; nothing compares the output of the derived impl with the payload's, and formatting errors are never injected.",
 ["src/derive/core/fmt.rs", "src/derive/std/error.rs", ED],
 [("forwarding derive per formatting trait", "src/derive/core/fmt.rs"), ("Error::source arm construction", "src/derive/std/error.rs")],
 ["fmt methods", "write_str/write_char/write_fmt", "Error::source", "Error::description"])
prop("C03", "Derived std::io traits behave exactly like the active payload",
 "For every enum with #[enum_derive] of io::Read, io::BufRead, io::Write or io::Seek, each method (read, read_vectored, read_to_end, read_to_string, read_exact, fill_buf, consume, read_until, read_line, write, write_vectored, flush, write_all, write_fmt, seek) has exactly the return value, buffer contents, error and payload side effects of the same call on the payload of the held variant, using the payload's own implementation of that method. Errors and partial counts are passed through unchanged.",
 ["inputs", "histories", "fault_sequences"],
 "all held variants, buffer contents/lengths within bounds, returned counts and I/O errors, short call sequences",
 "run-pass only compiles the impls; no read or write is ever performed through a derived enum, so wrong method, wrong argument or swallowed errors go unseen.",
 ["src/derive/std/io.rs", ED], [("forwarding derives", "src/derive/std/io.rs")], ["io trait methods"])
prop("C04", "Derived ops, convert and Fn traits behave exactly like the active payload",
 "For every enum with #[enum_derive] of Deref, DerefMut, Index, IndexMut, RangeBounds, AsRef, AsMut, Fn, FnMut or FnOnce, each method returns exactly what the same method on the payload of the held variant returns — the same reference, bound or call result for the same index or arguments — with the payload's side effects and no others. A mutable access reaches the held payload itself, never a copy.",
 ["inputs", "configurations"],
 "all held variants, payload values, indices and call arguments",
 "run-pass only compiles the derives; a derive returning start_bound for end_bound or calling another method still type-checks.",
 ["src/derive/core/ops.rs", "src/derive/core/convert.rs", ED],
 [("forwarding derives", "src/derive/core/ops.rs")], ["trait methods of the enum"])
prop("C05", "Derived Future and Coroutine resume the active payload in place",
 "For every enum with #[enum_derive] of Future or Coroutine, polling or resuming the pinned enum polls or resumes exactly the payload of the held variant, once, at that payload's own address inside the enum, with the caller's context or resume argument, and returns exactly the payload's result. Over any sequence of polls the payload is never moved and the held variant never changes.",
 ["inputs", "histories"],
 "all held variants, payload states, poll results (pending/ready values) and short poll sequences",
 "run-pass tests only compile; poll is never called on a derived enum so in-place forwarding and results are not observed.",
 ["src/derive/core/future.rs", "src/derive/core/ops.rs", ED],
 [("pinned match dispatch", "src/derive/core/future.rs")], ["Future::poll", "Coroutine::resume"])
prop("C06", "Derived futures 0.3 traits behave exactly like the pinned active payload",
 "For every enum with #[enum_derive] of the futures 0.3 traits Stream, Sink, AsyncRead, AsyncWrite, AsyncSeek or AsyncBufRead, each method (poll_next, size_hint, poll_ready, start_send, poll_flush, poll_close, poll_read, poll_read_vectored, poll_write, poll_write_vectored, poll_seek, poll_fill_buf, consume) acts on the held variant's payload in place and returns exactly what the same method on that payload returns, with the same arguments, buffers and errors. No method is answered by a different method or by a default that ignores the payload's own implementation.",
 ["inputs", "histories", "fault_sequences"],
 "all held variants, payload states, arguments, poll outcomes and errors",
 "run-pass only compiles these derives.",
 ["src/derive/external/futures03.rs", ED], [("hand-written pinned forwarding", "src/derive/external/futures03.rs")], ["trait methods of the pinned enum"])
prop("C07", "Derived tokio 1 traits behave exactly like the pinned active payload",
 "For every enum with #[enum_derive] of the tokio 1 traits AsyncRead, AsyncWrite, AsyncSeek or AsyncBufRead, each method (poll_read, poll_write, poll_write_vectored, is_write_vectored, poll_flush, poll_shutdown, start_seek, poll_complete, poll_fill_buf, consume) acts on the held variant's payload in place and returns exactly what the same method on that payload returns, with the same arguments, buffers and errors.",
 ["inputs", "histories", "fault_sequences"],
 "all held variants, payload states, arguments, poll outcomes and errors",
 "run-pass only compiles these derives.",
 ["src/derive/external/tokio1.rs", ED], [("hand-written pinned forwarding", "src/derive/external/tokio1.rs")], ["trait methods of the pinned enum"])
prop("C08", "Derived legacy async traits behave exactly like the active payload",
 "For every enum with #[enum_derive] of the tokio 0.3, tokio 0.2 and tokio 0.1 AsyncRead/AsyncWrite/AsyncSeek/AsyncBufRead traits or the futures 0.1 Future/Stream/Sink traits, each method that the derive forwards (poll_read, poll_write, poll_flush, poll_shutdown or shutdown, start_seek, poll_complete, poll_fill_buf, consume, prepare_uninitialized_buffer, poll, start_send, close) has exactly the return value, buffer effects, errors and payload side effects of the same method on the payload of the held variant, acting in place where the method takes a pinned receiver.",
 ["inputs", "histories", "fault_sequences"],
 "all held variants, payload states, arguments, poll outcomes and errors",
 "run-pass only compiles these derives.",
 ["src/derive/external/tokio03.rs", "src/derive/external/tokio02.rs", "src/derive/external/tokio01.rs", "src/derive/external/futures01.rs", ED],
 [("forwarding derives", "src/derive/external")], ["trait methods of the enum"])
prop("C09", "Derived http-body, rayon and serde traits behave like the active payload",
 "For every enum with #[enum_derive] of http_body 1 Body, rayon ParallelIterator/IndexedParallelIterator/ParallelExtend or serde Serialize, each method (poll_frame, is_end_stream, size_hint; drive_unindexed, opt_len, drive, len, with_producer, par_extend; serialize) has exactly the result and effects of the same method on the payload of the held variant. Serialization is transparent: no enum or variant tag is added, and serializer errors are passed through.",
 ["inputs", "configurations"],
 "all held variants, payload states, consumers/serializers and their results",
 "run-pass only compiles these derives.",
 ["src/derive/external/http_body1.rs", "src/derive/external/rayon.rs", "src/derive/external/serde.rs", ED],
 [("forwarding derives", "src/derive/external")], ["trait methods of the enum"])
prop("C10", "Transpose methods convert per variant without losing or changing values",
 "With #[enum_derive(Transpose)], transpose on an enum of Options yields None exactly when the held payload is None and otherwise Some of the same variant holding the inner value; on an enum of Results it yields Ok(same variant of the ok value) or Err(same variant of the error value). transpose_ok and transpose_err do the same for one side and leave the other side's value unchanged, so no value is dropped, duplicated or moved to another variant.",
 ["inputs", "configurations"],
 "all held variants and payload values; enums with several generic parameters",
 "run-pass only compiles the generated methods.",
 ["src/derive/ty_impls/transpose.rs"], [("generated match per variant", "src/derive/ty_impls/transpose.rs")], ["transpose, transpose_ok, transpose_err"])
prop("C11", "Derived enums keep structural pinning sound",
 "An enum with a derived trait that needs pin projection is Unpin exactly when all of its payloads are Unpin, and safe code can neither add its own Unpin impl nor a Drop impl to it in a way that moves a payload behind a pinned enum. Derives that do not need pin projection impose no such restriction, and nothing makes a payload behind a pinned enum movable.",
 ["programs", "configurations"],
 "all derive lists (each supported trait with every companion), generic and concrete enum declarations with and without bounds and where clauses",
 "UI tests cover one or two programs with one trait, and are not part of the runnable suite; the guarantee is about every derive list.",
 [ED, "src/derive"], [("conditional Unpin impl and Drop guard emitted once when any derive asks for pin projection", ED)], ["which impls the expansion contains"])
prop("C12", "A derive list is resolved to exactly the traits requested and their supertraits",
 "For every list of different traits given to #[enum_derive] (or as trait arguments to #[auto_enum]), in any order, with the short or path-qualified names the documentation lists, and with traits sharing supertraits, the resulting enum implements every requested trait once and every supertrait that a supported trait depends on once, implements no other trait, and compiles. Traits that are not known to the macro are handed to the ordinary #[derive] unchanged (their supertraits are for the user to list), and the documented spellings of a trait give identical results, also when both are in the list.",
 ["configurations", "programs"],
 "all lists of up to a bounded number of supported trait names, spellings, orders and duplicates of implied traits",
 "tests list a handful of fixed combinations; clashes between implied supertraits only appear for particular pairs.",
 [ED], [("dependency and alias resolution", ED)], ["the set of impls and derives in the expansion"],
 state=[("trait list", "accumulated traits with their implied supertraits", ED)])
prop("C13", "auto_enum preserves run-time behaviour by wrapping every result site once",
 "For any function, closure, let statement or expression accepted by #[auto_enum], the expanded program evaluates the same expressions in the same order and yields, for every input, a value that behaves exactly like the value the original branch produced. This holds for results reached through match arms, if/else chains, blocks, unsafe blocks, parentheses, method-call receivers and arbitrary nesting of these, and branches that diverge or are marked as never returning are left alone.",
 ["programs", "inputs"],
 "all programs built from the supported branch constructs up to a bounded nesting and all run-time inputs",
 "tests use a few dozen fixed functions and mostly only compile them; behaviour per branch and per nesting is not compared with the unexpanded program.",
 ["src/auto_enum/mod.rs", "src/auto_enum/expr.rs", "src/auto_enum/context.rs"],
 [("walk over tail expressions that wraps each result in a fresh variant", "src/auto_enum/expr.rs")], ["value and trait behaviour of the expanded item"])
prop("C14", "auto_enum treats loops and labels like Rust does",
 "When the result comes out of a loop (including labelled loops and loops nested in other loops or branches), exactly the values carried by the break expressions that leave that loop — unlabelled at its own level or labelled with its label at any depth — become results of the enum. Breaks belonging to inner loops, other labels, closures or async blocks are left as they are.",
 ["programs", "inputs"],
 "all bounded nestings of loop/while/for/blocks with and without labels and breaks, and all inputs",
 "tests contain three or four fixed loop programs.",
 ["src/auto_enum/visitor.rs", "src/auto_enum/expr.rs"], [("loop visitor tracking label and nesting", "src/auto_enum/visitor.rs")], ["value of the expanded item"])
prop("C15", "return and ? are converted exactly in the annotated function or closure",
 "In an annotated function or closure, the value of each return expression (or the error of each ?) that leaves that function or closure becomes a result of the enum, at any nesting depth. Returns and ? that leave a nested closure, async block, nested item or other inner scope are never converted, and a body with no such exits is unaffected.",
 ["programs", "inputs"],
 "all bounded programs placing return and ? in statements, branches, loops, closures, async blocks and nested items, and all inputs",
 "tests contain a handful of fixed placements, none in async blocks.",
 ["src/auto_enum/visitor.rs", "src/auto_enum/mod.rs", "src/auto_enum/context.rs"], [("scope-tracking visitor and exit counting", "src/auto_enum/visitor.rs")], ["value of the expanded item"],
 state=[("visit mode", "whether returns or ? are converted", "src/auto_enum/context.rs")])
prop("C16", "Marker macros wrap exactly where written and belong to their own auto_enum",
 "Each marker!(expr) (or custom-named marker given with marker = name) inside an annotated item turns expr into a result of the enum it belongs to, wherever it appears in the body, and it counts as that result exactly once, also when it is itself the value of a branch, return or break. Custom marker names make nested auto_enums independent: an inner marker never becomes a variant of the outer enum or the reverse.",
 ["programs", "inputs"],
 "all bounded placements of marker calls and custom names in nested annotated items, and all inputs",
 "a few fixed placements are compiled.",
 ["src/auto_enum/visitor.rs", "src/auto_enum/context.rs"], [("marker recognition by name and replacement", "src/auto_enum/visitor.rs")], ["value of the expanded item"],
 state=[("marker names", "names in force for an annotated item", "src/auto_enum/context.rs")])
prop("C17", "Nested auto_enums and helper attributes compose",
 "Annotated let statements and expressions inside an annotated item are expanded as enums of their own, and the outer item behaves as if the inner one were a plain expression of the inner result type. #[nested] (also on let statements) extends the search for results into that construct, #[never] excludes it, and no helper attribute is left in the expanded program.",
 ["programs", "inputs"],
 "all bounded combinations of nested auto_enum, nested and never attributes on branches, statements and expressions, and all inputs",
 "a few fixed compositions are compiled.",
 ["src/auto_enum/visitor.rs", "src/auto_enum/expr.rs", "src/auto_enum/mod.rs"], [("child context join and attribute removal", "src/auto_enum/visitor.rs")], ["value of the expanded item"])
prop("C18", "The generated enum has exactly one variant per result and at least two",
 "The enum generated by #[auto_enum] has exactly one variant (with its own type parameter) for every result site that constructs it, every constructed variant exists, and no two sites share a variant. If fewer than two results exist, or an else branch or loop break is missing where a value is needed, the macro reports an error instead of producing an enum.",
 ["programs"],
 "all bounded programs accepted or rejected by the macro",
 "tests check a few expansions and a few rejected programs.",
 ["src/auto_enum/context.rs", "src/auto_enum/expr.rs"], [("fresh variant numbering and final build", "src/auto_enum/context.rs")], ["the expanded token stream"],
 state=[("builder", "variants issued so far", "src/auto_enum/context.rs")])
prop("C19", "auto_enum changes nothing except the wrapped results",
 "Removing the generated enum and the variant wrappers from the expansion gives back the original item without the macro's own attributes and marker calls: statements, patterns, guards, types, signatures, other attributes and the order of evaluation are untouched. Likewise #[enum_derive] keeps the enum declaration (variants, generics, visibility, attributes) as written.",
 ["programs"],
 "all bounded programs accepted by the macro",
 "snapshot tests compare a fixed list of expansions and are not in the runnable suite.",
 ["src/auto_enum", ED], [("in-place rewriting of the syntax tree", "src/auto_enum")], ["the expanded token stream"])
prop("C20", "The macros never panic: every input expands or is rejected with an error",
 "For every attribute argument list and every item the compiler can hand to #[auto_enum] or #[enum_derive], the macro returns normally: either an expansion or a compile error naming what is wrong. It never panics and never silently emits the input unexpanded.",
 ["programs", "inputs"],
 "all bounded items and attribute argument lists",
 "UI tests cover a fixed list of rejected inputs.",
 ["src/auto_enum", ED, "src/utils.rs"], [("error accumulation in the context", "src/auto_enum/context.rs")], ["the macro's return"])
prop("C21", "type_analysis collects exactly the traits named by impl Trait in the type",
 "With the type_analysis feature, an #[auto_enum] on a function or typed let derives exactly the traits that appear as bounds of impl Trait anywhere the return or let type mentions it, together with those given as arguments, each once, and the let type no longer mentions impl Trait. Traits are those the README lists as supported, spelled as it lists them. Types without impl Trait contribute nothing.",
 ["programs", "configurations"],
 "all bounded types built from paths with generic arguments, references, tuples, and impl Trait with one or more bounds",
 "tests list a few fixed types.",
 ["src/auto_enum/type_analysis.rs", "src/auto_enum/mod.rs"], [("walk over the type collecting bounds", "src/auto_enum/type_analysis.rs")], ["the derive list on the generated enum"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
