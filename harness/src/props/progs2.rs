//! C13-C17: repetition, combinators, chaining, inputs left alone, errors.

use super::progs::*;
use crate::choice::Src;
use crate::gen::*;
use crate::h::*;
use crate::prog::*;
use crate::progen::*;
use crate::real::{self, err_text, intern, make_err, RealEnv};
use crate::run::{fam, Ctx, Family, Prop, Res};
use crate::tree::*;
use html5_fuser::event::{Event, IntoStream, Stream, StreamResult};
use html5_fuser::{select, ParseOptions, StreamError, Template};
use std::cell::RefCell;
use std::rc::Rc;

const D: Docs = Docs { raw: true, narrow: false, big: true };

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            rule: "Random programs rich in the four repetitions (no, one and many items; nested; under selections) compared with the reference interpreter, and runs whose iterator, builder and per-copy stream write one common trace, checked to be next, build, copy done, next, ... Non-trivial: a repetition over at least one item ran; distinct by document and program.",
            families: vec![
                fam("repetition programs", c13_mix, 150_000, 1_500_000),
                fam("traced repetitions", c13_trace, 180_000, 1_500_000),
                fam("many copies", c13_large, 128, 800),
            ],
            assumptions: &["the reference interpreter (prog.rs) states the documented meaning"],
            needs: &[
                "operation repeat", "operation repeat_or_else", "operation repeat_contents",
                "operation repeat_contents_or_else", "trace steps", "fallbacks",
                "iterators stopped by an error",
            ],
            extra: None,
        },
        Prop {
            id: "C14",
            rule: "Random programs rich in apply, conditional and boxing combinators compared with the reference interpreter; the same program with combinators written out; and typed (unboxed) runs with every form of supplying selectors and content. Non-trivial: a combinator ran and the output differs from the input.",
            families: vec![
                fam("combinator programs", c14_mix, 200_000, 1_500_000),
                fam("written out", c14_inline, 160_000, 1_200_000),
                fam("typed forms", c14_typed, 60_000, 300_000),
            ],
            assumptions: &["the reference interpreter (prog.rs) states the documented meaning"],
            needs: &[
                "operation apply", "operation apply_if", "operation apply_if_else",
                "operation apply_with_option", "operation apply_with_result",
                "operation apply_as_boxed", "operation apply_as_boxed_element",
                "operation apply_as_template", "operation into_boxed", "operation into_boxed_element",
                "typed runs compared",
            ],
            extra: None,
        },
        Prop {
            id: "C15",
            rule: "Random programs of several steps run in one call, in one call per step, and (without raw elements) with rendering and loading again after each step, compared with each other; transformations that do nothing compared with the original. Non-trivial: at least two steps of which one changed something.",
            families: vec![
                fam("step by step", c15_steps, 150_000, 1_500_000),
                fam("rendered in between", c15_reload, 120_000, 1_000_000),
                fam("nothing done", c15_identity, 120_000, 1_000_000),
            ],
            assumptions: &[],
            needs: &["chains compared", "identities compared"],
            extra: None,
        },
        Prop {
            id: "C16",
            rule: "Random programs - succeeding, failing, and with a panic in the n-th call of user code - run twice on the same template with the same inserted templates and texts; everything that went in is compared (text and equality) with copies and freshly loaded twins from before. Transformations much like each other are run in turns, each compared with its outcome in a thread of its own; and very many templates are made, transformed and dropped one after the other. Non-trivial: user code was called or content inserted; distinct by document, program and ending.",
            families: vec![
                fam("succeeding", c16_ok, 120_000, 1_000_000),
                fam("failing", c16_err, 90_000, 800_000),
                fam("panicking", c16_panic, 90_000, 800_000),
                fam("shared inputs", c16_shared, 90_000, 600_000),
                fam("similar ones in turn", c16_similar, 90_000, 800_000),
                Family { shrink: false, ..fam("very many in turn", c16_many, 8, 32) },
            ],
            assumptions: &[],
            needs: &["inputs compared", "panics on purpose", "failed runs", "second runs compared", "runs compared with one alone"],
            extra: None,
        },
        Prop {
            id: "C17",
            rule: "Random programs with one erroneous part (bad name, bad selector, failing content of every error kind, failing nested transformation, user stream failing in the middle) anywhere, used or not, compared with the reference interpreter: same error with its whole chain of causes, or success if it is not used; streams of shuffled events under operations that need well-formed ones; and programs with several erroneous parts, where the one is due whose place in the output - seen by putting texts there - comes first. Non-trivial: the program has an erroneous part.",
            families: vec![
                fam("one erroneous part", c17_mix, 400_000, 2_500_000),
                fam("each kind at each place", c17_each, 150_000, 300_000),
                fam("malformed streams", c17_malformed, 300_000, 1_500_000),
                fam("the first of several", c17_several, 200_000, 1_500_000),
            ],
            assumptions: &["the reference interpreter (prog.rs) states the documented meaning"],
            needs: &["first of several errors", "errors compared", "erroneous part unused", "malformed streams reported", "transformations after a failure"],
            extra: None,
        },
    ]
}

fn compare(ctx: &mut Ctx, case: &Case, of_interest: &[&str]) -> Res {
    if let Some(a) = agree(ctx, case)? {
        let ran = of_interest.iter().any(|o| a.ran.keys().any(|k| k.starts_with(o)));
        if ran && a.out.map_or(false, |o| o != render(&case.doc)) {
            ctx.nontrivial(key(case).as_bytes());
        }
        if let Some(m) = a.misuse.iter().find(|m| m.starts_with("the iterator")) {
            return Err(m.clone());
        }
        ctx.sample(|| case.show());
    }
    Ok(())
}

// ---- C13

fn c13_mix(ctx: &mut Ctx, src: &mut Src) -> Res {
    let mix = Mix { select: 3, content: 2, repeat: 8, attr: 3, apply: 1, look: 1, depth: 3, ..MIX };
    let case = a_case(src, mix, D);
    compare(ctx, &case, &["repeat"])
}

type Trace = Rc<RefCell<Vec<String>>>;

struct TraceIter {
    n: usize,
    at: usize,
    trace: Trace,
}
impl Iterator for TraceIter {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if self.at < self.n {
            self.trace.borrow_mut().push(format!("next {}", self.at));
            self.at += 1;
            Some(self.at - 1)
        } else {
            self.trace.borrow_mut().push("end".into());
            None
        }
    }
}

/// Says when it has been read to its end.
struct TraceStream {
    events: Vec<Event>,
    at: usize,
    what: String,
    trace: Trace,
    fail: bool,
}
impl Stream for TraceStream {
    fn next_event(&mut self) -> StreamResult {
        match self.events.get(self.at) {
            Some(e) => {
                self.at += 1;
                Ok(Some(e.clone()))
            }
            None => {
                self.trace.borrow_mut().push(self.what.clone());
                if self.fail {
                    return Err(make_err(&Fail::User("copy".into())));
                }
                Ok(None)
            }
        }
    }
}

fn c13_trace(ctx: &mut Ctx, src: &mut Src) -> Res {
    let doc = doc(src, Shape { nodes: 6, ..SMALL });
    let extra = doc_markup(src);
    let markup = render(&doc);
    let n = src.len(9);
    let form = src.below(6);
    let in_elem = src.chance(1, 2);
    let fail_at = if n > 0 && src.chance(1, 5) { Some(src.below(n)) } else { None };
    let collecting = src.chance(1, 4);
    ctx.about(format!("repetition form {} (in element: {}) of {} items over {} with {} appended to each copy, failing at {:?}", form, in_elem, n, show(&markup), show(&extra), fail_at));
    let t = load(&markup)?;
    let added = real::drain(load(&extra)?.into_stream()).map_err(|e| err_text(&e))?;
    let trace: Trace = Default::default();
    let it = || TraceIter { n, at: 0, trace: trace.clone() };
    let copy = {
        let trace = trace.clone();
        move |i: usize| {
            trace.borrow_mut().push(format!("build {}", i));
            TraceStream {
                events: added.clone(),
                at: 0,
                what: format!("copy {} done", i),
                trace: trace.clone(),
                fail: fail_at == Some(i),
            }
        }
    };
    let fallback = {
        let trace = trace.clone();
        move || {
            trace.borrow_mut().push("fallback".into());
            "fallback"
        }
    };
    // the element to work in, around the document
    let wrapped = Template::with_transformed_element("section", |h| h.replace_contents(&t))
        .map_err(|e| err_text(&e))?;
    let wtext = wrapped.to_string();
    let got = match form {
        0 if !in_elem => t.transform(|h| h.repeat(it(), |h, i| h.append(copy(i)))),
        0 => wrapped.transform(|h| h.select_once("section", |h| h.repeat(it(), |h, i| h.append(copy(i))))),
        1 if !in_elem => t.transform(|h| {
            h.repeat_or_else(it(), |h, i| h.append(copy(i)), |h| h.append(fallback()))
        }),
        1 => wrapped.transform(|h| {
            h.select_once("section", |h| {
                h.repeat_or_else(it(), |h, i| h.append(copy(i)), |h| h.append(fallback()))
            })
        }),
        2 | 3 => wrapped.transform(|h| {
            h.select_direct("section", |h| h.repeat_contents(it(), |h, i| h.append(copy(i))))
        }),
        _ => wrapped.transform(|h| {
            h.select_direct_once("section", |h| {
                h.repeat_contents_or_else(it(), |h, i| h.append(copy(i)), |h| h.append(fallback()))
            })
        }),
    };
    let or_else = matches!(form, 1 | 4 | 5);
    let contents = form >= 2;
    // outputs
    let base = if contents || !in_elem { markup.clone() } else { wtext.clone() };
    let one = format!("{}{}", base, extra);
    match (&got, fail_at) {
        (Err(e), Some(_)) => {
            let want = err_text(&make_err(&Fail::User("copy".into())));
            if err_text(e) != want {
                return Err(format!("expected the error {}, got {}", want, err_text(e)));
            }
            ctx.count("iterators stopped by an error");
        }
        (Ok(t), None) => {
            let want = if n == 0 && or_else {
                ctx.count("fallbacks");
                let b = if contents || in_elem { wtext.clone() } else { markup.clone() };
                format!("{}fallback", b)
            } else if contents {
                format!("<section>{}</section>", one.repeat(n))
            } else {
                one.repeat(n)
            };
            same_output(&want, &t.to_string())?;
        }
        (Ok(t), Some(_)) => return Err(format!("no error, but {}", show(&t.to_string()))),
        (Err(e), None) => return Err(format!("an error came out of nowhere: {}", err_text(e))),
    }
    let _ = collecting;
    // the trace
    let mut want = Vec::new();
    for i in 0..n {
        want.push(format!("next {}", i));
        want.push(format!("build {}", i));
        want.push(format!("copy {} done", i));
        if fail_at == Some(i) {
            break;
        }
    }
    if n == 0 && or_else {
        want.push("fallback".into());
    }
    let got: Vec<String> = trace.borrow().clone();
    let plain: Vec<String> = got.iter().filter(|s| &s[..] != "end").cloned().collect();
    ctx.add("trace steps", got.len() as u64);
    if plain != want {
        return Err(format!("the trace is {:?}, expected {:?}", got, want));
    }
    let ends = got.len() - plain.len();
    let last_ok = got.last().map_or(true, |s| s == "end" || s == "fallback" || fail_at.is_some());
    if ends > 1 || (fail_at.is_some() && ends > 0) || !last_ok {
        return Err(format!("the end of the iterator was met wrongly: {:?}", got));
    }
    if n > 0 {
        ctx.nontrivial(format!("{} {} {:?} {} {} {}", form, n, fail_at, in_elem, markup, extra).as_bytes());
    }
    ctx.sample(|| format!("{:?}", got));
    Ok(())
}

fn doc_markup(src: &mut Src) -> String {
    render(&doc(src, Shape { nodes: 4, depth: 2, ..SMALL }))
}

fn c13_large(ctx: &mut Ctx, src: &mut Src) -> Res {
    let n = size(src, 3_000);
    let doc = doc(src, Shape { nodes: 4, depth: 2, ..SMALL });
    let items = Items { site: 1, items: (0..n as i64).collect() };
    let b = Rc::new(Body { site: 2, variants: vec![vec![Op::Append(Content::Item)], vec![Op::Prepend(Content::Item)]], elem: false });
    let ops = match src.below(3) {
        0 => vec![Op::Repeat(items, b)],
        1 => vec![Op::RepeatElse(items, b.clone(), b)],
        _ => {
            let r = Op::RepeatC(items, b);
            let b1 = Body { site: 4, variants: vec![vec![r]], elem: true };
            vec![Op::Append(Content::NewElem("p".into(), None)), Op::Select(Scope::Once, Sel::Tag("p".into()), Rc::new(b1))]
        }
    };
    let case = Case { pool: vec![vec![]], doc, ops };
    compare(ctx, &case, &["repeat"])?;
    ctx.about(format!("{} items over {}", n, show(&render(&case.doc))));
    Ok(())
}

// ---- C14

fn c14_mix(ctx: &mut Ctx, src: &mut Src) -> Res {
    let mix = Mix { select: 3, content: 2, repeat: 1, attr: 2, apply: 10, look: 1, depth: 4, ..MIX };
    let case = a_case(src, mix, D);
    compare(ctx, &case, &["apply", "into_"])
}

/// The program with its combinators written out. Bodies with variants stay.
fn inline(ops: &[Op], item: Option<i64>) -> Option<Vec<Op>> {
    let mut v = Vec::new();
    let one = |b: &Rc<Body>| -> Option<Vec<Op>> {
        if b.variants.len() == 1 { inline(&b.variants[0], item) } else { None }
    };
    for op in ops {
        match op {
            Op::Apply(b) | Op::ApplyBoxed(b) | Op::ApplyBoxedElem(b) => v.extend(one(b)?),
            Op::ApplyIf(c, b) => {
                if *c {
                    v.extend(one(b)?)
                }
            }
            Op::ApplyIfElse(c, a, b) => v.extend(one(if *c { a } else { b })?),
            Op::ApplyOpt(None, _, b) => v.extend(one(b)?),
            Op::Box | Op::BoxElem | Op::Look(_) => {}
            Op::ApplyOpt(..) | Op::ApplyRes(..) | Op::AsTpl(_) => return None,
            Op::Select(s, sel, b) => v.push(Op::Select(*s, sel.clone(), inline_body(b, item)?)),
            Op::Subselect(s, sel, b) => v.push(Op::Subselect(*s, sel.clone(), inline_body(b, item)?)),
            Op::SubContents(b) => v.push(Op::SubContents(inline_body(b, item)?)),
            other => v.push(other.clone()),
        }
    }
    Some(v)
}

fn inline_body(b: &Rc<Body>, item: Option<i64>) -> Option<Rc<Body>> {
    let mut variants = Vec::new();
    for v in &b.variants {
        variants.push(inline(v, item)?);
    }
    Some(Rc::new(Body { site: b.site, variants, elem: b.elem }))
}

/// On single elements, writing out keeps an element an element.
fn c14_inline(ctx: &mut Ctx, src: &mut Src) -> Res {
    let mix = Mix { select: 3, content: 3, repeat: 1, attr: 3, apply: 10, look: 0, depth: 4, ..MIX };
    let case = a_case(src, mix, D);
    let Some(flat) = inline(&case.ops, None) else {
        ctx.count("not written out");
        return Ok(());
    };
    let e1 = case.env()?;
    let e2 = case.env()?;
    let t = load(&spelled(&case.doc))?;
    // too big ones are left out
    let mut m = Model::new(&case.pool, FUEL);
    if m.ops(&case.ops, &Env::default(), case.doc.clone()) == Err(Stop::TooBig) {
        return Ok(());
    }
    ctx.about(format!("{}\n    written out {:?}", case.show(), flat));
    let a = real::run(&t, &case.ops, &e1);
    let b = real::run(&t, &flat, &e2);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            if a != b || a.to_string() != b.to_string() {
                return Err(format!(
                    "with combinators: {}\n  written out: {}",
                    show(&a.to_string()),
                    show(&b.to_string())
                ));
            }
            if a != t {
                ctx.nontrivial(key(&case).as_bytes());
            }
            ctx.count("programs written out");
            Ok(())
        }
        (a, b) => Err(format!("errors: {:?} and {:?}", a.err(), b.err())),
    }
}

fn check_typed(ctx: &mut Ctx, what: &str, want: &str, got: Result<Template, StreamError>) -> Res {
    ctx.count("typed runs compared");
    match got {
        Ok(t) => same_output(want, &t.to_string()).map_err(|e| format!("{}: {}", what, e)),
        Err(e) => Err(format!("{}: {}", what, err_text(&e))),
    }
}

struct Yes;
impl select::Selector for Yes {
    fn matches(&self, e: &Event) -> bool {
        real::is_start(e)
    }
}

fn c14_typed(ctx: &mut Ctx, src: &mut Src) -> Res {
    use html5_fuser::text::{Data, Identifier, Value};
    let narrow = src.chance(2, 3);
    let doc = a_doc(src, Docs { narrow, ..D });
    let pool = a_pool(src, true);
    let markup = render(&doc);
    let (tag, class, text, cls) = {
        let mut g = Pg::new(src, MIX, 1, &doc);
        (g.name(0).text, g.name(2).text, hostile_text(g.src), g.name(2).text)
    };
    let id = src.pick(&["x", "y", "item", "k"]).to_string();
    ctx.about(format!("tag {:?} class {:?} text {:?} on {}", tag, class, text, show(&markup)));
    let t = load(&markup)?;
    let inner = load(&spelled(&pool[0]))?;
    let st: &'static str = intern(&text);
    let bad = |e: &dyn std::fmt::Debug| format!("a valid name was refused: {:?}", e);
    // what is done to each element that is selected
    let act = |c: Content| {
        vec![
            Op::AddClass(Name { text: cls.clone(), way: NWay::Str }),
            Op::AddTo(
                Name { text: "k".into(), way: NWay::Str },
                Val::Text(text.clone(), VWay::Str),
                Val::Text(";".into(), VWay::Str),
            ),
            Op::AppendC(c),
        ]
    };
    let model = |sel: Sel, scope: Scope, list: Vec<Op>| -> Option<String> {
        let mut m = Model::new(&pool, FUEL);
        let b = Body { site: 1, variants: vec![list], elem: false };
        m.ops(&[Op::Select(scope, sel, Rc::new(b))], &Env::default(), doc.clone()).ok().map(|n| render(&n))
    };
    macro_rules! acts {
        ($sel:expr, $n:expr, $k:expr, $v:expr, $s:expr, $c:expr) => {
            t.transform(|h| {
                h.select($sel, |h| h.add_class($n).add_to_attribute($k, $v, $s).append_contents($c))
            })
        };
    }
    let Some(want) = model(Sel::Tag(tag.clone()), Scope::Any, act(Content::Text(text.clone(), Way::Str))) else {
        return Ok(());
    };
    let rtag: select::Tag = tag.parse().map_err(|e| bad(&e))?;
    let cid: Identifier = cls.parse().map_err(|e| bad(&e))?;
    let val = Value::from_unencoded_str(&text);
    let data = Data::from_unencoded_str(&text);
    let sdata = Data::from_unencoded_static_str(st);
    let rrtag = &&rtag;
    let scls = intern(&cls);
    check_typed(ctx, "selector by value", &want, acts!(tag.parse::<select::Tag>(), scls, "k", st, ";", st))?;
    check_typed(ctx, "selector by reference", &want, acts!(&rtag, &cid, "k", &val, ";", &data))?;
    check_typed(ctx, "double reference", &want, acts!(rrtag, &cid, "k", val.clone(), ";", &sdata))?;
    check_typed(ctx, "selector as result", &want, acts!(tag.parse::<select::Tag>().map_err(StreamError::from), cls.parse::<Identifier>(), "k", st, Value::from_unencoded_str(";"), data.clone()))?;
    let rc = Rc::new(tag.parse::<select::Tag>().map_err(|e| bad(&e))?);
    check_typed(ctx, "selector by pointer", &want, acts!(rc.clone(), cid.clone(), "k", &val, ";", Ok::<_, StreamError>(st)))?;
    check_typed(ctx, "selector as reference to pointer", &want, acts!(&rc, cid.clone(), "k".parse::<Identifier>(), &val, ";", val.clone()))?;
    if let Some(w) = model(Sel::Class(class.clone()), Scope::Any, act(Content::Tpl(0, TplWay::Ref))) {
        let rcl: select::Class = class.parse().map_err(|e| bad(&e))?;
        check_typed(ctx, "class by reference", &w, acts!(&rcl, &cid, "k", &val, ";", &inner))?;
        check_typed(ctx, "class as result", &w, acts!(class.parse::<select::Class>(), &cid, "k", &val, ";", inner.clone()))?;
        let crc = Rc::new(rcl);
        check_typed(ctx, "class by pointer", &w, acts!(crc, &cid, "k", &val, ";", Rc::new(inner.clone())))?;
        let cs = select::Classes::from_str_iterator(vec![&class[..]].into_iter()).map_err(|e| bad(&e))?;
        check_typed(ctx, "classes by reference", &w, acts!(&cs, &cid, "k", &val, ";", (&inner).into_stream()))?;
        check_typed(ctx, "classes as result", &w, acts!(select::Classes::from_str_iterator(vec![&class[..], &class[..]].into_iter()), &cid, "k", &val, ";", Ok::<_, html5_fuser::template::InputError>(inner.clone())))?;
        if !class.contains('#') && !class.contains('.') {
            let s = intern(&format!(".{}", class));
            check_typed(ctx, "static class", &w, acts!(s, &cid, "k", &val, ";", Template::from_str(&render(&pool[0]), ParseOptions::default())))?;
            if let Ok(s) = select::IntoSelector::into_selector(s) {
                check_typed(ctx, "static selector by reference", &w, acts!(&s, &cid, "k", &val, ";", &inner))?;
            }
        }
    }
    if let Some(w) = model(Sel::Id(id.clone()), Scope::Any, act(Content::Tpl(0, TplWay::Ref))) {
        let rid: select::Id = id.parse().map_err(|e| bad(&e))?;
        check_typed(ctx, "id by reference", &w, acts!(&rid, &cid, "k", &val, ";", &inner))?;
        check_typed(ctx, "id as result", &w, acts!(id.parse::<select::Id>(), &cid, "k", &val, ";", Rc::new(RefCell::new(inner.clone().into_stream()))))?;
    }
    // the same with each combinator around, typed all the way
    macro_rules! sel {
        ($h:expr) => {
            $h.select(tag.parse::<select::Tag>(), |h| {
                h.add_class(scls).add_to_attribute("k", st, ";").append_contents(st)
            })
        };
    }
    check_typed(ctx, "apply", &want, t.transform(|h| h.apply(|h| sel!(h))))?;
    check_typed(ctx, "apply_if true", &want, t.transform(|h| h.apply_if(true, |h| sel!(h))))?;
    check_typed(ctx, "apply_if false", &markup, t.transform(|h| h.apply_if(false, |h| sel!(h))))?;
    check_typed(ctx, "apply_if_else true", &want, t.transform(|h| h.apply_if_else(true, |h| sel!(h), |h| h.remove())))?;
    check_typed(ctx, "apply_if_else false", &want, t.transform(|h| h.apply_if_else(false, |h| h.remove(), |h| sel!(h))))?;
    check_typed(ctx, "apply_with_option Some", &want, t.transform(|h| h.apply_with_option(Some(st), |h, _| sel!(h), |h| h.remove())))?;
    check_typed(ctx, "apply_with_option None", &want, t.transform(|h| h.apply_with_option(None::<u8>, |h, _| h.remove(), |h| sel!(h))))?;
    check_typed(ctx, "apply_with_result Ok", &want, t.transform(|h| h.apply_with_result(Ok::<_, u8>(1), |h, _| sel!(h), |h, _| h.remove())))?;
    check_typed(ctx, "apply_with_result Err", &want, t.transform(|h| h.apply_with_result(Err::<u8, _>(1), |h, _| h.remove(), |h, _| sel!(h))))?;
    check_typed(ctx, "apply_as_boxed", &want, t.transform(|h| h.apply_as_boxed(|h| sel!(h))))?;
    check_typed(ctx, "into_boxed before", &want, t.transform(|h| sel!(h.into_boxed())))?;
    check_typed(ctx, "into_boxed after", &want, t.transform(|h| {
        h.select(tag.parse::<select::Tag>(), move |h| {
            h.add_class(scls).add_to_attribute("k", st, ";").append_contents(st)
        })
        .into_boxed()
        .into_boxed()
    }))?;
    check_typed(ctx, "apply_as_template", &want, t.transform(|h| h.apply_as_template(|t: Template| t.transform(|h| sel!(h)))))?;
    check_typed(ctx, "element combinators", &want, t.transform(|h| {
        h.select(tag.parse::<select::Tag>(), move |h| {
            h.apply_as_boxed_element(|h| h.add_class(scls))
                .apply(|h| h.add_to_attribute("k", st, ";"))
                .apply_if(false, |h| h.remove_contents())
                .into_boxed_element()
                .apply_if_else(true, |h| h.append_contents(st), |h| h.remove_contents())
        })
    }))?;
    check_typed(ctx, "element combinators 2", &want, t.transform(|h| {
        h.select(tag.parse::<select::Tag>(), |h| {
            h.apply_with_option(Some(scls), |h, c| h.add_class(c), |h| h.remove_contents())
                .apply_with_result(Err::<u8, _>(st), |h, _| h.remove_contents(), |h, v| h.add_to_attribute("k", v, ";"))
                .apply_if(true, |h| h.append_contents(st))
        })
    }))?;
    // every element, by a selector of the user's own
    if let Some(w) = model(Sel::Custom(Pred::All, 0), Scope::Any, act(Content::Text(text.clone(), Way::Str))) {
        check_typed(ctx, "own selector", &w, acts!(Yes, scls, "k", st, ";", st))?;
        check_typed(ctx, "own selector by reference", &w, acts!(&Yes, scls, "k", st, ";", st))?;
        check_typed(ctx, "own selector by pointer", &w, acts!(Rc::new(Yes), scls, "k", st, ";", st))?;
        check_typed(ctx, "own selector as result", &w, acts!(Ok::<_, select::TagError>(Yes), scls, "k", st, ";", st))?;
    }
    if want != markup {
        ctx.nontrivial(format!("{} {} {} {}", tag, class, text, markup).as_bytes());
    }
    Ok(())
}

// ---- C15

fn shown(r: &Result<Template, StreamError>) -> String {
    match r {
        Ok(t) => show(&t.to_string()),
        Err(e) => err_text(e),
    }
}

fn too_big(case: &Case) -> bool {
    let mut m = Model::new(&case.pool, FUEL);
    m.ops(&case.ops, &Env::default(), case.doc.clone()) == Err(Stop::TooBig)
}

fn c15_steps(ctx: &mut Ctx, src: &mut Src) -> Res {
    let mix = Mix { max_ops: 6, ..MIX };
    let case = a_case(src, mix, D);
    if too_big(&case) {
        return Ok(());
    }
    ctx.about(case.show());
    let t = load(&spelled(&case.doc))?;
    let e1 = case.env()?;
    let whole = real::run(&t, &case.ops, &e1);
    let e2 = case.env()?;
    let mut cur = t.clone();
    for (i, op) in case.ops.iter().enumerate() {
        cur = match real::run(&cur, std::slice::from_ref(op), &e2) {
            Ok(t) => t,
            Err(e) => return Err(format!("step {} fails by itself: {}", i, err_text(&e))),
        };
    }
    let whole_t = match &whole {
        Ok(t) => t,
        Err(_) => return Err(format!("fails in one call: {}", shown(&whole))),
    };
    if *whole_t != cur || whole_t.to_string() != cur.to_string() {
        return Err(format!(
            "in one call: {}\n  step by step: {}",
            show(&whole_t.to_string()),
            show(&cur.to_string())
        ));
    }
    same_log(&e1.log.borrow(), &e2.log.borrow())?;
    ctx.count("chains compared");
    if case.ops.len() > 1 && cur != t {
        ctx.nontrivial(key(&case).as_bytes());
    }
    ctx.sample(|| case.show());
    Ok(())
}

fn c15_reload(ctx: &mut Ctx, src: &mut Src) -> Res {
    let mix = Mix { max_ops: 5, ..MIX };
    let case = a_case(src, mix, Docs { raw: false, narrow: false, big: true });
    if too_big(&case) {
        return Ok(());
    }
    ctx.about(case.show());
    let t = load(&spelled(&case.doc))?;
    let e1 = case.env()?;
    let whole = match real::run(&t, &case.ops, &e1) {
        Ok(t) => t,
        Err(e) => return Err(format!("an error came out of nowhere: {}", err_text(&e))),
    };
    let e2 = case.env()?;
    let mut cur = t.clone();
    for (i, op) in case.ops.iter().enumerate() {
        cur = match real::run(&cur, std::slice::from_ref(op), &e2) {
            Ok(t) => load(&t.to_string())?,
            Err(e) => return Err(format!("step {} fails by itself: {}", i, err_text(&e))),
        };
    }
    if whole.to_string() != cur.to_string() {
        return Err(format!(
            "in one call: {}\n  rendered and loaded after each step: {}",
            show(&whole.to_string()),
            show(&cur.to_string())
        ));
    }
    ctx.count("chains compared");
    if case.ops.len() > 1 && cur != t {
        ctx.nontrivial(key(&case).as_bytes());
    }
    Ok(())
}

/// Things that leave everything as it is.
fn idle(g: &mut Pg, depth: usize, elem: bool) -> Vec<Op> {
    let mut v = Vec::new();
    let n = g.src.below(4);
    for _ in 0..n {
        let d = depth.saturating_sub(1);
        let k = if depth == 0 { 6 + g.src.below(2) } else { g.src.below(8) };
        let body = |g: &mut Pg, elem: bool| {
            let list = idle(g, d, elem);
            Rc::new(Body { site: g.site(), elem: ends_elem(&list, elem), variants: vec![list] })
        };
        let e = ends_elem(&v, elem);
        v.push(match k {
            0 => {
                let s = *g.src.pick(SCOPES);
                let sel = g.sel();
                Op::Select(s, sel, body(g, true))
            }
            1 if e => {
                // of elements that have contents: an empty pair is not a self-closed tag
                Op::BoxElem
            }
            1 => Op::Box,
            2 => Op::Apply(body(g, e)),
            3 => Op::ApplyIfElse(g.src.chance(1, 2), body(g, e), body(g, e)),
            4 => Op::AsTpl(body(g, false)),
            5 => {
                // a single item
                let site = g.site();
                Op::Repeat(Items { site, items: vec![1] }, body(g, e))
            }
            6 => Op::ApplyIf(false, {
                let site = g.site();
                Rc::new(Body { site, elem: false, variants: vec![vec![Op::Remove]] })
            }),
            _ if e => Op::RemoveClass(Name { text: "never-there".into(), way: NWay::Str }),
            _ => Op::Select(
                Scope::Any,
                Sel::Static("never-there.x#".replace('#', "")),
                Rc::new(Body { site: g.site(), elem: false, variants: vec![vec![Op::Remove]] }),
            ),
        });
    }
    v
}

fn c15_identity(ctx: &mut Ctx, src: &mut Src) -> Res {
    let doc = a_doc(src, D);
    let ops = {
        let mut g = Pg::new(src, MIX, 1, &doc);
        idle(&mut g, 3, false)
    };
    let case = Case { pool: vec![vec![]], doc, ops };
    ctx.about(case.show());
    let t = load(&spelled(&case.doc))?;
    let env = case.env()?;
    let plain = t.transform(|h| h);
    let u = real::run(&t, &case.ops, &env);
    for r in [&plain, &u] {
        match r {
            Ok(x) if *x == t && x.to_string() == t.to_string() => {}
            other => return Err(format!("nothing was to be done, but got {}", shown(other))),
        }
    }
    ctx.count("identities compared");
    if !case.ops.is_empty() {
        ctx.nontrivial(key(&case).as_bytes());
    }
    Ok(())
}

// ---- C16

struct Before {
    t: Template,
    text: String,
    clone: Template,
    fresh: Template,
    pool: Vec<(String, Template, Template)>,
}

impl Before {
    fn take(case: &Case, t: &Template, env: &RealEnv) -> Result<Before, String> {
        let mut pool = Vec::new();
        for (i, p) in env.pool.iter().enumerate() {
            pool.push((p.to_string(), p.clone(), load(&spelled(&case.pool[i]))?));
        }
        Ok(Before {
            t: t.clone(),
            text: t.to_string(),
            clone: t.clone(),
            fresh: load(&spelled(&case.doc))?,
            pool,
        })
    }
    fn check(&self, ctx: &mut Ctx, t: &Template, env: &RealEnv, when: &str) -> Res {
        ctx.count("inputs compared");
        if t.to_string() != self.text || *t != self.fresh || self.clone != self.fresh || *t != self.t {
            return Err(format!(
                "the template changed by a {} transformation: it was {}, it is {}",
                when,
                show(&self.text),
                show(&t.to_string())
            ));
        }
        for (i, (text, clone, fresh)) in self.pool.iter().enumerate() {
            let p = &env.pool[i];
            if p.to_string() != *text || p != fresh || clone != fresh {
                return Err(format!(
                    "an inserted template changed by a {} transformation: it was {}, it is {}",
                    when,
                    show(text),
                    show(&p.to_string())
                ));
            }
        }
        Ok(())
    }
}

/// The pool's last template is the transformed one itself.
fn c16_case(src: &mut Src, mix: Mix) -> Case {
    let doc = a_doc(src, Docs { big: false, ..D });
    let mut pool = a_pool(src, true);
    pool.push(doc.clone());
    let ops = {
        let mut g = Pg::new(src, mix, pool.len(), &doc);
        for p in &pool {
            g.more(p);
        }
        let mut v = g.ops(mix.depth, false, false);
        if v.is_empty() {
            v = g.ops(mix.depth, false, false);
        }
        v
    };
    Case { pool, doc, ops }
}

fn ended(
    ctx: &mut Ctx,
    env: &Rc<RealEnv>,
    t: &Template,
    case: &Case,
) -> Result<Option<Result<Template, StreamError>>, String> {
    env.log.borrow_mut().clear();
    env.calls.borrow_mut().clear();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| real::run(t, &case.ops, env)));
    match r {
        Ok(r) => Ok(Some(r)),
        Err(p) => {
            if p.downcast_ref::<real::UserPanic>().is_some() {
                ctx.count("panics on purpose");
                Ok(None)
            } else {
                std::panic::resume_unwind(p)
            }
        }
    }
}

fn same_end(a: &Option<Result<Template, StreamError>>, b: &Option<Result<Template, StreamError>>) -> bool {
    match (a, b) {
        (Some(Ok(a)), Some(Ok(b))) => a == b && a.to_string() == b.to_string(),
        (Some(Err(a)), Some(Err(b))) => err_text(a) == err_text(b),
        (None, None) => true,
        _ => false,
    }
}

fn c16_run(ctx: &mut Ctx, src: &mut Src, mix: Mix, panic: bool) -> Res {
    let case = c16_case(src, mix);
    let mut m = Model::new(&case.pool, FUEL / 4);
    let want = m.ops(&case.ops, &Env::default(), case.doc.clone());
    if want == Err(Stop::TooBig) {
        return Ok(());
    }
    let total: usize = m.calls.values().sum();
    let at = if panic { Some(src.below(total.max(1))) } else { None };
    ctx.about(format!("{}\n    panic in call {:?}", case.show(), at));
    let env = case.env()?;
    let t = env.pool[env.pool.len() - 1].clone();
    let before = Before::take(&case, &t, &env)?;
    // a stream in the middle of being read
    let mut held = (&t).into_stream();
    let mut ahead = Vec::new();
    for _ in 0..src.below(4) {
        if let Ok(Some(e)) = held.next_event() {
            ahead.push(e);
        }
    }
    *env.panic_in.borrow_mut() = at;
    let first = ended(ctx, &env, &t, &case)?;
    let log = env.log.borrow().clone();
    let when = match &first {
        Some(Ok(_)) => "successful",
        Some(Err(_)) => {
            ctx.count("failed runs");
            "failed"
        }
        None => "panicked",
    };
    before.check(ctx, &t, &env, when)?;
    let result = match &first {
        Some(Ok(t)) => Some((t.clone(), t.to_string())),
        _ => None,
    };
    *env.panic_in.borrow_mut() = at;
    let second = ended(ctx, &env, &t, &case)?;
    before.check(ctx, &t, &env, when)?;
    if !same_end(&first, &second) {
        let s = |r: &Option<Result<Template, StreamError>>| match r {
            Some(r) => shown(r),
            None => "a panic".into(),
        };
        return Err(format!("the first time {}, the second time {}", s(&first), s(&second)));
    }
    ctx.count("second runs compared");
    if first.as_ref().map_or(false, |r| r.is_ok()) {
        same_log(&log, &env.log.borrow())?;
    }
    if let (Some((c, text)), Some(Ok(t))) = (&result, &first) {
        if t != c || t.to_string() != *text {
            return Err("the result changed when the transformation ran again".into());
        }
    }
    // without the panic the result is that of an untouched world
    if panic {
        *env.panic_in.borrow_mut() = None;
        let third = ended(ctx, &env, &t, &case)?;
        let fresh = case.env()?;
        let f = ended(ctx, &fresh, &before.fresh, &case)?;
        if !same_end(&third, &f) {
            return Err("after a panic the transformation gives another result than before".into());
        }
    }
    // the held stream goes on as if nothing had happened
    loop {
        match held.next_event() {
            Ok(Some(e)) => ahead.push(e),
            Ok(None) => break,
            Err(e) => return Err(err_text(&e)),
        }
    }
    let all: String = ahead.iter().map(|e| e.to_string()).collect();
    if all != before.text {
        return Err("a stream of the template read during the transformation differs".into());
    }
    drop(first);
    drop(second);
    before.check(ctx, &t, &env, when)?;
    ctx.nontrivial(format!("{}{:?}", key(&case), at).as_bytes());
    ctx.sample(|| case.show());
    Ok(())
}

const C16MIX: Mix = Mix { content: 8, ..MIX };

fn c16_ok(ctx: &mut Ctx, src: &mut Src) -> Res {
    c16_run(ctx, src, C16MIX, false)
}
fn c16_err(ctx: &mut Ctx, src: &mut Src) -> Res {
    c16_run(ctx, src, Mix { errors: 90, ..C16MIX }, false)
}
fn c16_panic(ctx: &mut Ctx, src: &mut Src) -> Res {
    c16_run(ctx, src, Mix { errors: 10, ..C16MIX }, true)
}

/// Nodes with texts and values much like these.
fn near_nodes(src: &mut Src, nodes: &[Node]) -> Vec<Node> {
    nodes
        .iter()
        .map(|n| match n {
            Node::Text(s) if src.chance(1, 3) => {
                let t = near_text(src, s).replace('<', "");
                // a text is never empty
                Node::Text(if t.is_empty() { s.clone() } else { t })
            }
            Node::Elem(e) => {
                let mut e = e.clone();
                for a in &mut e.attrs {
                    if let (Some(v), true) = (&a.value, src.chance(1, 3)) {
                        a.value = Some(near_text(src, v).replace('"', ""));
                    }
                }
                if let Kind::Normal { ref mut children, .. } = e.kind {
                    if !is_raw(&e.name) {
                        *children = near_nodes(src, children);
                    }
                }
                Node::Elem(e)
            }
            n => n.clone(),
        })
        .collect()
}

fn outcome(case: &Case) -> Result<String, String> {
    let env = case.env()?;
    let t = load(&spelled(&case.doc))?;
    Ok(match real::run(&t, &case.ops, &env) {
        Ok(t) => format!("the output {}", t),
        Err(e) => format!("the error {}", err_text(&e)),
    })
}

/// The outcome in a thread of its own, where nothing happened before.
fn outcome_alone(case: &Case) -> Result<String, String> {
    crate::run::in_thread(1 << 24, || outcome(case)).unwrap_or_else(|| outcome(case))
}

/// A transformation of one template, then of very many others, each with its own result.
fn c16_many(ctx: &mut Ctx, src: &mut Src) -> Res {
    let n = if ctx.thorough { 1_000_000 } else { 70_000 };
    let name = *src.pick(&["a", "p", "li"]);
    let class = src.chance(1, 2);
    let doc = |i: usize| format!("<{} class=\"x{}\"><b>{}</b></{}>", name, i, i, name);
    let want = |i: usize| format!("<{} class=\"x{} y\"><b>{}{}</b></{}>", name, i, i, if class { "<br>" } else { "t" }, name);
    ctx.about(format!("{} templates like {}", n, doc(0)));
    ctx.nontrivial(format!("{} {} {}", n, name, class).as_bytes());
    let part = load("<br>")?;
    let run = |t: &Template| -> Result<Template, String> {
        t.transform(|html| {
            let html = html.select(name, |html| html.add_class("y"));
            html.select("b", |html| if class { html.append_contents(&part).into_boxed() } else { html.append_contents("t").into_boxed() })
        })
        .map_err(|e| err_text(&e))
    };
    let first = load(&doc(0))?;
    let made = run(&first)?;
    for i in 1..=n {
        let t = load(&doc(i))?;
        let r = run(&t)?.to_string();
        if r != want(i) {
            return Err(format!("number {}: {} gave {}", i, doc(i), r));
        }
        if i % 4096 == 0 && (first.to_string() != doc(0) || made.to_string() != want(0) || run(&first)? != made) {
            return Err(format!("after {} others {} gives {} and its result is {}", i, first, run(&first)?, made));
        }
    }
    ctx.add("transformations in turn", n as u64);
    Ok(())
}

/// Transformations much like each other, in any order and repeatedly: each gives what it gives alone.
fn c16_similar(ctx: &mut Ctx, src: &mut Src) -> Res {
    let first = if src.chance(1, 2) {
        c16_case(src, Mix { repeat: 1, depth: 2, ..C16MIX })
    } else {
        // attribute operations on elements that all look alike
        let doc = a_doc(src, Docs { big: false, narrow: true, raw: false });
        let pool = a_pool(src, false);
        let ops = {
            let mut g = Pg::new(src, Mix { attr: 12, ..MIX }, pool.len(), &doc);
            let n = g.src.range(1, 4);
            let list: Vec<Op> = (0..n).map(|_| if g.src.chance(1, 3) { g.attr_op() } else { Op::AddTo(g.name(2), g.val(), g.val()) }).collect();
            let b = Body { site: 1, variants: vec![list], elem: true };
            vec![Op::Select(Scope::Any, Sel::Custom(Pred::All, 0), Rc::new(b))]
        };
        Case { pool, doc, ops }
    };
    let mut cases = vec![first];
    for i in 0..src.range(1, 3) {
        let of = src.below(i + 1);
        let doc = near_nodes(src, &cases[of].doc);
        let pool: Vec<Vec<Node>> = cases[of].pool.iter().map(|p| near_nodes(src, p)).collect();
        let ops = map_ops(&cases[of].ops, &mut |s, t| match t {
            T::Text => near_text(src, s),
            T::Name => near_name(src, s),
            _ => s.to_string(),
        });
        cases.push(Case { pool, doc, ops });
    }
    let mut about = String::new();
    for c in &cases {
        let mut m = Model::new(&c.pool, FUEL / 8);
        if m.ops(&c.ops, &Env::default(), c.doc.clone()) == Err(Stop::TooBig) {
            return Ok(());
        }
        about.push_str(&c.show());
        about.push_str("\n  and ");
    }
    ctx.about(about);
    let mut alone = Vec::new();
    for c in &cases {
        alone.push(outcome_alone(c)?);
    }
    let mut order = Vec::new();
    for _ in 0..src.range(2, 6) {
        let i = src.below(cases.len());
        order.push(i);
        let got = outcome(&cases[i])?;
        if got != alone[i] {
            return Err(format!("after {:?} transformation {} gives {}, alone {}", order, i, show(&got), show(&alone[i])));
        }
        ctx.count("runs compared with one alone");
    }
    ctx.nontrivial(alone.concat().as_bytes());
    Ok(())
}

/// Texts, values and names used again and again.
fn c16_shared(ctx: &mut Ctx, src: &mut Src) -> Res {
    use html5_fuser::text::{Data, Identifier, Value};
    let doc = a_doc(src, Docs { big: false, ..D });
    let markup = render(&doc);
    let t = load(&markup)?;
    let text = hostile_text(src);
    let text = if src.chance(1, 3) { text.repeat(30) } else { text };
    let st: &'static str = intern(&text);
    let name = attr_name(src);
    ctx.about(format!("text {:?} attribute {:?} on {}", show(&text), name, show(&markup)));
    let enc = encode(&text);
    let data = [Data::from_unencoded_str(&text), Data::from_unencoded_static_str(st)];
    let vals = [Value::from_unencoded_str(&text), Value::from_unencoded_static_str(st)];
    let id: Identifier = name.parse().map_err(|e| format!("{:?} refused: {:?}", name, e))?;
    let dc = data.clone();
    let vc = vals.clone();
    let idc = id.clone();
    let sep = Value::from_unencoded_str(";");
    let mut last: Option<Template> = None;
    let rounds = src.range(2, 5);
    for round in 0..rounds {
        let i = src.below(2);
        let j = src.below(2);
        let op = src.below(5);
        let base = if let (Some(l), true) = (&last, src.chance(1, 2)) { l.clone() } else { t.clone() };
        let text_before = base.to_string();
        let r = base.transform(|h| {
            h.select(Yes, |h| {
                h.add_to_attribute(&id, &vals[i], &vals[j])
                    .add_to_attribute(&id, &vals[j], &sep)
                    .apply_if_else(
                        op == 0,
                        |h| h.set_attribute_with_value(&id, &vals[i]),
                        |h| h.add_to_attribute(&id, &vals[i], &vals[i]),
                    )
                    .append_contents(&data[j])
                    .prepend_contents(&data[j])
                    .append(&vals[i])
            })
            .append(&base)
            .prepend(&t)
        });
        let r = match r {
            Ok(r) => r,
            Err(e) => return Err(format!("an error came out of nowhere: {}", err_text(&e))),
        };
        ctx.count("inputs compared");
        for d in data.iter().chain(dc.iter()) {
            if d.to_string() != enc || d.as_encoded_ref().to_string() != enc {
                return Err(format!("round {}: a text changed to {}", round, show(&d.to_string())));
            }
        }
        for v in vals.iter().chain(vc.iter()) {
            if v.to_string() != enc || v.as_encoded_ref().to_string() != enc {
                return Err(format!("round {}: a value changed to {}", round, show(&v.to_string())));
            }
        }
        if data != dc || vals != vc || id != idc || id.to_string() != name || sep.to_string() != ";" {
            return Err(format!("round {}: an input compares differently", round));
        }
        if t.to_string() != markup || base.to_string() != text_before {
            return Err(format!("round {}: a template changed", round));
        }
        if r.to_string().len() < 60_000 {
            last = Some(r);
        }
    }
    ctx.nontrivial(format!("{} {} {}", text, name, markup).as_bytes());
    Ok(())
}

// ---- C17

fn has_error(ops: &[Op]) -> bool {
    // the generator's erroneous parts all show in the debug text
    let s = format!("{:?}", ops);
    s.contains("Fail(") || s.contains("fail_after: Some") || s.contains("AsTplFail") || bad_inside(ops)
}

fn bad_inside(ops: &[Op]) -> bool {
    use crate::refparse::{element_name_rule, name_rule};
    let body = |b: &Rc<Body>| b.variants.iter().any(|v| bad_inside(v));
    let cont = |c: &Content| match c {
        Content::NewElem(n, b) => element_name_rule(n).is_err() || b.as_ref().map_or(false, |b| body(b)),
        Content::Transformed(_, b) => body(b),
        _ => false,
    };
    let nm = |n: &Name| name_rule(&n.text).is_err();
    ops.iter().any(|op| match op {
        Op::Select(_, s, b) | Op::Subselect(_, s, b) => sel_check(s).is_err() || body(b),
        Op::SubContents(b) | Op::Repeat(_, b) | Op::RepeatC(_, b) | Op::Apply(b) | Op::ApplyIf(_, b)
        | Op::ApplyBoxed(b) | Op::ApplyBoxedElem(b) | Op::AsTpl(b) => body(b),
        Op::RepeatElse(_, a, b) | Op::RepeatCElse(_, a, b) | Op::ApplyIfElse(_, a, b)
        | Op::ApplyOpt(_, a, b) | Op::ApplyRes(_, a, b) => body(a) || body(b),
        Op::Append(c) | Op::Prepend(c) | Op::Replace(c) | Op::AppendC(c) | Op::PrependC(c)
        | Op::ReplaceC(c) => cont(c),
        Op::AddAttr(n, _) | Op::AddAttrV(n, _) | Op::AddEmpty(n) | Op::AddTo(n, ..)
        | Op::ReplaceIf(n, _) | Op::SetAttr(n, _) | Op::SetAttrV(n, _) | Op::SetEmpty(n)
        | Op::RemoveAttr(n) | Op::AddClass(n) | Op::RemoveClass(n) | Op::SetId(n) => nm(n),
        _ => false,
    })
}

fn c17_mix(ctx: &mut Ctx, src: &mut Src) -> Res {
    let mix = Mix { errors: 100, content: 8, depth: 4, ..MIX };
    let case = a_case(src, mix, D);
    let Some(a) = agree(ctx, &case)? else { return Ok(()) };
    if has_error(&case.ops) {
        ctx.nontrivial(key(&case).as_bytes());
        if a.result.is_ok() {
            ctx.count("erroneous part unused");
        }
    }
    if a.result.is_err() {
        after_failure(ctx, &case)?;
    }
    ctx.sample(|| case.show());
    Ok(())
}

/// Templates stay usable.
fn after_failure(ctx: &mut Ctx, case: &Case) -> Res {
    let env = case.env()?;
    let t = load(&spelled(&case.doc))?;
    if real::run(&t, &case.ops, &env).is_ok() {
        return Err("failed the first time, succeeded the second time".into());
    }
    let want = format!("{}!{}", t, env.pool[0]);
    match t.transform(|h| h.append("!").append(&env.pool[0])) {
        Ok(u) => {
            ctx.count("transformations after a failure");
            same_output(&want, &u.to_string())
        }
        Err(e) => Err(format!("the template does not work after a failure: {}", err_text(&e))),
    }
}

fn all_fails(src: &mut Src) -> Fail {
    use crate::refparse::NameErr;
    let e = *src.pick(&[0usize, 1, 2, 3]);
    let e = match e {
        0 => NameErr::Empty,
        1 => NameErr::NotAscii,
        2 => NameErr::Space(*src.pick(&[' ', '\t', '\n', '\r', '\u{b}', '\u{c}'])),
        _ => NameErr::Forbidden(*src.pick(&['=', '"', '\'', '/', '>', '<', '&', ',', ';'])),
    };
    match src.below(16) {
        0 => Fail::Ident(e),
        1 => Fail::SelTag(e),
        2 => Fail::SelId(e),
        3 => Fail::SelClass(e),
        4 => Fail::SelClasses(src.below(5), e),
        5 => Fail::SelClassesEmpty,
        6 => Fail::StaticNothing,
        7 => Fail::StaticTag(e),
        8 => Fail::StaticId(e),
        9 => Fail::StaticClass(src.below(5), e),
        10 => {
            let s = super::parsing::mutant(src, 1);
            match crate::refparse::parse(&s, None) {
                Err(_) => Fail::Parse(s),
                Ok(_) => Fail::Parse("</x>".into()),
            }
        }
        11 => Fail::Length("<a></a>".into(), src.below(7)),
        12 => Fail::File(src.pick(&["/nonexistent/x.html", "/", "/dev/null/x", "/verif", "/repo/Cargo.toml\0"]).to_string()),
        13 | 14 => {
            let (p, limit) = *src.pick(real::BAD_FILES);
            Fail::Data(p, limit)
        }
        _ => Fail::User("p".into()),
    }
}

/// How many there are, and which of them stand for a range of others: an inner transformation fails as a whole,
/// before any of what it gives is seen.
#[derive(Default)]
struct Places {
    next: usize,
    whole: Vec<(usize, std::ops::Range<usize>)>,
}

/// A chain of operations with content at several places. What repeats is used as long as nothing was placed.
fn placing(src: &mut Src, next: &mut Places, depth: usize, mut elem: bool) -> Vec<Op> {
    let mut ops = Vec::new();
    for _ in 0..src.range(1, 3) {
        let site = 300 + 7 * src.below(100);
        if depth > 0 && src.chance(1, 2) {
            let body = |src: &mut Src, next: &mut Places, e: bool| {
                let v = placing(src, next, depth - 1, e);
                let ends = ends_elem(&v, e);
                Rc::new(Body { site, variants: vec![v], elem: ends })
            };
            let sel = |src: &mut Src| {
                let tag = src.pick(&["a", "b", "p", "br"]).to_string();
                if src.chance(1, 2) { Sel::Tag(tag) } else { Sel::Custom(Pred::All, 0) }
            };
            let op = match src.below(if elem { 8 } else { 6 }) {
                0 | 1 => Op::Select(*src.pick(SCOPES), sel(src), body(src, next, true)),
                2 => Op::Apply(body(src, next, elem)),
                3 => Op::ApplyIf(true, body(src, next, elem)),
                4 => {
                    let whole = next.next;
                    next.next += 1;
                    let named = src.chance(1, 2);
                    let mut v = placing(src, next, depth - 1, named);
                    next.whole.push((whole, whole + 1..next.next));
                    v.push(Op::Prepend(Content::Text(format!("\u{e123}{}\u{e123}", whole), Way::DataDyn)));
                    let b = Rc::new(Body { site, variants: vec![v], elem: false });
                    let c = if named { Content::NewElem("n".into(), Some(b)) } else { Content::Transformed(0, b) };
                    if src.chance(1, 2) { Op::Append(c) } else { Op::Prepend(c) }
                }
                5 if next.next == 0 => {
                    let items = Items { site: site + 1, items: (0..src.below(3) as i64).collect() };
                    Op::Repeat(items, body(src, next, elem))
                }
                5 => Op::ApplyBoxed(body(src, next, false)),
                6 => Op::Subselect(*src.pick(SCOPES), sel(src), body(src, next, true)),
                _ => Op::SubContents(body(src, next, false)),
            };
            elem = op_elem(&op, elem);
            ops.push(op);
            continue;
        }
        let c = Content::Text(format!("\u{e123}{}\u{e123}", next.next), Way::DataDyn);
        next.next += 1;
        let op = match src.below(if elem { 8 } else { 4 }) {
            0 | 1 => Op::Append(c),
            2 => Op::Prepend(c),
            3 if src.chance(1, 3) => Op::Replace(c),
            3 => Op::Prepend(c),
            4 | 5 => Op::AppendC(c),
            6 => Op::PrependC(c),
            _ => Op::ReplaceC(c),
        };
        elem = op_elem(&op, elem);
        ops.push(op);
    }
    ops
}

/// The contents marked that way replaced by failing ones.
fn failing(ops: &[Op], which: &dyn Fn(usize) -> Option<Fail>) -> Vec<Op> {
    let body = |b: &Rc<Body>| {
        Rc::new(Body { site: b.site, variants: b.variants.iter().map(|v| failing(v, which)).collect(), elem: b.elem })
    };
    let cont = |c: &Content| match c {
        Content::Text(s, _) => {
            let n = s.trim_matches('\u{e123}').parse::<usize>().ok().filter(|_| s.starts_with('\u{e123}'));
            n.and_then(which).map_or_else(|| c.clone(), Content::Fail)
        }
        Content::NewElem(n, Some(b)) => Content::NewElem(n.clone(), Some(body(b))),
        Content::Transformed(t, b) => Content::Transformed(*t, body(b)),
        c => c.clone(),
    };
    ops.iter()
        .map(|o| match o {
            Op::Append(c) => Op::Append(cont(c)),
            Op::Prepend(c) => Op::Prepend(cont(c)),
            Op::Replace(c) => Op::Replace(cont(c)),
            Op::AppendC(c) => Op::AppendC(cont(c)),
            Op::PrependC(c) => Op::PrependC(cont(c)),
            Op::ReplaceC(c) => Op::ReplaceC(cont(c)),
            Op::Select(s, l, b) => Op::Select(*s, l.clone(), body(b)),
            Op::Subselect(s, l, b) => Op::Subselect(*s, l.clone(), body(b)),
            Op::SubContents(b) => Op::SubContents(body(b)),
            Op::Apply(b) => Op::Apply(body(b)),
            Op::ApplyIf(c, b) => Op::ApplyIf(*c, body(b)),
            Op::ApplyBoxed(b) => Op::ApplyBoxed(body(b)),
            Op::Repeat(i, b) => Op::Repeat(i.clone(), body(b)),
            o => o.clone(),
        })
        .collect()
}

/// Of several erroneous parts the one that comes first in the output is met: where each would have been
/// is seen by putting a text there.
fn c17_several(ctx: &mut Ctx, src: &mut Src) -> Res {
    let mut places = Places::default();
    let marked = placing(src, &mut places, 3, false);
    let fails: Vec<Option<Fail>> = (0..places.next)
        .map(|k| match places.whole.iter().any(|w| w.0 == k) {
            true => None,
            false if src.chance(1, 3) => Some(all_fails(src)),
            false => Some(Fail::User(format!("e{}", k))),
        })
        .collect();
    let doc = a_doc(src, Docs { big: false, narrow: true, raw: false });
    let pool = vec![doc_nodes(src)];
    let case = Case { pool, doc, ops: failing(&marked, &|k| fails.get(k).cloned().flatten()) };
    ctx.about(case.show());
    if spelled(&case.doc).contains('\u{e123}') {
        return Ok(());
    }
    let t = load(&spelled(&case.doc))?;
    let seen = match real::run(&t, &marked, &case.env()?) {
        Ok(u) => u.to_string(),
        Err(e) => return Err(format!("with texts for the erroneous parts: {}", err_text(&e))),
    };
    if seen.len() > 200_000 {
        return Ok(());
    }
    let order = seen.match_indices('\u{e123}').filter_map(|(i, _)| {
        let rest = &seen[i + 3..];
        let end = rest.find(|c: char| !c.is_ascii_digit())?;
        rest[end..].strip_prefix('\u{e123}')?;
        rest[..end].parse::<usize>().ok()
    });
    // what fails there alone
    let mut want = None;
    let mut passed: Vec<usize> = Vec::new();
    for k in order {
        if passed.contains(&k) {
            continue;
        }
        let of = places.whole.iter().find(|w| w.0 == k).map_or(k..k + 1, |w| w.1.clone());
        let only = failing(&marked, &|i| fails.get(i).filter(|_| of.contains(&i)).cloned().flatten());
        match real::run(&t, &only, &case.env()?) {
            Ok(_) if of == (k..k + 1) && fails[k].is_some() => return Err(format!("no error, with part {} alone failing", k)),
            Ok(_) => {
                passed.push(k);
                passed.extend(of);
            }
            Err(e) => {
                want = Some((k, e));
                break;
            }
        }
    }
    let got = real::run(&t, &case.ops, &case.env()?);
    match (want, got) {
        (None, Ok(_)) => {
            ctx.count("none of several used");
            Ok(())
        }
        (None, Err(_)) => {
            // (in what was replaced)
            ctx.count("not in the output");
            Ok(())
        }
        (Some((k, _)), Ok(_)) => Err(format!("no error, with part {} failing", k)),
        (Some((k, want)), Err(e)) => {
            if err_text(&want) != err_text(&e) {
                return Err(format!("part {} comes first; alone {}, with the others {}", k, err_text(&want), err_text(&e)));
            }
            ctx.count("first of several errors");
            if places.next > 1 {
                ctx.nontrivial(key(&case).as_bytes());
            }
            Ok(())
        }
    }
}

/// One error of a given kind through one operation, below a few others.
fn c17_each(ctx: &mut Ctx, src: &mut Src) -> Res {
    let f = all_fails(src);
    // as content, selector or result of a nested transformation
    let content = |src: &mut Src| match src.below(3) {
        0 => Content::Fail(f.clone()),
        1 => Content::User { tpl: 0, site: 90 + src.below(3), fail_after: Some((src.below(4), f.clone())), way: *src.pick(UWAYS) },
        _ => Content::Transformed(
            0,
            Rc::new(Body { site: 80, variants: vec![vec![Op::AsTplFail(f.clone())]], elem: false }),
        ),
    };
    let mut ops = match src.below(10) {
        0 => vec![Op::Append(content(src))],
        1 => vec![Op::Prepend(content(src))],
        2 => vec![Op::Replace(content(src))],
        3 => vec![Op::AppendC(content(src))],
        4 => vec![Op::PrependC(content(src))],
        5 => vec![Op::ReplaceC(content(src))],
        6 => vec![Op::AsTplFail(f.clone())],
        7 => {
            let b = Body { site: 81, variants: vec![vec![]], elem: true };
            let s = *src.pick(SCOPES);
            vec![Op::Select(s, Sel::Fail(f.clone()), Rc::new(b))]
        }
        8 => {
            let b = Body { site: 81, variants: vec![vec![]], elem: true };
            let s = *src.pick(SCOPES);
            vec![Op::Subselect(s, Sel::Fail(f.clone()), Rc::new(b))]
        }
        _ => vec![Op::SubContents(Rc::new(Body { site: 82, variants: vec![vec![Op::Append(content(src))]], elem: false }))],
    };
    let needs_elem = matches!(ops[0], Op::AppendC(_) | Op::PrependC(_) | Op::ReplaceC(_) | Op::Subselect(..) | Op::SubContents(_));
    // outer layers
    let mut elem = needs_elem;
    for i in 0..src.below(4) {
        let ends = ends_elem(&ops, elem);
        let b = Rc::new(Body { site: 10 + i, variants: vec![ops.clone()], elem: ends });
        if elem {
            let s = *src.pick(SCOPES);
            let tag = src.pick(&["a", "b", "p", "br"]).to_string();
            ops = vec![Op::Select(s, if src.chance(1, 2) { Sel::Tag(tag) } else { Sel::Custom(Pred::All, 0) }, b)];
            elem = false;
            continue;
        }
        ops = vec![match src.below(9) {
            0 => Op::Apply(b),
            1 => Op::ApplyIf(src.chance(1, 2), b),
            2 => {
                let o = Rc::new(Body { site: 30 + i, variants: vec![vec![]], elem: false });
                Op::ApplyIfElse(src.chance(1, 2), b, o)
            }
            3 => Op::ApplyBoxed(b),
            4 => Op::AsTpl(b),
            5 => Op::Repeat(Items { site: 50 + i, items: (0..src.below(3) as i64).collect() }, b),
            6 => {
                let o = Rc::new(Body { site: 30 + i, variants: vec![vec![]], elem: false });
                let items = Items { site: 50 + i, items: (0..src.below(3) as i64).collect() };
                if src.chance(1, 2) { Op::RepeatElse(items, o, b) } else { Op::RepeatElse(items, b, o) }
            }
            7 => Op::Append(Content::Transformed(0, b)),
            _ => {
                elem = true;
                Op::SubContents(b)
            }
        }];
    }
    if elem {
        let ends = ends_elem(&ops, true);
        let b = Rc::new(Body { site: 20, variants: vec![ops.clone()], elem: ends });
        ops = vec![Op::Select(Scope::Any, Sel::Custom(Pred::All, 0), b)];
    }
    let doc = a_doc(src, Docs { big: false, narrow: true, raw: true });
    let pool = vec![doc_nodes(src)];
    let case = Case { pool, doc, ops };
    let Some(a) = agree(ctx, &case)? else { return Ok(()) };
    ctx.nontrivial(key(&case).as_bytes());
    if a.result.is_ok() {
        ctx.count("erroneous part unused");
    } else {
        after_failure(ctx, &case)?;
    }
    Ok(())
}

fn doc_nodes(src: &mut Src) -> Vec<Node> {
    doc(src, Shape { nodes: 5, depth: 2, ..SMALL })
}

/// A stream of given events.
pub struct Fixed {
    pub events: Vec<Event>,
    pub at: usize,
}
impl Stream for Fixed {
    fn next_event(&mut self) -> StreamResult {
        self.at += 1;
        Ok(self.events.get(self.at - 1).cloned())
    }
}

/// What an operation makes of a list of events, well-formed or not.
mod flow {
    use super::*;

    #[derive(Clone, Debug, PartialEq)]
    pub enum K {
        Open(String),
        Close(String),
        Selfc(String),
        Void(String),
        Other,
    }

    pub fn kind(e: &Event) -> K {
        let s = e.to_string();
        let n = real::shown_name(&s).to_string();
        match e.description() {
            "opening tag" => K::Open(n),
            "closing tag" => K::Close(s[2..s.len() - 1].to_string()),
            "self-closed tag" => K::Selfc(n),
            "void tag" => K::Void(n),
            _ => K::Other,
        }
    }

    /// Nesting and names disagree on where the element ends: nothing is said
    /// about what such a stream gives.
    pub const UNCLEAR: &str = "unclear";

    /// Output so far and then perhaps an error.
    pub type Out = Result<String, String>;

    pub fn unexpected(tag: &str) -> String {
        format!("Assertion {{ error: Malformed {{ error: UnexpectedClosingTag {{ tag: {} }} }} }}", tag)
    }
    pub fn missing(tag: &str) -> String {
        format!("Assertion {{ error: Malformed {{ error: ExpectedClosingTag {{ event: None, tag: {} }} }} }}", tag)
    }
    pub fn no_open(e: Option<&Event>) -> String {
        format!("Assertion {{ error: Malformed {{ error: ExpectedOpeningTag {{ event: {:?} }} }} }}", e.map(|e| e.to_string()))
    }

    /// The element that starts at `i`: where it ends.
    pub fn end_of(ev: &[Event], i: usize) -> usize {
        let K::Open(name) = kind(&ev[i]) else { return i + 1 };
        let mut level = 0;
        for j in i + 1..ev.len() {
            match kind(&ev[j]) {
                K::Open(ref n) if ci(n, &name) => level += 1,
                K::Close(ref n) if ci(n, &name) => {
                    if level == 0 {
                        return j + 1;
                    }
                    level -= 1;
                }
                _ => {}
            }
        }
        ev.len()
    }

    /// Contents replaced by a text.
    pub fn with_contents(ev: &[Event], f: &dyn Fn(&str) -> String) -> Out {
        let head = &ev[0];
        match kind(head) {
            K::Void(_) => return Ok(head.to_string()),
            K::Selfc(n) => {
                let s = head.to_string();
                return Ok(format!("{}>{}</{}>", &s[..s.len() - 3], f(""), n));
            }
            K::Open(name) => {
                let mut depth = 0;
                let mut inner = String::new();
                for (i, e) in ev[1..].iter().enumerate() {
                    match kind(e) {
                        K::Close(ref n) if depth == 0 && ci(n, &name) => {
                            if i + 2 < ev.len() {
                                return Err(UNCLEAR.to_string());
                            }
                            return Ok(format!("{}{}{}", head, f(&inner), e));
                        }
                        K::Close(_) if depth == 0 => return Err(missing(&name)),
                        K::Close(_) => depth -= 1,
                        K::Open(_) => depth += 1,
                        _ => {}
                    }
                    inner.push_str(&e.to_string());
                }
                Err(missing(&name))
            }
            _ => Err(no_open(Some(head))),
        }
    }
}

fn text_of(e: &StreamError) -> String {
    use html5_fuser::event::{AssertionError, MalformedReason};
    match e {
        StreamError::Assertion { error: AssertionError::Malformed { error } } => match error {
            MalformedReason::UnexpectedClosingTag { tag } => flow::unexpected(&tag.to_string()),
            MalformedReason::ExpectedClosingTag { event: None, tag } => flow::missing(&tag.to_string()),
            MalformedReason::ExpectedOpeningTag { event } => flow::no_open(event.as_ref()),
            other => format!("{:?}", other),
        },
        other => err_text(other),
    }
}

struct Pick {
    name: String,
    wrong: Option<&'static str>,
}
impl select::Selector for Pick {
    fn matches(&self, e: &Event) -> bool {
        if self.wrong == Some(e.description()) {
            return true;
        }
        real::is_start(e) && ci(real::shown_name(&e.to_string()), &self.name)
    }
}

fn c17_malformed(ctx: &mut Ctx, src: &mut Src) -> Res {
    // events, some dropped, doubled or moved
    let d = doc(src, Shape { nodes: 8, narrow: true, depth: 5, ..SMALL });
    let mut ev = real::drain(load(&spelled(&d))?.into_stream()).map_err(|e| err_text(&e))?;
    for _ in 0..src.below(4) {
        if ev.is_empty() {
            break;
        }
        let i = src.below(ev.len());
        match src.below(3) {
            0 => {
                ev.remove(i);
            }
            1 => {
                let j = src.below(ev.len());
                let e = ev[i].clone();
                ev.insert(j, e);
            }
            _ => {
                let j = src.below(ev.len());
                ev.swap(i, j);
            }
        }
    }
    let name = src.pick(&["a", "b", "p"]).to_string();
    let wrong = if src.chance(1, 4) { Some(*src.pick(&["content", "comment", "closing tag", "doctype"])) } else { None };
    let what = src.below(5);
    let once = src.chance(1, 3);
    let direct = src.chance(1, 3);
    let list: Vec<String> = ev.iter().map(|e| e.to_string()).collect();
    ctx.about(format!("events {:?} selected {:?} (and {:?}), operation {}, once {}, direct {}", list, name, wrong, what, once, direct));
    // expected
    let mut want: Result<String, String> = Ok(String::new());
    let mut i = 0;
    let mut depth = 0usize;
    let mut done = false;
    while i < ev.len() {
        let k = flow::kind(&ev[i]);
        let hit = !done
            && (!direct || depth == 0)
            && match &k {
                flow::K::Open(n) | flow::K::Selfc(n) | flow::K::Void(n) => {
                    ci(n, &name) || wrong == Some(ev[i].description())
                }
                _ => wrong == Some(ev[i].description()),
            };
        let Ok(ref mut out) = want else { break };
        if hit {
            done = once;
            if matches!(k, flow::K::Close(_) | flow::K::Other) {
                want = Err(flow::no_open(Some(&ev[i])));
                break;
            }
            let j = flow::end_of(&ev, i);
            let el = &ev[i..j];
            let whole: String = el.iter().map(|e| e.to_string()).collect();
            let r = match what {
                0 => Ok(whole),
                1 => Ok(format!("{}x", whole)),
                2 => Ok(String::new()),
                3 => flow::with_contents(el, &|s| format!("{}x", s)),
                _ => flow::with_contents(el, &|_| "x".to_string()),
            };
            match r {
                Ok(s) => out.push_str(&s),
                Err(e) => {
                    want = Err(e);
                    break;
                }
            }
            i = j;
            continue;
        }
        if !done {
            match &k {
                flow::K::Open(_) => depth += 1,
                flow::K::Close(n) => {
                    if depth == 0 {
                        want = Err(flow::unexpected(n));
                        break;
                    }
                    depth -= 1;
                }
                _ => {}
            }
        }
        out.push_str(&ev[i].to_string());
        i += 1;
    }
    if want == Err(flow::UNCLEAR.to_string()) {
        return Ok(());
    }
    let t = load("<x></x>")?;
    let sel = Pick { name: name.clone(), wrong };
    let fixed = Fixed { events: ev.clone(), at: 0 };
    let got = t.transform(|h| {
        let h = h.replace(fixed);
        macro_rules! act {
            () => {
                move |h| match what {
                    0 => { let h: html5_fuser::Api<_> = h; h.into_boxed() }
                    1 => h.append("x").into_boxed(),
                    2 => h.remove().into_boxed(),
                    3 => h.append_contents("x").into_boxed(),
                    _ => h.replace_contents("x").into_boxed(),
                }
            };
        }
        match (once, direct) {
            (false, false) => h.select(sel, act!()).into_boxed(),
            (true, false) => h.select_once(sel, act!()).into_boxed(),
            (false, true) => h.select_direct(sel, act!()).into_boxed(),
            (true, true) => h.select_direct_once(sel, act!()).into_boxed(),
        }
    });
    let got = match got {
        Ok(t) => Ok(t.to_string()),
        Err(e) => Err(text_of(&e)),
    };
    if got != want {
        return Err(format!("expected {:?}, got {:?}", want, got));
    }
    if want.is_err() {
        ctx.count("malformed streams reported");
        ctx.nontrivial(format!("{:?}{}{:?}{}{}{}", list, name, wrong, what, once, direct).as_bytes());
    }
    Ok(())
}
