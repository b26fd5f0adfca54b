//! C19: no crash, no hang, no leak, no invalid access - under wild user code as well.

use super::parsing::{large, mutant, scratch_file, soup};
use super::progs::{a_case, key, Case, Docs, FUEL};
use crate::alloc;
use crate::choice::Src;
use crate::gen::*;
use crate::h::*;
use crate::prog::*;
use crate::progen::*;
use crate::real::{self, err_text, Mood, UserPanic};
use crate::run::{fam, run_limited, Ctx, Extra, Family, Prop, Res};
use crate::tree::*;
use html5_fuser::event::{IntoStream, Stream};
use html5_fuser::{ParseOptions, Template};
use std::fmt::Write as _;
use std::process::{Command, Stdio};
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    let families = || {
        vec![
            fam("markup", markup, 60_000, 1_500_000),
            fam("user code", user_code, 60_000, 1_500_000),
            fam("panics", panics, 40_000, 1_000_000),
            fam("histories", histories, 4_000, 100_000),
            fam("never seen before", fresh, 8_000, 200_000).alone(),
        ]
    };
    vec![
        Prop {
            id: "C19",
            rule: "Arbitrary strings as markup; random programs whose selectors, streams, iterators and builders answer anything at any time (events out of order and unbalanced, answers to events that are no elements, errors, ends that are none, panics); histories of templates made from one another; documents nested and repeated as deep as 300000 levels on a 256 KiB stack. Watched by: the panic hook, the exit status of the process, a watchdog over CPU time, a counting allocator (live bytes and blocks must come back to what they were, over repeated runs of the same case, and over runs in each of which every name and text is one never used before), and, in builds of their own, AddressSanitizer, Miri and (thorough) MemorySanitizer. Non-trivial: markup of at least one tag or a program that ran; distinct by input.",
            families: {
                let mut v = families();
                v.push(Family { shrink: false, ..fam("deep and long", deep, 96, 600) });
                v.push(Family { shrink: false, ..fam("large markup", large_markup, 160, 1_500) });
                v
            },
            assumptions: &[
                "memory still live after a case that ran before is what counts as kept",
                "Miri with permissive provenance, as the tendril crate converts integers to pointers",
            ],
            needs: &[
                "balanced runs", "panics on purpose met", "errors met", "wild user code ran", "deep cases",
                "cases under AddressSanitizer", "cases under Miri", "runs that keep nothing of what is new",
            ],
            extra: Some(sanitizers),
        },
        // what runs under the sanitizers
        Prop {
            id: "C19-san",
            rule: "",
            families: families(),
            assumptions: &[],
            needs: &[],
            extra: None,
        },
    ]
}

/// Run it three times. Each time memory has to come back to what it was, once caches are filled.
fn balanced(ctx: &mut Ctx, mut f: impl FnMut(&mut Ctx) -> Res) -> Res {
    f(ctx)?;
    if cfg!(miri) {
        return Ok(());
    }
    if crate::run::in_company() {
        // what is live in other threads cannot be told apart
        return f(ctx);
    }
    let mut kept = Vec::new();
    for _ in 0..2 {
        // the context's own books are no leak
        let mut inner = Ctx::new(ctx.seed, ctx.thorough);
        inner.index = ctx.index;
        let before = alloc::live();
        let r = f(&mut inner);
        let extra = inner;
        let books = alloc::live();
        drop(extra);
        let after = alloc::live();
        let _ = books;
        r?;
        if after.0 <= before.0 && after.1 <= before.1 {
            ctx.count("balanced runs");
            return Ok(());
        }
        kept.push((after.0.saturating_sub(before.0), after.1.saturating_sub(before.1)));
    }
    Err(format!("memory is kept after everything was dropped: {:?} (bytes, blocks) by two further runs", kept))
}

struct Failing(usize);
impl std::fmt::Write for Failing {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0 < s.len() {
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}

/// Everything that can be done with a template by itself.
fn handle(t: &Template, room: usize) -> Res {
    let s = t.to_string();
    let mut f = Failing(room);
    let r = write!(f, "{}", t);
    if r.is_ok() != (room >= s.len()) {
        return Err(format!("writing {} bytes to a writer with room for {}: {:?}", s.len(), room, r));
    }
    let _ = format!("{:10} {:<3} {:.2}", t, t, t);
    let c = t.clone();
    if c != *t {
        return Err("a clone is not equal".into());
    }
    let mut st = t.into_stream();
    for _ in 0..room % 7 {
        if let Ok(None) | Err(_) = st.next_event() {
            break;
        }
    }
    let mut rest = st.into_stream();
    let _ = rest.next_event();
    Ok(())
}

fn markup(ctx: &mut Ctx, src: &mut Src) -> Res {
    let s = match src.below(5) {
        0 => soup(src),
        1 => text_without(src, "", 40),
        2 => {
            // cut between any two characters
            let s = mutant(src, 1);
            let n = src.below(s.chars().count() + 1);
            s.chars().take(n).collect()
        }
        _ => mutant(src, 1),
    };
    let depth = if src.chance(1, 4) { Some(src.below(5)) } else { None };
    let len = if src.chance(1, 8) { Some(src.below(s.len() + 2)) } else { None };
    let room = src.below(s.len() + 10);
    let file = !cfg!(miri) && src.chance(1, 40);
    ctx.about(format!("input: {}", show(&s)));
    balanced(ctx, |ctx| {
        let mut o = ParseOptions::default();
        if let Some(d) = depth {
            o = o.max_stack_depth(d);
        }
        if let Some(l) = len {
            o = o.max_input_len(l);
        }
        match Template::from_str(&s, o.clone()) {
            Ok(t) => {
                ctx.count("loaded");
                handle(&t, room)?;
            }
            Err(e) => {
                ctx.count("errors met");
                let _ = err_text(&html5_fuser::StreamError::Input { error: e });
            }
        }
        if file {
            let path = scratch_file();
            // cut anywhere, within characters too
            let cut = s.len() - room.min(s.len());
            std::fs::write(&path, &s.as_bytes()[cut..]).map_err(|e| e.to_string())?;
            let r = Template::from_file(&path, o);
            let _ = std::fs::remove_file(&path);
            match r {
                Ok(t) => handle(&t, room)?,
                Err(e) => {
                    let _ = err_text(&html5_fuser::StreamError::File { error: e });
                }
            }
        }
        Ok(())
    })?;
    if s.contains('<') {
        ctx.nontrivial(s.as_bytes());
    }
    Ok(())
}

const WILD: Mix = Mix {
    select: 8, content: 8, repeat: 2, attr: 4, apply: 3, look: 0, errors: 10, max_ops: 3, depth: 2,
    user: 10, custom: 14,
};

/// Everything in it renamed.
fn renamed(nodes: &[Node], tail: &str) -> Vec<Node> {
    let words = |v: &str| -> String { v.split(' ').map(|w| if w.is_empty() { String::new() } else { format!("{}{}", w, tail) }).collect::<Vec<_>>().join(" ") };
    nodes
        .iter()
        .map(|n| match n {
            Node::Comment(c) => Node::Comment(format!("{}{}", c, tail)),
            Node::Text(t) => Node::Text(format!("{}{}", t, tail)),
            Node::Raw(t) => Node::Raw(t.clone()),
            Node::Doctype(t) => Node::Doctype(t.clone()),
            Node::Elem(e) => {
                let mut e = e.clone();
                let rename = !is_void(&e.name) && !is_raw(&e.name);
                if rename {
                    e.name.push_str(tail);
                }
                for a in &mut e.attrs {
                    if let Some(v) = a.value.as_mut() {
                        *v = if ci(&a.name, "class") { words(v) } else { format!("{}{}", v, tail) };
                    }
                    if !ci(&a.name, "class") && !ci(&a.name, "id") {
                        a.name.push_str(tail);
                    }
                }
                if let Kind::Normal { ref mut close, ref mut children } = e.kind {
                    if rename {
                        close.push_str(tail);
                        *children = renamed(children, tail);
                    }
                }
                Node::Elem(e)
            }
        })
        .collect()
}

/// Run after run with names and texts that never occurred before: nothing may be kept of them.
fn fresh(ctx: &mut Ctx, src: &mut Src) -> Res {
    static NUMBER: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let narrow = src.chance(1, 2);
    let mix = Mix { errors: 20, user: 1, custom: 1, depth: 2, ..MIX };
    let case = a_case(src, mix, Docs { raw: true, narrow, big: false });
    if too_big(&case, FUEL / 100) {
        ctx.count("skipped as too big");
        return Ok(());
    }
    let bad = mutant(src, 1);
    ctx.about(format!("{}\n    and {}, all names and texts made new each time", case.show(), show(&bad)));
    let run = || -> Res {
        let tail = format!("-new{:07}", NUMBER.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
        let elem = |s: &str| if s.is_empty() || is_void(s) || is_raw(s) { s.to_string() } else { format!("{}{}", s, tail) };
        let ops = map_ops(&case.ops, &mut |s, t| match t {
            T::Elem => elem(s),
            T::Name if ci(s, "class") || ci(s, "id") => s.to_string(),
            T::Text | T::Name => format!("{}{}", s, tail),
            T::Static => {
                let mut out = String::new();
                for (i, part) in s.split('.').enumerate() {
                    if i > 0 {
                        out.push('.');
                    }
                    for (j, p) in part.split('#').enumerate() {
                        if j > 0 {
                            out.push('#');
                        }
                        out.push_str(&if i == 0 && j == 0 { elem(p) } else { format!("{}{}", p, tail) });
                    }
                }
                out
            }
        });
        let case = Case { pool: case.pool.iter().map(|p| renamed(p, &tail)).collect(), doc: renamed(&case.doc, &tail), ops };
        let env = case.env()?;
        let t = load(&spelled(&case.doc))?;
        match real::run(&t, &case.ops, &env) {
            Ok(t) => handle(&t, 3)?,
            Err(e) => drop(err_text(&e)),
        }
        // the same with markup of any kind: new before, within and behind
        for s in [format!("<b{}></b{}>{}", tail, tail, bad), bad.replace('=', &format!("{}=", tail)), format!("{}</x{}>", bad, tail)] {
            match Template::from_str(&s, ParseOptions::default()) {
                Ok(t) => handle(&t, 3)?,
                Err(e) => drop(e.to_string()),
            }
        }
        Ok(())
    };
    run()?;
    if cfg!(miri) {
        return Ok(());
    }
    let mut kept = Vec::new();
    for _ in 0..6 {
        let before = real::live_bytes();
        run()?;
        let more = real::live_bytes() - before;
        kept.push(more);
        if more <= 0 {
            ctx.count("runs that keep nothing of what is new");
            ctx.nontrivial(key(&case).as_bytes());
            return Ok(());
        }
    }
    Err(format!("memory is kept of what never occurred before: {:?} bytes in one run after the other", kept))
}

fn too_big(case: &Case, fuel: usize) -> bool {
    let mut m = Model::new(&case.pool, fuel);
    m.ops(&case.ops, &Env::default(), case.doc.clone()) == Err(Stop::TooBig)
}

fn user_code(ctx: &mut Ctx, src: &mut Src) -> Res {
    wild(ctx, src, false)
}

fn panics(ctx: &mut Ctx, src: &mut Src) -> Res {
    wild(ctx, src, true)
}

fn wild(ctx: &mut Ctx, src: &mut Src, panic: bool) -> Res {
    let narrow = src.chance(1, 2);
    let case = a_case(src, WILD, Docs { raw: true, narrow, big: false });
    if too_big(&case, if cfg!(miri) { FUEL / 800 } else { FUEL / 20 }) {
        ctx.count("skipped as too big");
        return Ok(());
    }
    let rate = *src.pick(&[2, 4, 8, 20]);
    let left = 60;
    let seed = src.below(1 << 30) as u64;
    let most = if src.chance(1, 2) { 4 } else { 40 };
    let at = if panic { Some(src.below(most)) } else { None };
    ctx.about(format!("wildness {} of {} calls, seed {}, panic {:?}\n    {}", rate, left, seed, at, case.show()));
    balanced(ctx, |ctx| {
        let env = case.env()?;
        let t = load(&spelled(&case.doc))?;
        let text = t.to_string();
        *env.mood.borrow_mut() = Some(Mood::new(seed, left, rate));
        *env.panic_in.borrow_mut() = at;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| real::run(&t, &case.ops, &env)));
        match r {
            Ok(Ok(r)) => {
                ctx.count("wild programs with a result");
                handle(&r, 20)?;
                // and it can be used like any other
                let r2 = r.transform(|h| h.select("a", |h| h.append_contents("x")).prepend(1));
                drop(r2);
            }
            Ok(Err(e)) => {
                ctx.count("errors met");
                let _ = err_text(&e);
            }
            Err(p) => {
                if p.downcast_ref::<UserPanic>().is_none() {
                    std::panic::resume_unwind(p);
                }
                ctx.count("panics on purpose met");
            }
        }
        if env.mood.borrow().as_ref().map_or(false, |m| m.left < left) {
            ctx.count("wild user code ran");
        }
        *env.mood.borrow_mut() = None;
        *env.panic_in.borrow_mut() = None;
        if t.to_string() != text {
            return Err("the template transformed has changed".into());
        }
        Ok(())
    })?;
    ctx.nontrivial(format!("{}{}{}{:?}", key(&case), seed, rate, at).as_bytes());
    Ok(())
}

/// Templates made from templates, held and dropped in any order.
fn histories(ctx: &mut Ctx, src: &mut Src) -> Res {
    let steps = src.range(2, 9);
    let cases: Vec<Case> = (0..steps)
        .map(|_| a_case(src, Mix { errors: 20, max_ops: 2, depth: 2, ..MIX }, Docs { raw: true, narrow: true, big: false }))
        .collect();
    if cases.iter().any(|c| too_big(c, if cfg!(miri) { FUEL / 800 } else { FUEL / 60 })) {
        ctx.count("skipped as too big");
        return Ok(());
    }
    let moves: Vec<(usize, usize)> = (0..steps).map(|_| (src.below(8), src.below(8))).collect();
    ctx.about(format!("{} steps, moves {:?}, programs {:?}", steps, moves, cases.iter().map(|c| &c.ops).collect::<Vec<_>>()));
    balanced(ctx, |ctx| {
        let mut held: Vec<Template> = vec![load(&spelled(&cases[0].doc))?];
        let mut streams = Vec::new();
        for (c, (pick, act)) in cases.iter().zip(&moves) {
            let t = held[pick % held.len()].clone();
            let mut env = c.env()?;
            // the pool holds earlier results
            if let Some(e) = Rc::get_mut(&mut env) {
                for (i, p) in e.pool.iter_mut().enumerate() {
                    *p = held[(i + act) % held.len()].clone();
                    e.events[i] = real::drain((&*p).into_stream()).map_err(|e| err_text(&e))?;
                }
            }
            match real::run(&t, &c.ops, &env) {
                Ok(r) => {
                    if r.to_string().len() < 20_000 {
                        let mut s = (&r).into_stream();
                        let _ = s.next_event();
                        streams.push(s);
                        held.push(r);
                    }
                }
                Err(e) => {
                    let _ = err_text(&e);
                    ctx.count("errors met");
                }
            }
            if act % 3 == 0 && held.len() > 1 {
                held.remove(0);
            }
            if act % 4 == 1 && !streams.is_empty() {
                streams.swap_remove(0);
            }
        }
        ctx.add("templates held", held.len() as u64);
        if act_order(&moves) {
            drop(held);
            drop(streams);
        } else {
            drop(streams);
            for t in held {
                handle(&t, 30)?;
            }
        }
        Ok(())
    })?;
    ctx.nontrivial(format!("{:?}{}", moves, key(&cases[0])).as_bytes());
    Ok(())
}

fn act_order(moves: &[(usize, usize)]) -> bool {
    moves.iter().map(|m| m.0).sum::<usize>() % 2 == 0
}

fn large_markup(ctx: &mut Ctx, src: &mut Src) -> Res {
    let max = if ctx.thorough { 1 << 22 } else { 1 << 19 };
    let toks = large(src, max);
    let mut s = spell(src, &toks, false);
    let cut = src.below(3);
    if cut == 0 {
        let mut n = src.below(s.len() + 1);
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
    }
    ctx.about(format!("input: {}", show(&s)));
    ctx.add("bytes of large markup", s.len() as u64);
    balanced(ctx, |_| {
        match Template::from_str(&s, ParseOptions::default()) {
            Ok(t) => {
                handle(&t, s.len() / 2)?;
                let r = t.transform(|h| h.select("li", |h| h.remove()).append(&t));
                drop(r);
            }
            Err(e) => {
                let _ = err_text(&html5_fuser::StreamError::Input { error: e });
            }
        }
        Ok(())
    })?;
    ctx.nontrivial(s.as_bytes());
    Ok(())
}

/// The stack the library gets: what it needs must not depend on the document.
const STACK: usize = 256 << 10;

fn deep(ctx: &mut Ctx, src: &mut Src) -> Res {
    let kind = ctx.index % 24;
    let n = *src.pick(&[20_000usize, 50_000, 100_000]) + src.below(1000);
    let n = if ctx.thorough { n * 3 } else { n };
    let sel = *src.pick(&["a", "b", ".c"]);
    ctx.about(format!("kind {} of {} levels or siblings, selector {}", kind, n, sel));
    // the generator's texts are made outside
    match crate::run::in_thread(STACK, || deep_case(kind, n, sel)) {
        Some(r) => r?,
        None => panic!("harness: no thread"),
    }
    ctx.count("deep cases");
    ctx.add("levels and siblings", n as u64);
    ctx.nontrivial(format!("{} {} {}", kind, n, sel).as_bytes());
    Ok(())
}

fn nested(n: usize) -> String {
    let mut s = String::with_capacity(n * 18);
    for i in 0..n {
        s.push_str(if i % 3 == 1 { "<b class=\"c\">" } else { "<a>" });
    }
    for i in (0..n).rev() {
        s.push_str(if i % 3 == 1 { "</b>" } else { "</a>" });
    }
    s
}

fn siblings(n: usize) -> String {
    "<a></a><b class=\"c\"/>t".repeat(n / 2)
}

struct Noops(usize, Option<html5_fuser::event::Event>);
impl Stream for Noops {
    fn next_event(&mut self) -> html5_fuser::event::StreamResult {
        if self.0 == 0 {
            return Ok(None);
        }
        self.0 -= 1;
        Ok(self.1.clone())
    }
}

fn deep_case(kind: u64, n: usize, sel: &'static str) -> Res {
    let load = |s: &str| Template::from_str(s, ParseOptions::default());
    let ok = |s: &str| load(s).map_err(|e| format!("not accepted: {:.300}", format!("{:?}", e)));
    let fine = |r: Result<Template, html5_fuser::StreamError>| match r {
        Ok(t) => {
            let s = t.to_string();
            drop(t);
            Ok(s)
        }
        Err(e) => Err(format!("an error came out of nowhere: {:.300}", err_text(&e))),
    };
    let same = |got: String, want: &str| {
        if got == want {
            Ok(())
        } else {
            Err(format!("expected {} got {}", show(want), show(&got)))
        }
    };
    match kind {
        0 => {
            let s = nested(n);
            let t = ok(&s)?;
            same(t.to_string(), &s)?;
            let c = t.clone();
            if c != t {
                return Err("a clone is not equal".into());
            }
        }
        1 => {
            // never closed
            let s = "<a>".repeat(n);
            match load(&s) {
                Ok(_) => return Err("unclosed elements accepted".into()),
                Err(e) => {
                    let t = format!("{} {:?}", e, e);
                    let _ = err_text(&html5_fuser::StreamError::Input { error: e });
                    drop(t);
                }
            }
        }
        2 => {
            let s = format!("{}</x>", "<a>".repeat(n));
            if load(&s).is_ok() {
                return Err("a wrong closing tag was accepted".into());
            }
        }
        3 => {
            let s = nested(n);
            let t = ok(&s)?;
            let r = fine(t.transform(|h| h.select(sel, |h| h.append_contents("x").into_boxed())))?;
            if r.len() != s.len() + 1 {
                return Err(format!("{} bytes, expected {}", r.len(), s.len() + 1));
            }
        }
        4 => {
            let s = nested(n);
            let t = ok(&s)?;
            let r = fine(t.transform(|h| h.select("a", |h| h.subselect("b", |h| h.subselect("a", |h| h.add_class("m"))))))?;
            if r.len() != s.len() + " class=\"m\"".len() {
                return Err(format!("{} bytes from {}", r.len(), s.len()));
            }
        }
        5 => {
            let s = siblings(n);
            let t = ok(&s)?;
            let r = fine(t.transform(|h| h.select(sel, |h| h.remove())))?;
            if r.len() >= s.len() {
                return Err("nothing was removed".into());
            }
        }
        6 => {
            // long runs of elements that vanish
            let s = "<a></a>".repeat(n);
            let t = ok(&s)?;
            same(fine(t.transform(|h| h.select("a", |h| h.remove()).select("b", |h| h.remove())))?, "")?;
            same(fine(t.transform(|h| h.select_direct("a", |h| h.replace(""))))?, "")?;
        }
        7 => {
            let t = ok("<a></a>")?;
            let r = fine(t.transform(|h| h.repeat(0..n, |h, _| h.remove())))?;
            same(r, "")?;
            let r = fine(t.transform(|h| h.select("a", |h| h.repeat_contents(0..n, |h, _| h))))?;
            same(r, "<a></a>")?;
            let r = fine(t.transform(|h| h.select("a", |h| h.repeat_contents_or_else(0..n, |h, _| h.remove(), |h| h.into_boxed()))))?;
            same(r, "<a></a>")?;
        }
        8 => {
            let noop = noop_event();
            let t = ok("<a></a>")?;
            let r = fine(t.transform(|h| h.append(Noops(n, noop.clone())).select("a", |h| h.into_boxed())))?;
            same(r, "<a></a>")?;
            let noop2 = noop.clone();
            let r = fine(t.transform(|h| {
                h.select("a", {
                    let mut s = Some(Noops(n, noop2.clone()));
                    move |h| h.append_contents(s.take().expect("once"))
                })
            }))?;
            same(r, "<a></a>")?;
            let r = fine(t.transform(|h| h.replace(Noops(n, noop)).apply_as_template(Ok)))?;
            same(r, "")?;
        }
        9 => {
            // one element with very many attributes
            let mut s = String::from("<p");
            for i in 0..n {
                let _ = write!(s, " a{}", i);
            }
            s.push_str(" class=\"x y\"></p>");
            let t = ok(&s)?;
            let r = fine(t.transform(|h| h.select("p.y", |h| h.set_attribute_with_value("a0", "v").remove_attribute("A1").remove_class("x").set_id("i"))))?;
            if !r.contains("a0=\"v\"") || r.contains(" a1 ") || !r.contains("class=\"y\"") {
                return Err(format!("unexpected: {}", show(&r)));
            }
        }
        10 => {
            let words = "w ".repeat(n);
            let s = format!("<p class=\"{}x\"></p>", words);
            let t = ok(&s)?;
            let r = fine(t.transform(|h| h.select(".x", |h| h.remove_class("w").add_class("z"))))?;
            same(r, "<p class=\"x z\"></p>")?;
        }
        11 => {
            // each a transformation of the one before
            let mut t = ok("<p></p>")?;
            let steps = n / 20;
            for i in 0..steps {
                t = t
                    .transform(|h| h.select("p", |h| h.set_attribute_with_value("n", i)))
                    .map_err(|e| err_text(&e))?;
            }
            same(t.to_string(), &format!("<p n=\"{}\"></p>", steps - 1))?;
        }
        12 => {
            let s = nested(n);
            let t = ok(&s)?;
            same(fine(t.transform(|h| h.select_direct("a", |h| h.remove_contents())))?, "<a></a>")?;
            same(fine(t.transform(|h| h.select_direct("a", |h| h.replace_contents(1))))?, "<a>1</a>")?;
            same(fine(t.transform(|h| h.remove()))?, "")?;
        }
        13 => {
            let s = nested(n);
            let t = ok(&s)?;
            let r = fine(t.transform(|h| h.select_direct("a", |h| h.subselect_contents(|h| h.repeat(0..2, |h, i| h.append(i))))))?;
            if r.len() != 2 * s.len() - "<a></a>".len() + 2 {
                return Err(format!("{} bytes from {}", r.len(), s.len()));
            }
        }
        14 => {
            let s = nested(n);
            let t = ok(&s)?;
            let r = fine(t.transform(|h| h.select_once("b", |h| h.replace(&t)).append(&t)))?;
            if r.len() < s.len() * 2 - 40 {
                return Err(format!("{} bytes from {}", r.len(), s.len()));
            }
        }
        15 => {
            // text after text
            let t = ok("<p></p>")?;
            let r = fine(t.transform(|h| h.select("p", |h| h.repeat(0..n, |h, i| h.append(i).append("")))))?;
            if !r.ends_with(&format!("<p></p>{}", n - 1)) {
                return Err(format!("unexpected: {}", show(&r)));
            }
        }
        16 => {
            let s = "<!-- x --><!doctype html>".repeat(n / 2);
            let t = ok(&s)?;
            same(t.to_string(), &s)?;
        }
        17 => {
            let s = "<br><p/>".repeat(n / 2);
            let t = ok(&s)?;
            let r = fine(t.transform(|h| h.select("br", |h| h.replace_contents(1)).select("p", |h| h.remove_contents())))?;
            same(r, &"<br><p></p>".repeat(n / 2))?;
        }
        18 => {
            for tail in ["</script", "<!--", "</", "<a x=\"", "<a", "<a x", "<!doctype"] {
                let s = format!("{}{}", "<a></a>".repeat(n / 8), tail);
                if load(&s).is_ok() {
                    return Err(format!("accepted with {} at its end", tail));
                }
            }
            let s = "</a".repeat(n);
            let _ = load(&s).is_ok();
            let s = "<script>".to_string() + &"</script".repeat(n);
            let _ = load(&s).is_ok();
            let s = "<!--".repeat(n) + "-->";
            let _ = load(&s).is_ok();
        }
        19 => {
            // a wrong document as content
            let bad = "<a>".repeat(n);
            let t = ok("<p></p>")?;
            let r = t.transform(|h| h.select("p", |h| h.append_contents(Template::from_str(&bad, Default::default()))));
            if r.is_ok() {
                return Err("wrong content was taken".into());
            }
            drop(r);
        }
        20 => {
            // streams that are no documents
            let t = ok(&nested(n))?;
            let opens: Vec<_> = real::drain(t.into_stream())
                .map_err(|e| err_text(&e))?
                .into_iter()
                .filter(|e| e.description() == "opening tag")
                .collect();
            let base = ok("<p></p>")?;
            let st = Listed(opens.into_iter());
            let r = base.transform(|h| h.append(st).select("a", |h| h.append_contents(1)).select("b", |h| h.remove_contents().add_class("k")));
            drop(r);
        }
        21 => {
            let s = nested(n);
            let t = ok(&s)?;
            let mut st = t.into_stream();
            for _ in 0..n {
                let _ = st.next_event().map_err(|e| err_text(&e))?;
            }
            drop(st);
            let dot = "x.".repeat(n) + "y";
            let leaked: &'static str = Box::leak(dot.into_boxed_str());
            let r = ok("<x></x>")?.transform(|h| h.select(leaked, |h| h.remove()));
            drop(r);
        }
        22 => {
            let mut t = ok("<p></p>")?;
            // doubling: shared many times over
            for _ in 0..14 {
                t = t.transform(|h| h.append(&t)).map_err(|e| err_text(&e))?;
            }
            if t.to_string().len() != 7 << 14 {
                return Err("wrong length".into());
            }
        }
        _ => {
            let s = nested(n);
            let o = ParseOptions::default().max_stack_depth(n - 1);
            if Template::from_str(&s, o).is_ok() {
                return Err("too deep, but accepted".into());
            }
            let o = ParseOptions::default().max_stack_depth(n);
            if Template::from_str(&s, o).is_err() {
                return Err("not too deep, but refused".into());
            }
        }
    }
    Ok(())
}

struct Listed(std::vec::IntoIter<html5_fuser::event::Event>);
impl Stream for Listed {
    fn next_event(&mut self) -> html5_fuser::event::StreamResult {
        Ok(self.0.next())
    }
}

fn noop_event() -> Option<html5_fuser::event::Event> {
    real::RealEnv::new(vec![]).noop
}

// ---- sanitizers

/// Runs of the same families in builds watched by AddressSanitizer and by Miri.
fn sanitizers(x: &mut Extra) -> Result<(), String> {
    watched(x, &ASAN)?;
    if x.violations.is_empty() {
        miri(x)?;
    }
    // (the standard library is built for it: too much for every change)
    if x.violations.is_empty() && x.thorough {
        watched(x, &MSAN)?;
    }
    Ok(())
}

fn cargo(args: &[&str], target: &str) -> Command {
    let mut c = Command::new("cargo");
    c.args(args)
        .current_dir("/verif/harness")
        .env("CARGO_NET_OFFLINE", "true")
        .env("CARGO_TARGET_DIR", target)
        .env("CARGO_TERM_COLOR", "never")
        .stdin(Stdio::null());
    c
}

fn output(c: &mut Command) -> Result<(bool, String), String> {
    let o = c.output().map_err(|e| format!("{:?}: {}", c, e))?;
    let mut s = String::from_utf8_lossy(&o.stdout).into_owned();
    s.push_str(&String::from_utf8_lossy(&o.stderr));
    Ok((o.status.success(), s))
}

/// The library is always built again: file times say nothing about content.
fn forget(target: &str) {
    let clean = |dir: std::path::PathBuf| {
        if let Ok(rd) = std::fs::read_dir(dir) {
            for e in rd.flatten() {
                if e.file_name().to_string_lossy().starts_with("html5-fuser-") {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
    };
    let t = std::path::Path::new(target);
    clean(t.join("x86_64-unknown-linux-gnu/debug/.fingerprint"));
    clean(t.join("miri/x86_64-unknown-linux-gnu/debug/.fingerprint"));
    clean(t.join("debug/.fingerprint"));
}

fn tail(s: &str, n: usize) -> String {
    let v: Vec<char> = s.chars().collect();
    v[v.len().saturating_sub(n)..].iter().collect()
}

struct Sanitizer {
    name: &'static str,
    target: &'static str,
    flags: &'static str,
    args: &'static [&'static str],
    options: (&'static str, &'static str),
    counter: &'static str,
    /// In the thorough check one case in so many.
    share: u64,
}

const ASAN: Sanitizer = Sanitizer {
    name: "AddressSanitizer",
    target: "/verif/target-asan",
    flags: "-Zsanitizer=address",
    args: &[],
    options: ("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=66"),
    counter: "cases under AddressSanitizer",
    share: 16,
};
const MSAN: Sanitizer = Sanitizer {
    name: "MemorySanitizer",
    target: "/verif/target-msan",
    flags: "-Zsanitizer=memory -Zsanitizer-memory-track-origins",
    args: &["-Zbuild-std=std,panic_unwind"],
    options: ("MSAN_OPTIONS", "abort_on_error=0:exitcode=66"),
    counter: "cases under MemorySanitizer",
    share: 32,
};

fn watched(x: &mut Extra, by: &Sanitizer) -> Result<(), String> {
    let target = by.target;
    forget(target);
    let triple = "x86_64-unknown-linux-gnu";
    let (ok, s) = output(
        cargo(&["+nightly", "build", "--offline", "--locked", "--target", triple], target)
            .args(by.args)
            .env("CARGO_PROFILE_DEV_DEBUG", if by.args.is_empty() { "line-tables-only" } else { "0" })
            .env("RUSTFLAGS", by.flags),
    )?;
    if !ok {
        return Err(format!("the {} build failed: {}", by.name, tail(&s, 2000)));
    }
    let bin = format!("{}/{}/debug/monitor", target, triple);
    let workers = 8u64;
    let dir = std::path::PathBuf::from(format!("/verif/scratch/{}-{}", by.name, std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let mut threads = Vec::new();
    for n in 0..workers {
        let (bin, dir, seed, thorough) = (bin.clone(), dir.clone(), x.seed, x.thorough);
        let (options, share) = (by.options, by.share);
        threads.push(std::thread::spawn(move || {
            let err = dir.join(format!("err{}", n));
            let f = std::fs::File::create(&err).map_err(|e| e.to_string())?;
            // every 'of'-th case only
            let share = if thorough { share } else { 12 };
            let mut c = Command::new(&bin);
            c.args(["worker", "C19-san", &n.to_string(), &(workers * share).to_string(), &(seed + 77).to_string(), if thorough { "thorough" } else { "quick" }])
                .arg(&dir)
                .env(options.0, options.1)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(f);
            let r = run_limited(&mut c, if thorough { 300.0 } else { 120.0 })?;
            Ok::<_, String>((n, r, std::fs::read_to_string(&err).unwrap_or_default()))
        }));
    }
    let mut res = Ok(());
    for t in threads {
        match t.join().map_err(|_| "a thread of the harness failed".to_string()).and_then(|r| r) {
            Err(e) => res = Err(e),
            Ok((n, (status, late), err)) => {
                let evals: u64 = std::fs::read_to_string(dir.join(format!("result{}", n)))
                    .unwrap_or_default()
                    .lines()
                    .find_map(|l| l.strip_prefix("evaluations\t").and_then(|v| v.parse().ok()))
                    .unwrap_or(0);
                *x.counters.entry(by.counter.into()).or_insert(0) += evals;
                let found = std::fs::read_to_string(dir.join(format!("found{}", n))).unwrap_or_default();
                if err.contains(by.name) || status.code().is_none() || status.code() == Some(66) {
                    if late {
                        res = Err(format!("the {} run took too long", by.name));
                    } else {
                        let text = format!("# {}, worker {} of seed {}\n{}\n{}", by.name, n, x.seed + 77, err, found);
                        let lines: Vec<&str> = err.lines().filter(|l| l.contains("ERROR") || l.contains("html5")).take(4).collect();
                        x.violations.push((format!("{}: {:?} {}", by.name, status, lines.join(" | ")), text));
                    }
                } else if status.code() == Some(1) {
                    x.violations.push((format!("under {}: {}", by.name, found), found));
                } else if !status.success() {
                    res = Err(format!("the {} run ended with {:?}: {}", by.name, status, tail(&err, 800)));
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    res
}

fn miri(x: &mut Extra) -> Result<(), String> {
    let target = "/verif/target-miri";
    forget(target);
    let flags = "-Zmiri-permissive-provenance -Zmiri-disable-isolation -Zmiri-ignore-leaks";
    let command = |args: &[&str]| {
        let mut c = cargo(&["+nightly", "miri", "run", "--offline", "--locked", "--"], target);
        c.args(args).env("MIRIFLAGS", flags).env_remove("RUSTFLAGS");
        c
    };
    let (ok, s) = output(&mut command(&["miri", "0", "0", "0"]))?;
    if !ok {
        return Err(format!("the Miri build failed: {}", tail(&s, 2000)));
    }
    let (workers, secs) = if x.thorough { (8u64, 120u64) } else { (8, 14) };
    let mut threads = Vec::new();
    for n in 0..workers {
        let seed = (x.seed + 1000 * n + 5).to_string();
        let args = ["miri".to_string(), seed, "100000".to_string(), secs.to_string()];
        let args: Vec<&str> = args.iter().map(|s| &s[..]).collect();
        let mut c = command(&args);
        threads.push(std::thread::spawn(move || output(&mut c)));
    }
    for t in threads {
        let (ok, s) = t.join().map_err(|_| "a thread of the harness failed".to_string())??;
        let done: u64 = s
            .lines()
            .rev()
            .find_map(|l| l.strip_prefix("miri cases: ").and_then(|v| v.parse().ok()))
            .unwrap_or(0);
        *x.counters.entry("cases under Miri".into()).or_insert(0) += done;
        if !ok {
            let about = s.lines().filter(|l| l.starts_with("error") || l.contains("Undefined Behavior") || l.starts_with("miri found")).take(4).collect::<Vec<_>>().join(" | ");
            if s.contains("Undefined Behavior") || s.contains("miri found") || s.contains("memory leaked") {
                x.violations.push((format!("under Miri: {}", about), s));
            } else {
                return Err(format!("the Miri run failed: {}", tail(&s, 2000)));
            }
        }
    }
    Ok(())
}

/// The part that runs inside Miri: as many cases as fit into the time.
pub fn inside_miri(seed: u64, cases: u64, secs: u64) -> i32 {
    let start = std::time::Instant::now();
    let mut ctx = Ctx::new(seed, false);
    let list: [(&str, fn(&mut Ctx, &mut Src) -> Res); 4] =
        [("markup", markup), ("user code", user_code), ("panics", panics), ("histories", histories)];
    let mut done = 0;
    for i in 0..cases {
        if start.elapsed().as_secs() >= secs {
            break;
        }
        let (name, f) = list[(i % 4) as usize];
        ctx.index = i;
        let mut src = Src::seeded(crate::run::case_seed(seed, name, i));
        let fm = Family { shrink: false, ..fam("miri", f, 0, 0) };
        match crate::run::run_case(&fm, &mut ctx, &mut src) {
            crate::run::Outcome::Fine => {}
            crate::run::Outcome::Violation(d) => {
                println!("miri found: {} {}", d, ctx.about);
                return 1;
            }
            crate::run::Outcome::HarnessError(e) => {
                eprintln!("harness error: {}", e);
                return 3;
            }
        }
        done += 1;
    }
    println!("miri cases: {}", done);
    0
}
