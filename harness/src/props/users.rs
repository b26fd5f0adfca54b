//! C21: what user-written streams, selectors and iterators get to see.

use super::progs::{a_case, a_doc, a_pool, agree, key, same_asks, same_log, Case, Docs, FUEL};
use crate::choice::Src;
use crate::gen::*;
use crate::h::*;
use crate::prog::*;
use crate::progen::*;
use crate::real::{self, drain, err_text, make_err, RealEnv};
use crate::run::{fam, Ctx, Family, Prop, Res};
use crate::tree::*;
use html5_fuser::event::{Event, IntoStream};
use html5_fuser::{ParseOptions, Template};
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C21",
        rule: "User-written streams, selectors and iterators record every call they get: random programs rich in them against the reference interpreter (output, order of questions, no call after an end or an error), single insertions with the number of polls counted, selectors whose answer depends on the number of questions, streams of arbitrary events (unbalanced ones too) inserted at the top, streams that fail or end at any event, and long ones. Non-trivial: at least one user-written part was asked at least twice.",
        families: vec![
            fam("programs", programs, 180_000, 1_500_000),
            fam("one insertion", insertion, 180_000, 1_500_000),
            fam("selectors", selectors, 180_000, 1_500_000),
            fam("failing streams", failing, 120_000, 1_000_000),
            fam("any events", any_events, 120_000, 1_000_000),
            fam("iterators", iterators, 120_000, 1_000_000),
            Family { shrink: false, ..fam("long streams", long, 48, 800) },
        ],
        assumptions: &["the reference interpreter (prog.rs) states the documented meaning"],
        needs: &[
            "polls of user streams", "questions to user selectors", "insertions with all polls counted",
            "failing streams met", "items of user iterators", "unbalanced streams inserted",
        ],
        extra: None,
    }]
}

const D: Docs = Docs { raw: true, narrow: false, big: true };

fn tally(ctx: &mut Ctx, env: &RealEnv) -> bool {
    let polls: usize = env.streams.borrow().iter().map(|s| s.2).sum();
    let asks: usize = env.asks.borrow().values().flatten().map(|v| v.len()).sum();
    ctx.add("polls of user streams", polls as u64);
    ctx.add("questions to user selectors", asks as u64);
    polls > 1 || asks > 1
}

/// Run on both sides; output, user code's views and the protocol are checked.
fn whole(ctx: &mut Ctx, case: &Case) -> Result<Option<Rc<RealEnv>>, String> {
    whole_within(ctx, case, FUEL)
}

pub fn whole_within(ctx: &mut Ctx, case: &Case, fuel: usize) -> Result<Option<Rc<RealEnv>>, String> {
    ctx.about(case.show());
    let mut m = Model::new(&case.pool, fuel);
    let want = m.ops(&case.ops, &Env::default(), case.doc.clone());
    if want == Err(Stop::TooBig) {
        ctx.count("skipped as too big");
        return Ok(None);
    }
    let env = case.env()?;
    let t = load(&spelled(&case.doc))?;
    let got = real::run(&t, &case.ops, &env);
    if let Some(m) = env.misuse.borrow().first() {
        return Err(m.clone());
    }
    match (&want, &got) {
        (Ok(nodes), Ok(t)) => {
            same_output(&render(nodes), &t.to_string())?;
            if !m.cut_short {
                same_log(&m.log, &env.log.borrow())?;
                same_asks(&m.asks, &env.asks.borrow())?;
            }
        }
        (Ok(_), Err(e)) => return Err(format!("an error came out of nowhere: {}", err_text(e))),
        (Err(Stop::Fail(f)), Ok(t)) => {
            return Err(format!("expected the error {:?}, got the output {}", f, show(&t.to_string())))
        }
        (Err(Stop::Fail(f)), Err(e)) => {
            let want = err_text(&make_err(f));
            if want != err_text(e) {
                return Err(format!("expected the error {}\n  got {}", want, err_text(e)));
            }
            ctx.count("failing streams met");
        }
        (Err(Stop::TooBig), _) => {}
    }
    if tally(ctx, &env) {
        ctx.nontrivial(key(case).as_bytes());
    }
    ctx.sample(|| case.show());
    Ok(Some(env))
}

fn programs(ctx: &mut Ctx, src: &mut Src) -> Res {
    let depth = src.range(2, 4);
    let mix = Mix { select: 8, content: 10, repeat: 2, attr: 2, apply: 2, look: 1, depth, user: 12, custom: 12, ..MIX };
    let narrow = src.chance(1, 2);
    let case = a_case(src, mix, Docs { narrow, ..D });
    // through the common comparison as well, which other properties use
    if let Some(a) = agree(ctx, &case)? {
        a.asked?;
        if let Some(m) = a.misuse.first() {
            return Err(m.clone());
        }
        whole(ctx, &case)?;
    }
    Ok(())
}

/// Number of events a user stream over these events gives, counting the empty ones it puts in.
fn polls_to_end(env: &RealEnv, events: usize, site: usize) -> usize {
    if site % 3 != 0 || env.noop.is_none() {
        return events + 1;
    }
    events + 1 + 1 + events / 2
}

/// Ways of passing a stream through that leave it as it is.
fn passing(g: &mut Pg, ops: &mut Vec<Op>) {
    for _ in 0..g.src.below(3) {
        let site = g.site();
        let empty = |elem| Rc::new(Body { site, variants: vec![vec![]], elem });
        let op = match g.src.below(10) {
            0 => Op::Box,
            1 => Op::AsTpl(empty(false)),
            2 => Op::Look(site),
            3 => Op::Select(*g.src.pick(SCOPES), Sel::Custom(Pred::None, site), empty(true)),
            4 => Op::Select(*g.src.pick(SCOPES), Sel::Custom(Pred::All, g.site()), empty(true)),
            5 => Op::ApplyBoxed(empty(false)),
            6 => Op::Apply(empty(false)),
            7 => Op::Repeat(Items { site: g.site(), items: vec![1] }, empty(false)),
            8 => Op::Select(*g.src.pick(SCOPES), Sel::Custom(Pred::Nth(2, 1), g.site()), Rc::new(Body {
                site,
                variants: vec![vec![Op::Box]],
                elem: false,
            })),
            _ => Op::Append(Content::Text("end".into(), Way::Str)),
        };
        ops.push(op);
    }
}

/// One insertion at one place: every event once, and the end seen once.
fn insertion(ctx: &mut Ctx, src: &mut Src) -> Res {
    let narrow = src.chance(1, 3);
    let raw = src.chance(1, 2);
    let doc = a_doc(src, Docs { narrow, raw, big: true });
    let pool = a_pool(src, true);
    let ops = {
        let mut g = Pg::new(src, Mix { depth: 1, ..MIX }, pool.len(), &doc);
        let way = *g.src.pick(UWAYS);
        let tpl = g.src.below(pool.len());
        let site = g.site() + g.src.below(3) * 100;
        let c = Content::User { tpl, site, fail_after: None, way };
        let at = g.src.below(8);
        let op = match at {
            0 => Op::Append(c),
            1 => Op::Prepend(c),
            2 => Op::Replace(c),
            3 | 4 => Op::AppendC(c),
            5 | 6 => Op::PrependC(c),
            _ => Op::ReplaceC(c),
        };
        let mut ops = Vec::new();
        if at < 3 && g.src.chance(1, 2) {
            ops.push(op);
        } else {
            let mut list = vec![op];
            if at < 3 && g.src.chance(1, 4) {
                list.push(Op::Box);
            }
            let elem = ends_elem(&list, true);
            let b = Body { site: g.site(), variants: vec![list], elem };
            let once = if g.src.chance(1, 2) { Scope::Once } else { Scope::DirectOnce };
            let n = g.src.below(6);
            let p = if g.src.chance(1, 2) { Pred::Nth(1000, n) } else { Pred::HasAttrs };
            let s = g.site();
            ops.push(Op::Select(once, Sel::Custom(p, s), Rc::new(b)));
        }
        passing(&mut g, &mut ops);
        ops
    };
    let case = Case { pool, doc, ops };
    let Some(env) = whole(ctx, &case)? else { return Ok(()) };
    let streams = env.streams.borrow();
    for (site, events, polls) in streams.iter() {
        if *polls == 0 {
            ctx.count("insertions that did not take place");
            continue;
        }
        let want = polls_to_end(&env, *events, *site);
        if *polls != want {
            return Err(format!("the stream of {} events was asked {} times, expected {}", events, polls, want));
        }
        ctx.count("insertions with all polls counted");
    }
    Ok(())
}

fn selectors(ctx: &mut Ctx, src: &mut Src) -> Res {
    let narrow = src.chance(2, 3);
    let doc = a_doc(src, Docs { narrow, ..D });
    let pool = a_pool(src, true);
    let ops = {
        let mut g = Pg::new(src, Mix { depth: 1, custom: 20, ..MIX }, pool.len(), &doc);
        fn nest(g: &mut Pg, depth: usize) -> Op {
            let scope = *g.src.pick(SCOPES);
            let p = match g.src.below(6) {
                0 => Pred::All,
                1 => Pred::HasAttrs,
                2 => Pred::Starts(*g.src.pick(&['a', 'b', 'p', 's', 'd'])),
                3 => Pred::None,
                _ => Pred::Nth(g.src.range(1, 4), g.src.below(4)),
            };
            let sel = Sel::Custom(p, g.site());
            let n = g.src.range(1, 2);
            let mut variants = Vec::new();
            for _ in 0..n {
                let mut list = Vec::new();
                match g.src.below(6) {
                    0 => list.push(Op::AddClass(Name { text: "m".into(), way: NWay::Str })),
                    1 => list.push(Op::PrependC(g.content(1))),
                    2 => list.push(Op::RemoveC),
                    3 => {
                        let items = g.items();
                        let b = Rc::new(Body { site: g.site(), variants: vec![vec![]], elem: false });
                        list.push(Op::RepeatC(items, b));
                    }
                    _ => {}
                }
                if depth > 0 {
                    let inner = nest(g, depth - 1);
                    list.push(match (inner, g.src.below(2)) {
                        (Op::Select(s, x, b), 0) => Op::Subselect(s, x, b),
                        (x, _) => x,
                    });
                }
                if g.src.chance(1, 4) {
                    list.push(match g.src.below(4) {
                        0 => Op::Remove,
                        1 => Op::Append(g.content(1)),
                        2 => Op::Replace(g.content(1)),
                        _ => Op::Box,
                    });
                }
                variants.push(list);
            }
            let elem = variants.iter().all(|v| ends_elem(v, true));
            Op::Select(scope, sel, Rc::new(Body { site: g.site(), variants, elem }))
        }
        let n = g.src.range(1, 3);
        let mut ops = Vec::new();
        for _ in 0..n {
            if g.src.chance(1, 5) {
                ops.push(Op::Append(g.content(1)));
            }
            let depth = g.src.below(3);
            ops.push(nest(&mut g, depth));
        }
        ops
    };
    whole(ctx, &Case { pool, doc, ops })?;
    Ok(())
}

/// Streams that fail at some event: that error comes out and nothing is asked any more.
fn failing(ctx: &mut Ctx, src: &mut Src) -> Res {
    let doc = a_doc(src, Docs { big: false, ..D });
    let pool = a_pool(src, true);
    let tpl = src.below(pool.len());
    let f = made_fail(src);
    let after = src.below(9);
    let way = *src.pick(UWAYS);
    let deep = src.chance(1, 3);
    let site = 500 + src.below(3);
    let ops = {
        let mut g = Pg::new(src, Mix { depth: 1, custom: 6, user: 6, ..MIX }, pool.len(), &doc);
        let bad = Content::User { tpl, site, fail_after: Some((after, f)), way };
        let mut ops = g.ops(1, false, false);
        let op = match g.src.below(if deep { 6 } else { 3 }) {
            0 => Op::Append(bad),
            1 => Op::Prepend(bad),
            2 => Op::Replace(bad),
            3 => Op::AppendC(bad),
            4 => Op::PrependC(bad),
            _ => Op::ReplaceC(bad),
        };
        if deep {
            let list = vec![op];
            let elem = ends_elem(&list, true);
            let p = Pred::Nth(g.src.range(1, 3), g.src.below(3));
            let b = Body { site: g.site(), variants: vec![list], elem };
            ops.push(Op::Select(*g.src.pick(SCOPES), Sel::Custom(p, 600), Rc::new(b)));
        } else {
            ops.push(op);
        }
        passing(&mut g, &mut ops);
        ops
    };
    let case = Case { pool, doc, ops };
    let Some(env) = whole(ctx, &case)? else { return Ok(()) };
    // read from its start, and no further than its error
    for (s, events, polls) in env.streams.borrow().iter() {
        if *s == site && *polls > 0 {
            let most = polls_to_end(&env, after.min(*events), *s);
            if *polls > most {
                return Err(format!("the stream failing after {} events was asked {} times", after, polls));
            }
        }
    }
    Ok(())
}

/// A stream of whatever events, put at the top: exactly these come out at that place.
fn any_events(ctx: &mut Ctx, src: &mut Src) -> Res {
    let doc = a_doc(src, Docs { big: false, ..D });
    let pool = a_pool(src, true);
    let case = Case { pool, doc, ops: vec![] };
    let env = case.env()?;
    // cut from templates at will
    let mut all: Vec<Event> = env.events.iter().flatten().cloned().collect();
    all.extend(drain(load("<a x=\"1\"><b/>t<br></a><!-- c --><!doctype html>")?.into_stream()).unwrap_or_default());
    let mut lists: Vec<Vec<Event>> = Vec::new();
    let mut ways = Vec::new();
    for _ in 0..src.range(1, 3) {
        let n = src.len(12);
        lists.push((0..n).map(|_| src.pick(&all).clone()).collect());
        ways.push((*src.pick(UWAYS), src.below(4), 1 + src.below(3)));
    }
    let shown = |l: &[Event]| -> String { l.iter().map(|e| e.to_string()).collect() };
    let base = load(&spelled(&case.doc))?;
    let mut want = base.to_string();
    for (l, w) in lists.iter().zip(&ways) {
        match w.1 {
            0 | 1 => want.push_str(&shown(l)),
            2 => want = format!("{}{}", shown(l), want),
            _ => want = shown(l),
        }
    }
    ctx.about(format!(
        "template {}\n    streams {:?}\n    put {:?}",
        show(&base.to_string()),
        lists.iter().map(|l| shown(l)).collect::<Vec<_>>(),
        ways
    ));
    let got = base.transform(|html| {
        let mut h = html.into_boxed();
        for (l, w) in lists.iter().zip(&ways) {
            let c = real::DynContent(real::user_stream(l.clone(), w.2, None, w.0, &env));
            h = match w.1 {
                0 => h.append(c).into_boxed(),
                1 => h.append(c).apply_as_template(Ok).into_boxed(),
                2 => h.prepend(c).into_boxed(),
                _ => h.replace(c).into_boxed(),
            };
        }
        h
    });
    let got = got.map_err(|e| format!("an error came out of nowhere: {}", err_text(&e)))?;
    if got.to_string() != want {
        return Err(format!("expected output: {}\n  actual output:   {}", show(&want), show(&got.to_string())));
    }
    if let Some(m) = env.misuse.borrow().first() {
        return Err(m.clone());
    }
    for (s, events, polls) in env.streams.borrow().iter() {
        let want = polls_to_end(&env, *events, *s);
        if *polls != want {
            return Err(format!("the stream of {} events was asked {} times, expected {}", events, polls, want));
        }
        ctx.count("insertions with all polls counted");
    }
    if lists.iter().any(|l| Template::from_str(&shown(l), ParseOptions::default()).is_err()) {
        ctx.count("unbalanced streams inserted");
    }
    if tally(ctx, &env) {
        ctx.nontrivial(want.as_bytes());
    }
    Ok(())
}

/// Repetition over user-written iterators: each item asked for once, and the end.
fn iterators(ctx: &mut Ctx, src: &mut Src) -> Res {
    let narrow = src.chance(1, 2);
    let doc = a_doc(src, Docs { narrow, big: false, raw: true });
    let pool = a_pool(src, true);
    let ops = {
        let mut g = Pg::new(src, Mix { depth: 1, repeat: 3, ..MIX }, pool.len(), &doc);
        let items = g.items();
        let body = |g: &mut Pg, elem: bool| {
            let l = if g.src.chance(1, 2) { vec![Op::Append(Content::Item)] } else { g.ops(1, elem, false) };
            let e = ends_elem(&l, elem);
            Rc::new(Body { site: g.site(), variants: vec![l], elem: e })
        };
        let k = g.src.below(6);
        let op = match k {
            0 => Op::Repeat(items, body(&mut g, false)),
            1 => {
                let b = body(&mut g, false);
                Op::RepeatElse(items, b, body(&mut g, false))
            }
            2 => Op::Repeat(items, body(&mut g, true)),
            3 => {
                let b = body(&mut g, true);
                Op::RepeatElse(items, b, body(&mut g, true))
            }
            4 => Op::RepeatC(items, body(&mut g, false)),
            _ => {
                let b = body(&mut g, false);
                Op::RepeatCElse(items, b, body(&mut g, true))
            }
        };
        let mut ops = Vec::new();
        if k < 2 {
            ops.push(op);
        } else {
            let l = vec![op];
            let elem = ends_elem(&l, true);
            let b = Body { site: g.site(), variants: vec![l], elem };
            let p = Pred::Nth(g.src.range(1, 3), g.src.below(3));
            let s = g.site();
            ops.push(Op::Select(*g.src.pick(SCOPES), Sel::Custom(p, s), Rc::new(b)));
        }
        passing(&mut g, &mut ops);
        ops
    };
    let case = Case { pool, doc, ops };
    let Some(env) = whole(ctx, &case)? else { return Ok(()) };
    for (site, items, asked) in env.iters.borrow().iter() {
        if *asked == 0 {
            continue;
        }
        ctx.add("items of user iterators", *items as u64);
        if *asked > items + 1 {
            return Err(format!("the iterator of site {} over {} items was asked {} times", site, items, asked));
        }
    }
    Ok(())
}

/// Streams of many events, and of one enormous element.
fn long(ctx: &mut Ctx, src: &mut Src) -> Res {
    let n = size(src, if ctx.thorough { 60_000 } else { 12_000 }) + 1;
    let deep = src.chance(1, 2);
    let mut s = String::new();
    for i in 0..n {
        if deep {
            s.push_str(&format!("<a x=\"{}\">", i));
        } else {
            s.push_str(&format!("<a>{}</a><br>", i));
        }
    }
    if deep {
        for _ in 0..n {
            s.push_str("</a>");
        }
    }
    let t = load(&s)?;
    let env = Rc::new(RealEnv::new(vec![load("<p></p>")?]));
    let events = drain(t.into_stream()).map_err(|e| err_text(&e))?;
    let count = events.len();
    let way = match *src.pick(UWAYS) {
        UWay::Busy => UWay::Own,
        w => w,
    };
    let site = 1 + src.below(3);
    let place = src.below(3);
    let select = src.below(3);
    ctx.about(format!("{} events, deep {}, way {:?} site {} place {} select {}", count, deep, way, site, place, select));
    let base = load("<x><y>1</y></x>")?;
    let want = match place {
        0 => format!("<x><y>1{}</y></x>", s),
        1 => format!("<x><y>{}1</y></x>", s),
        _ => format!("<x><y>1</y></x>{}", s),
    };
    let sel = Sel::Custom(if select == 0 { Pred::None } else { Pred::Nth(2, 0) }, 7);
    let got = base.transform(|html| {
        let c = real::DynContent(real::user_stream(events.clone(), site, None, way, &env));
        let h = match place {
            0 => html.select("y", {
                let mut c = Some(c);
                move |html| html.append_contents(c.take().expect("called once")).into_boxed()
            }).into_boxed(),
            1 => html.select_once("y", |html| html.prepend_contents(c).into_boxed()).into_boxed(),
            _ => html.append(c).into_boxed(),
        };
        match select {
            2 => h,
            _ => h.select(real::dyn_sel(&sel, &env), |html| html.into_boxed()).into_boxed(),
        }
    });
    let got = got.map_err(|e| format!("an error came out of nowhere: {}", err_text(&e)))?;
    same_output(&want, &got.to_string())?;
    if let Some(m) = env.misuse.borrow().first() {
        return Err(m.clone());
    }
    let polls = env.streams.borrow()[0].2;
    if polls != polls_to_end(&env, count, site) {
        return Err(format!("the stream of {} events was asked {} times", count, polls));
    }
    ctx.count("insertions with all polls counted");
    tally(ctx, &env);
    ctx.nontrivial(format!("{} {} {:?} {} {}", n, deep, way, place, select).as_bytes());
    Ok(())
}
