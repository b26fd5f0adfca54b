//! C10-C17: transformations against the reference interpreter.

use crate::choice::Src;
use crate::gen::*;
use crate::h::*;
use crate::prog::*;
use crate::progen::*;
use crate::real::{self, err_text, make_err, RealEnv};
use crate::run::{fam, Ctx, Prop, Res};
use crate::tree::*;
use html5_fuser::{StreamError, Template};
use std::rc::Rc;

pub struct Case {
    pub pool: Vec<Vec<Node>>,
    pub doc: Vec<Node>,
    pub ops: Vec<Op>,
}

impl Case {
    pub fn show(&self) -> String {
        let pool: Vec<String> = self.pool.iter().map(|p| show(&spelled(p))).collect();
        format!("template {}\n    pool {}\n    operations {:?}", show(&spelled(&self.doc)), pool.join(" "), self.ops)
    }
    pub fn env(&self) -> Result<Rc<RealEnv>, String> {
        let mut pool = Vec::new();
        for p in &self.pool {
            pool.push(load(&spelled(p))?);
        }
        Ok(Rc::new(RealEnv::new(pool)))
    }
}

#[derive(Clone, Copy)]
pub struct Docs {
    pub raw: bool,
    pub narrow: bool,
    /// Also bigger ones.
    pub big: bool,
}

pub fn a_doc(src: &mut Src, d: Docs) -> Vec<Node> {
    let mut s = Shape { raw: d.raw, ..SMALL };
    s.narrow = d.narrow || src.chance(1, 3);
    if d.big && src.chance(1, 10) {
        s.nodes = 70;
        s.depth = 40;
    }
    doc(src, s)
}

pub fn a_pool(src: &mut Src, raw: bool) -> Vec<Vec<Node>> {
    let n = src.range(1, 3);
    (0..n)
        .map(|_| {
            let s = Shape { nodes: 6, depth: 3, attrs: 3, raw, ..SMALL };
            if src.chance(1, 10) {
                vec![]
            } else {
                doc(src, s)
            }
        })
        .collect()
}

pub fn a_case(src: &mut Src, mix: Mix, d: Docs) -> Case {
    let doc = a_doc(src, d);
    let pool = a_pool(src, d.raw);
    let ops = {
        let mut g = Pg::new(src, mix, pool.len(), &doc);
        for p in &pool {
            g.more(p);
        }
        let mut ops = g.ops(mix.depth, false, false);
        for _ in 0..3 {
            if ops.is_empty() {
                ops = g.ops(mix.depth, false, false);
            }
        }
        ops
    };
    Case { pool, doc, ops }
}

pub const FUEL: usize = 60_000;

pub struct Agreed {
    pub out: Option<String>,
    pub visits: u64,
    pub ran: std::collections::BTreeMap<&'static str, u64>,
    pub misuse: Vec<String>,
    /// Were user-written selectors asked what they should be?
    pub asked: Res,
    pub result: Result<Template, StreamError>,
}

/// Run the case on the model and on the library. None if it is too big for the model.
pub fn agree(ctx: &mut Ctx, case: &Case) -> Result<Option<Agreed>, String> {
    agree_within(ctx, case, FUEL)
}

pub fn agree_within(ctx: &mut Ctx, case: &Case, fuel: usize) -> Result<Option<Agreed>, String> {
    ctx.about(case.show());
    let mut m = Model::new(&case.pool, fuel);
    let want = m.ops(&case.ops, &Env::default(), case.doc.clone());
    if want == Err(Stop::TooBig) {
        ctx.count("skipped as too big");
        return Ok(None);
    }
    for (k, v) in &m.ran {
        ctx.add(&format!("operation {}", k), *v);
    }
    ctx.add("elements visited", m.visits);
    let env = case.env()?;
    let t = load(&spelled(&case.doc))?;
    let got = real::run(&t, &case.ops, &env);
    ctx.add("calls seen by user code", *env.seen.borrow() as u64);
    let misuse = env.misuse.borrow().clone();
    if let Some(m) = misuse.iter().find(|m| m.starts_with("meanwhile")) {
        return Err(m.clone());
    }
    let mut asked = Ok(());
    let out = match (&want, &got) {
        (Ok(nodes), Ok(t)) => {
            let out = t.to_string();
            same_output(&render(nodes), &out)?;
            if !m.cut_short {
                same_log(&m.log, &env.log.borrow())?;
                asked = same_asks(&m.asks, &env.asks.borrow());
            }
            Some(out)
        }
        (Ok(_), Err(e)) => return Err(format!("an error came out of nowhere: {}", err_text(e))),
        (Err(Stop::Fail(f)), Ok(t)) => {
            return Err(format!("expected the error {:?}, got the output {}", f, show(&t.to_string())))
        }
        (Err(Stop::Fail(f)), Err(e)) => {
            let want = err_text(&make_err(f));
            if want != err_text(e) {
                return Err(format!("expected the error {}\n  got {}", want, err_text(e)));
            }
            real::causes(e)?;
            ctx.count("errors compared");
            None
        }
        (Err(Stop::TooBig), _) => None,
    };
    Ok(Some(Agreed { out, visits: m.visits, ran: m.ran, misuse, asked, result: got }))
}

pub fn same_asks(want: &Asks, got: &Asks) -> Res {
    fn tag(s: &str) -> String {
        let end = format!("</{}>", real::shown_name(s));
        let whole = real::normal(&format!("{}{}", s, end));
        if whole.ends_with(&end) { whole } else { real::normal(s) }
    }
    if want == got {
        return Ok(());
    }
    for k in want.keys().chain(got.keys()).filter(|k| **k != 0) {
        let (w, g) = (want.get(k).map(|x| &x[..]).unwrap_or(&[]), got.get(k).map(|x| &x[..]).unwrap_or(&[]));
        for i in 0..w.len().max(g.len()) {
            let (w, g) = (w.get(i).cloned().unwrap_or_default(), g.get(i).cloned().unwrap_or_default());
            let same = w.len() == g.len() && w.iter().zip(&g).all(|(a, b)| a == b || tag(a) == tag(b));
            if !same {
                return Err(format!(
                    "selection {} of the user-written selector {} was asked about {:?}, expected {:?}",
                    i, k, g, w
                ));
            }
        }
    }
    Ok(())
}

pub fn same_log(want: &Log, got: &Log) -> Res {
    if want == got {
        return Ok(());
    }
    for k in want.keys().chain(got.keys()) {
        let (w, g) = (want.get(k).map(|x| &x[..]).unwrap_or(&[]), got.get(k).map(|x| &x[..]).unwrap_or(&[]));
        if w != g {
            let i = (0..).find(|i| w.get(*i) != g.get(*i)).unwrap_or(0);
            let few = |l: &[String]| format!("{:?}", l.iter().skip(i).take(4).collect::<Vec<_>>());
            return Err(format!(
                "user code at site {} saw, after {} others, {} ({} in all), expected {} ({} in all)",
                k,
                i,
                few(g),
                g.len(),
                few(w),
                w.len()
            ));
        }
    }
    Ok(())
}

pub fn key(case: &Case) -> String {
    format!("{}{:?}", render(&case.doc), case.ops)
}

/// A plain comparison with the model; counted if one of the operations ran and changed something.
fn compare(ctx: &mut Ctx, case: &Case, of_interest: &[&str]) -> Res {
    if let Some(a) = agree(ctx, case)? {
        let ran = of_interest.iter().any(|o| a.ran.keys().any(|k| k.starts_with(o)));
        if ran && a.out.map_or(false, |o| o != render(&case.doc)) {
            ctx.nontrivial(key(case).as_bytes());
        }
        ctx.sample(|| case.show());
    }
    Ok(())
}

const D: Docs = Docs { raw: true, narrow: false, big: true };

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            rule: "Random programs rich in selections of all eight forms, nested in each other and in other operations, run on random documents (many with elements of the same name nested), compared with a reference interpreter on trees: output, number and order of builder calls, and what each builder was handed. Non-trivial: a selection ran and the output differs from the input; distinct by document and program.",
            families: vec![
                fam("selection programs", c10_mix, 300_000, 2_000_000),
                fam("one selection", c10_one, 300_000, 2_000_000),
                fam("large documents", c10_large, 128, 1_000),
            ],
            assumptions: &["the reference interpreter (prog.rs) states the documented meaning"],
            needs: &[
                "operation select", "operation select_once", "operation select_direct",
                "operation select_direct_once", "operation subselect", "operation subselect_once",
                "operation subselect_direct", "operation subselect_direct_once",
                "operation subselect_contents", "elements visited",
            ],
            extra: None,
        },
        Prop {
            id: "C11",
            rule: "Random programs rich in append, prepend, replace and remove in both forms, on whole streams and on elements of all kinds, with content from all sources, compared with the reference interpreter. Non-trivial: a content operation ran and the output differs from the input.",
            families: vec![
                fam("content programs", c11_mix, 300_000, 2_000_000),
                fam("one element", c11_one, 300_000, 2_000_000),
                fam("large contents", c11_large, 128, 1_000),
            ],
            assumptions: &["the reference interpreter (prog.rs) states the documented meaning"],
            needs: &[
                "operation append", "operation prepend", "operation replace", "operation remove",
                "operation append_contents", "operation prepend_contents",
                "operation replace_contents", "operation remove_contents",
            ],
            extra: None,
        },
        Prop {
            id: "C12",
            rule: "Sequences of attribute, class and id operations on elements with repeated, differently cased, empty and valueless attributes, directly and inside selections, compared with the reference interpreter. Non-trivial: an attribute operation ran and the output differs from the input.",
            families: vec![
                fam("one element", c12_one, 600_000, 3_000_000),
                fam("attribute programs", c12_mix, 200_000, 1_000_000),
                fam("many attributes", c12_many, 800, 8_000),
            ],
            assumptions: &["the reference interpreter (prog.rs) states the documented meaning"],
            needs: &[
                "operation add_attribute", "operation add_attribute_with_value",
                "operation add_empty_attribute", "operation add_to_attribute",
                "operation replace_attribute_value_if_exists", "operation set_attribute",
                "operation set_attribute_with_value", "operation set_empty_attribute",
                "operation remove_attribute", "operation add_class", "operation remove_class",
                "operation remove_id", "operation set_id",
            ],
            extra: None,
        },
    ]
}

// ---- C10

fn c10_mix(ctx: &mut Ctx, src: &mut Src) -> Res {
    let mix = Mix { select: 10, content: 3, repeat: 1, attr: 3, apply: 1, look: 3, depth: 4, ..MIX };
    let narrow = src.chance(1, 2);
    let case = a_case(src, mix, Docs { narrow, ..D });
    compare(ctx, &case, &["select", "subselect"])
}

/// One selection whose builder notes what it is given and marks it.
fn c10_one(ctx: &mut Ctx, src: &mut Src) -> Res {
    let narrow = src.chance(2, 3);
    let d = Docs { narrow, ..D };
    let doc = a_doc(src, d);
    let pool = a_pool(src, true);
    let ops = {
        let mix = Mix { select: 8, look: 3, depth: 1, ..MIX };
        let mut g = Pg::new(src, mix, pool.len(), &doc);
        let sel = if g.src.chance(1, 4) { Sel::Tag(g.src.pick(&["a", "b", "p"]).to_string()) } else { g.sel() };
        let scope = *g.src.pick(SCOPES);
        // what is handed over is noted first, or what was made of it last
        let (mut list, any) = match g.src.below(5) {
            0 => (vec![], true),
            1 => (vec![Op::AddClass(Name { text: "m".into(), way: NWay::Str })], false),
            2 => (vec![Op::Prepend(Content::Text("[".into(), Way::Str)), Op::Append(Content::Text("]".into(), Way::Str))], true),
            3 => (vec![Op::Remove], true),
            _ => (g.ops(1, true, false), false),
        };
        let at = if any && g.src.chance(3, 4) { 0 } else { list.len() };
        let site = g.site();
        list.insert(at, Op::Look(site));
        let elem = ends_elem(&list, true);
        let site = g.site();
        let body = Rc::new(Body { site, variants: vec![list], elem });
        let sub = g.src.below(4);
        match sub {
            0 | 1 => vec![Op::Select(scope, sel, body)],
            n => {
                let outer = if n == 2 { g.sel() } else { Sel::Custom(Pred::All, 0) };
                let osc = *g.src.pick(SCOPES);
                let site = g.site();
                let b = Body { site, variants: vec![vec![Op::Subselect(scope, sel, body)]], elem: true };
                vec![Op::Select(osc, outer, Rc::new(b))]
            }
        }
    };
    compare(ctx, &Case { pool, doc, ops }, &["select", "subselect"])
}

fn c10_large(ctx: &mut Ctx, src: &mut Src) -> Res {
    let n = size(src, 4_000) + 1;
    let deep = src.chance(1, 2);
    let mut doc: Vec<Node> = Vec::new();
    let mk = |name: &str, children: Vec<Node>| {
        Node::Elem(Elem {
            name: name.into(),
            attrs: vec![],
            kind: Kind::Normal { close: name.into(), children },
        })
    };
    let period = src.range(2, 5);
    for i in 0..n {
        let name = if i % period == 0 { "b" } else { "a" };
        if deep {
            doc = vec![mk(name, doc)];
        } else {
            doc.push(mk(name, vec![]));
            if i % 3 == 0 {
                doc.push(Node::Text(format!("t{}", i)));
            }
        }
    }
    let scope = *src.pick(SCOPES);
    let tag = src.pick(&["a", "b"]).to_string();
    let b = Body { site: 1, variants: vec![vec![Op::AddClass(Name { text: "m".into(), way: NWay::Str })], vec![Op::Look(2)]], elem: false };
    let mut ops = vec![Op::Select(scope, Sel::Tag(tag), Rc::new(b))];
    if deep {
        // contents of the outermost, selected within
        let b2 = Body { site: 3, variants: vec![vec![Op::Prepend(Content::Num(1, Int::U8))]], elem: false };
        let b1 = Body { site: 4, variants: vec![vec![Op::Subselect(Scope::Any, Sel::Tag("b".into()), Rc::new(b2))]], elem: true };
        ops.insert(0, Op::Select(Scope::Direct, Sel::Custom(Pred::All, 0), Rc::new(b1)));
    }
    let case = Case { pool: vec![vec![]], doc, ops };
    ctx.about(format!("{} elements, deep {}", n, deep));
    // too deep to be looked at in full by the model's fuel rule
    let mut m = Model::new(&case.pool, usize::MAX);
    let want = m.ops(&case.ops, &Env::default(), case.doc.clone());
    let env = case.env()?;
    let t = load(&spelled(&case.doc))?;
    let got = real::run(&t, &case.ops, &env);
    match (want, got) {
        (Ok(n), Ok(t)) => {
            same_output(&render(&n), &t.to_string())?;
            same_log(&m.log, &env.log.borrow())?;
            ctx.nontrivial(format!("{:?}{}{}", case.ops, deep, n.len()).as_bytes());
            ctx.add("elements visited", m.visits);
            Ok(())
        }
        (_, Err(e)) => Err(format!("an error came out of nowhere: {}", err_text(&e))),
        (Err(e), _) => panic!("model: {:?}", e),
    }
}

// ---- C11

fn c11_mix(ctx: &mut Ctx, src: &mut Src) -> Res {
    let mix = Mix { select: 4, content: 12, repeat: 1, attr: 1, apply: 1, look: 1, depth: 3, ..MIX };
    let case = a_case(src, mix, D);
    compare(ctx, &case, CONTENT_OPS)
}

const CONTENT_OPS: &[&str] = &["append", "prepend", "replace", "remove_contents", "remove"];

/// Content operations on every element, or on the elements of one kind.
fn c11_one(ctx: &mut Ctx, src: &mut Src) -> Res {
    let doc = a_doc(src, D);
    let pool = a_pool(src, true);
    let ops = {
        let mix = Mix { content: 6, select: 2, depth: 2, ..MIX };
        let mut g = Pg::new(src, mix, pool.len(), &doc);
        for p in &pool {
            g.more(p);
        }
        let sel = match g.src.below(5) {
            0 => Sel::Custom(Pred::All, 0),
            1 => Sel::Tag(g.src.pick(VOID).to_string()),
            _ => g.sel(),
        };
        let scope = *g.src.pick(SCOPES);
        let mut list = Vec::new();
        for _ in 0..g.src.range(1, 3) {
            list.push(match g.src.below(4) {
                0 => Op::AppendC(g.content(1)),
                1 => Op::PrependC(g.content(1)),
                2 => Op::ReplaceC(g.content(1)),
                _ => Op::RemoveC,
            });
        }
        for _ in 0..g.src.below(3) {
            list.push(match g.src.below(4) {
                0 => Op::Append(g.content(1)),
                1 => Op::Prepend(g.content(1)),
                2 => Op::Replace(g.content(1)),
                _ => Op::Remove,
            });
        }
        let elem = ends_elem(&list, true);
        let site = g.site();
        let mut ops = vec![Op::Select(scope, sel, Rc::new(Body { site, variants: vec![list], elem }))];
        if g.src.chance(1, 3) {
            ops.push(match g.src.below(4) {
                0 => Op::Append(g.content(1)),
                1 => Op::Prepend(g.content(1)),
                2 => Op::Replace(g.content(1)),
                _ => Op::Remove,
            });
        }
        ops
    };
    compare(ctx, &Case { pool, doc, ops }, CONTENT_OPS)
}

fn c11_large(ctx: &mut Ctx, src: &mut Src) -> Res {
    let mk = |n: usize, t: &str| -> Vec<Node> {
        let mut v = Vec::new();
        for i in 0..n {
            v.push(Node::Elem(Elem { name: "i".into(), attrs: vec![], kind: Kind::SelfClosed }));
            v.push(Node::Text(format!("{}{}", t, i)));
        }
        v
    };
    let n = size(src, 3_000);
    let m = size(src, 3_000);
    let inner = mk(n, "old");
    let doc = vec![
        Node::Text("before".into()),
        Node::Elem(Elem { name: "p".into(), attrs: vec![], kind: Kind::Normal { close: "P".into(), children: inner } }),
        Node::Text("after".into()),
    ];
    let pool = vec![mk(m, "new")];
    let way = *src.pick(TPL_WAYS);
    let mut list = Vec::new();
    for _ in 0..src.range(1, 3) {
        let c = if src.chance(1, 2) { Content::Tpl(0, way) } else { Content::User { tpl: 0, site: 9, fail_after: None, way: UWay::Own } };
        list.push(match src.below(6) {
            0 => Op::AppendC(c),
            1 => Op::PrependC(c),
            2 => Op::ReplaceC(c),
            3 => Op::RemoveC,
            4 => Op::AppendC(c.clone()),
            _ => Op::PrependC(c.clone()),
        });
    }
    list.push(match src.below(4) {
        0 => Op::Append(Content::Tpl(0, way)),
        1 => Op::Prepend(Content::Tpl(0, way)),
        2 => Op::Replace(Content::Tpl(0, way)),
        _ => Op::RemoveC,
    });
    let body = Body { site: 1, variants: vec![list], elem: false };
    let ops = vec![Op::Select(Scope::Any, Sel::Tag("p".into()), Rc::new(body))];
    let case = Case { pool, doc, ops };
    if agree(ctx, &case)?.is_some() {
        ctx.nontrivial(format!("{:?} {} {}", case.ops, n, m).as_bytes());
    }
    ctx.about(format!("{:?} with {} old and {} new items", case.ops, n, m));
    Ok(())
}

// ---- C12

const ATTR_OPS: &[&str] = &["add_", "set_", "remove_", "replace_attribute"];

fn c12_one(ctx: &mut Ctx, src: &mut Src) -> Res {
    let name = elem_name(src);
    let attrs = attrs(src, 8);
    let kind = if is_void(&name) {
        Kind::Void
    } else if src.chance(1, 3) {
        Kind::SelfClosed
    } else {
        let children = if is_raw(&name) {
            vec![Node::Raw("x".into())]
        } else {
            let s = Shape { nodes: 3, depth: 2, ..SMALL };
            doc(src, s)
        };
        Kind::Normal { close: name.clone(), children }
    };
    let doc = vec![Node::Text("before".into()), Node::Elem(Elem { name, attrs, kind }), Node::Text("after".into())];
    let ops = {
        let mut g = Pg::new(src, MIX, 1, &doc);
        let n = g.src.range(1, 5);
        let list: Vec<Op> = (0..n).map(|_| g.attr_op()).collect();
        let body = Body { site: 1, variants: vec![list], elem: true };
        let scope = *g.src.pick(SCOPES);
        vec![Op::Select(scope, Sel::Custom(Pred::All, 0), Rc::new(body))]
    };
    compare(ctx, &Case { pool: vec![vec![]], doc, ops }, ATTR_OPS)
}

fn c12_mix(ctx: &mut Ctx, src: &mut Src) -> Res {
    let mix = Mix { select: 5, content: 1, repeat: 1, attr: 12, apply: 1, look: 1, depth: 3, ..MIX };
    let case = a_case(src, mix, D);
    compare(ctx, &case, ATTR_OPS)
}

fn c12_many(ctx: &mut Ctx, src: &mut Src) -> Res {
    let n = size(src, 600);
    let m = src.range(1, 40);
    let attrs: Vec<Attr> = (0..n)
        .map(|i| {
            let name = if src.chance(1, 6) { src.pick(&["class", "id", "Class"]).to_string() } else { format!("a{}", i % m) };
            let value = if ci(&name, "class") {
                let k = src.below(60);
                Some((0..k).map(|j| format!("c{}", j % 7)).collect::<Vec<_>>().join(" "))
            } else {
                attr_value(src, &name)
            };
            Attr { name, value }
        })
        .collect();
    let doc = vec![Node::Elem(Elem { name: "p".into(), attrs, kind: Kind::SelfClosed })];
    let ops = {
        let mut g = Pg::new(src, MIX, 1, &doc);
        let k = g.src.range(1, 8);
        let list: Vec<Op> = (0..k).map(|_| g.attr_op()).collect();
        let body = Body { site: 1, variants: vec![list], elem: true };
        vec![Op::Select(Scope::Any, Sel::Tag("p".into()), Rc::new(body))]
    };
    compare(ctx, &Case { pool: vec![vec![]], doc, ops }, ATTR_OPS)
}
