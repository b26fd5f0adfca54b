//! Generator of transformation programs.

use crate::choice::Src;
use crate::gen::*;
use crate::prog::*;
use crate::refparse::{element_name_rule, name_rule, NameErr};
use crate::tree::*;
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
pub struct Mix {
    pub select: usize,
    pub content: usize,
    pub repeat: usize,
    pub attr: usize,
    pub apply: usize,
    pub look: usize,
    /// Chance in 100 that a program gets an erroneous part.
    pub errors: usize,
    pub max_ops: usize,
    pub depth: usize,
    /// Weight of content from user streams.
    pub user: usize,
    /// Weight of user-written selectors.
    pub custom: usize,
}

pub const MIX: Mix = Mix {
    select: 6, content: 6, repeat: 2, attr: 6, apply: 3, look: 1, errors: 0, max_ops: 4, depth: 3,
    user: 2, custom: 1,
};

pub struct Pg<'a> {
    pub src: &'a mut Src,
    pub mix: Mix,
    pub pool: usize,
    sites: usize,
    /// Number of erroneous parts still to be put in.
    err: usize,
    names: Vec<String>,
    ids: Vec<String>,
    classes: Vec<String>,
    attrs: Vec<String>,
}

fn collect(nodes: &[Node], g: &mut Pg) {
    for n in nodes {
        if let Node::Elem(e) = n {
            g.names.push(e.name.clone());
            for a in &e.attrs {
                g.attrs.push(a.name.clone());
                if let Some(ref v) = a.value {
                    if ci(&a.name, "class") {
                        for c in classes(v) {
                            if name_rule(c).is_ok() {
                                g.classes.push(c.into());
                            }
                        }
                    }
                    if ci(&a.name, "id") && name_rule(v).is_ok() {
                        g.ids.push(v.clone());
                    }
                }
            }
            if let Kind::Normal { ref children, .. } = e.kind {
                collect(children, g);
            }
        }
    }
}

pub fn bad_name(src: &mut Src) -> String {
    loop {
        let mut s = match src.below(4) {
            0 => String::new(),
            1 => "é".into(),
            2 => random_name(src),
            _ => src.pick(&["class", "id", "x", "p"]).to_string(),
        };
        if src.chance(1, 2) {
            let at = s.len();
            let at = if s.is_ascii() { src.below(at + 1) } else { 0 };
            let at = if src.chance(1, 3) { s.len() } else { at };
            s.insert(at, *src.pick(&['=', '"', '\'', '/', '>', '<', '&', ',', ';', ' ', '\n', '\u{b}', '\u{c}', '\t', 'é', '\u{a0}', 'K']));
        }
        if name_rule(&s).is_err() {
            return s;
        }
    }
}

/// An error made outside of the operation that meets it.
pub fn made_fail(src: &mut Src) -> Fail {
    match src.below(10) {
        0 => Fail::Ident(name_rule(&bad_name(src)).unwrap_err()),
        1 => Fail::SelTag(NameErr::Empty),
        2 => Fail::SelId(name_rule(&bad_name(src)).unwrap_err()),
        3 => Fail::SelClass(name_rule(&bad_name(src)).unwrap_err()),
        4 => {
            let n = src.below(3);
            Fail::SelClasses(n, name_rule(&bad_name(src)).unwrap_err())
        }
        5 => Fail::SelClassesEmpty,
        6 => Fail::Parse(
            src.pick(&["<a>", "</b>", "<a></b>", "<!--", "<x y=z>", "<", "<!doctype x>", "<é>", "\n<p\n"])
                .to_string(),
        ),
        7 => Fail::Length("<a></a>".into(), src.below(7)),
        8 => Fail::File(
            src.pick(&["/nonexistent/x.html", "/", "/dev/null/x", "/verif/harness"]).to_string(),
        ),
        _ => Fail::User(src.pick(&["p", "X-y", "q"]).to_string()),
    }
}

impl<'a> Pg<'a> {
    pub fn new(src: &'a mut Src, mix: Mix, pool: usize, doc: &[Node]) -> Pg<'a> {
        let err = if mix.errors > 0 && src.chance(mix.errors, 100) { 1 } else { 0 };
        let mut g = Pg {
            src, mix, pool, sites: 0, err, names: vec![], ids: vec![], classes: vec![], attrs: vec![],
        };
        collect(doc, &mut g);
        g
    }
    pub fn more(&mut self, doc: &[Node]) {
        collect(doc, self);
    }

    /// True if the part about to be made is to be the erroneous one.
    fn err(&mut self) -> bool {
        if self.err > 0 && self.src.chance(1, 4) {
            self.err -= 1;
            return true;
        }
        false
    }

    pub fn site(&mut self) -> usize {
        self.sites += 1;
        self.sites
    }

    fn from(&mut self, which: usize) -> String {
        let pool: &Vec<String> = match which {
            0 => &self.names,
            1 => &self.ids,
            2 => &self.classes,
            _ => &self.attrs,
        };
        if !pool.is_empty() && self.src.chance(7, 8) {
            let i = self.src.below(pool.len());
            let s = pool[i].clone();
            return if self.src.chance(1, 5) { flip_case(self.src, &s) } else { s };
        }
        match which {
            0 => elem_name(self.src),
            3 => attr_name(self.src),
            _ => loop {
                let s = class_word(self.src);
                if name_rule(&s).is_ok() {
                    break s;
                }
            },
        }
    }

    pub fn name(&mut self, which: usize) -> Name {
        let text = if self.err() { bad_name(self.src) } else { self.from(which) };
        Name { text, way: *self.src.pick(NWAYS) }
    }

    pub fn sel(&mut self) -> Sel {
        if self.err() {
            return match self.src.below(6) {
                0 => Sel::Fail(made_fail(self.src)),
                1 => Sel::Tag(bad_name(self.src)),
                2 => Sel::Id(bad_name(self.src)),
                3 => Sel::Class(bad_name(self.src)),
                4 => {
                    let mut v: Vec<String> = (0..self.src.below(3)).map(|_| self.from(2)).collect();
                    if self.src.chance(3, 4) {
                        v.push(bad_name(self.src));
                    } else {
                        v.clear();
                    }
                    Sel::Classes(v)
                }
                _ => loop {
                    let mut s = self.static_sel();
                    match self.src.below(5) {
                        0 => s.push('.'),
                        1 => s.push('#'),
                        2 => {
                            let b = bad_name(self.src);
                            s.push('.');
                            s.push_str(&b);
                        }
                        3 => {
                            let b = bad_name(self.src);
                            s = format!("{}#{}", b, s);
                        }
                        _ => s = bad_name(self.src),
                    }
                    if static_parts(&s).is_err() {
                        break Sel::Static(s);
                    }
                },
            };
        }
        match self.src.weighted(&[6, 5, 2, 3, 2, self.mix.custom]) {
            0 => Sel::Static(self.static_sel()),
            1 => Sel::Tag(self.from(0)),
            2 => Sel::Id(self.from(1)),
            3 => Sel::Class(self.from(2)),
            4 => {
                let n = self.src.range(1, 3);
                Sel::Classes((0..n).map(|_| self.from(2)).collect())
            }
            _ => {
                let p = match self.src.below(if self.mix.custom > 1 { 6 } else { 4 }) {
                    4 | 5 => Pred::Nth(self.src.range(1, 3), self.src.below(3)),
                    0 => Pred::All,
                    1 => Pred::None,
                    2 => Pred::HasAttrs,
                    _ => Pred::Starts(*self.src.pick(&['a', 'b', 'p', 's', 'd'])),
                };
                let site = self.site();
                Sel::Custom(p, site)
            }
        }
    }

    pub fn static_sel(&mut self) -> String {
        for _ in 0..8 {
            let mut s = String::new();
            let what = *self.src.pick(&[1usize, 1, 1, 2, 4, 4, 3, 5, 6, 7, 12, 13]);
            if what & 1 != 0 {
                s.push_str(&self.from(0));
            }
            if what & 2 != 0 {
                s.push('#');
                s.push_str(&self.from(1));
            }
            if what & 4 != 0 {
                s.push('.');
                s.push_str(&self.from(2));
            }
            if what & 8 != 0 {
                s.push('.');
                s.push_str(&self.from(2));
            }
            if static_parts(&s).is_ok() {
                return s;
            }
        }
        "p".into()
    }

    fn int(&mut self) -> (i128, Int) {
        any_int(self.src)
    }

    pub fn content(&mut self, depth: usize) -> Content {
        if self.err() {
            return match self.src.below(3) {
                0 => Content::Fail(made_fail(self.src)),
                1 if self.mix.user > 0 => {
                    let tpl = self.src.below(self.pool);
                    let after = self.src.below(5);
                    let f = made_fail(self.src);
                    Content::User { tpl, site: self.site(), fail_after: Some((after, f)), way: *self.src.pick(UWAYS) }
                }
                _ => Content::NewElem(bad_name(self.src), None),
            };
        }
        let more = if depth > 0 { 2 } else { 0 };
        match self.src.weighted(&[6, 2, 5, 2, more, more, 2, self.mix.user]) {
            0 => Content::Text(hostile_text(self.src), *self.src.pick(WAYS)),
            1 => {
                let (n, i) = self.int();
                Content::Num(n, i)
            }
            2 => Content::Tpl(self.src.below(self.pool), *self.src.pick(TPL_WAYS)),
            3 => Content::NewElem(self.new_name(), None),
            4 => {
                let n = self.new_name();
                let b = self.body(depth - 1, true, false);
                Content::NewElem(n, Some(b))
            }
            5 => {
                let t = self.src.below(self.pool);
                let b = self.body(depth - 1, false, false);
                Content::Transformed(t, b)
            }
            6 => Content::Item,
            _ => {
                let tpl = self.src.below(self.pool);
                Content::User { tpl, site: self.site(), fail_after: None, way: *self.src.pick(UWAYS) }
            }
        }
    }

    /// Raw elements are left out: text in them reads differently.
    fn new_name(&mut self) -> String {
        for _ in 0..8 {
            let n = if self.src.chance(1, 3) { self.src.pick(VOID).to_string() } else { elem_name(self.src) };
            if !is_raw(&n) && element_name_rule(&n).is_ok() {
                return n;
            }
        }
        "p".into()
    }

    pub fn val(&mut self) -> Val {
        match self.src.weighted(&[6, 2, 1]) {
            0 => Val::Text(hostile_text(self.src), *self.src.pick(VWAYS)),
            1 => {
                let (n, i) = self.int();
                Val::Num(n, i)
            }
            _ => Val::Item,
        }
    }

    pub fn items(&mut self) -> Items {
        let n = match self.src.below(8) {
            0 | 1 => 0,
            2 => 1,
            7 => self.src.range(5, 40),
            _ => self.src.range(2, 4),
        };
        let site = self.site();
        Items { site, items: (0..n).map(|i| i as i64 * 10 + self.src.below(3) as i64 - 1).collect() }
    }

    /// A builder body. `elem`: it is given a single element; `keep`: it must give one back.
    pub fn body(&mut self, depth: usize, elem: bool, keep: bool) -> Rc<Body> {
        let site = self.site();
        let n = if self.src.chance(1, 4) { self.src.range(2, 3) } else { 1 };
        let variants: Vec<Vec<Op>> = (0..n).map(|_| self.ops(depth, elem, keep)).collect();
        let elem = variants.iter().all(|v| ends_elem(v, elem));
        Rc::new(Body { site, variants, elem })
    }

    pub fn ops(&mut self, depth: usize, elem: bool, keep: bool) -> Vec<Op> {
        let mut e = elem;
        let mut v = Vec::new();
        let n = self.src.below(self.mix.max_ops + 1);
        for _ in 0..n {
            let op = self.op(depth, e, keep);
            e = op_elem(&op, e);
            v.push(op);
        }
        v
    }

    fn scope(&mut self) -> Scope {
        *self.src.pick(SCOPES)
    }

    /// One operation; with `keep` only ones that hand on a single element.
    pub fn op(&mut self, depth: usize, elem: bool, keep: bool) -> Op {
        use Op::*;
        let m = self.mix;
        let d = depth.saturating_sub(1);
        let deep = depth > 0;
        let el = |w: usize| if elem { w } else { 0 };
        let nk = |w: usize| if keep { 0 } else { w };
        let dp = |w: usize| if deep { w } else { 0 };
        let k = self.src.weighted(&[
            nk(dp(m.select * 3)), // 0 select
            el(dp(m.select * 2)), // 1 subselect
            el(dp(m.select)),     // 2 subselect_contents
            nk(m.content * 3),    // 3 content
            el(m.content * 4),    // 4 content of element
            nk(dp(m.repeat * 3)), // 5 repeat
            el(dp(m.repeat * 3)), // 6 repeat contents
            el(m.attr * 6),       // 7 attributes
            dp(m.apply * 3),      // 8 apply
            m.apply,              // 9 boxes
            nk(m.look),           // 10 look
            1,
        ]);
        match k {
            0 => {
                let s = self.scope();
                let sel = self.sel();
                Select(s, sel, self.body(d, true, false))
            }
            1 => {
                let s = self.scope();
                let sel = self.sel();
                Subselect(s, sel, self.body(d, true, false))
            }
            2 => SubContents(self.body(d, false, false)),
            3 => match self.src.below(4) {
                0 => Append(self.content(d)),
                1 => Prepend(self.content(d)),
                2 => Replace(self.content(d)),
                _ => if self.src.chance(1, 2) { Remove } else { Append(self.content(d)) },
            },
            4 => match self.src.below(4) {
                0 => AppendC(self.content(d)),
                1 => PrependC(self.content(d)),
                2 => ReplaceC(self.content(d)),
                _ => RemoveC,
            },
            5 => {
                let it = self.items();
                if self.src.chance(1, 2) {
                    Repeat(it, self.body(d, elem, false))
                } else {
                    let b = self.body(d, elem, false);
                    RepeatElse(it, b, self.body(d, elem, false))
                }
            }
            6 => {
                let it = self.items();
                if keep || self.src.chance(1, 2) {
                    RepeatC(it, self.body(d, false, false))
                } else {
                    let b = self.body(d, false, false);
                    RepeatCElse(it, b, self.body(d, true, false))
                }
            }
            7 => self.attr_op(),
            8 => match self.src.below(7) {
                0 => Apply(self.body(d, elem, keep)),
                1 => ApplyIf(self.src.chance(1, 2), self.body(d, elem, keep)),
                2 => {
                    let c = self.src.chance(1, 2);
                    let b = self.body(d, elem, keep);
                    ApplyIfElse(c, b, self.body(d, elem, keep))
                }
                3 => {
                    let o = if self.src.chance(1, 2) { Some(self.src.below(100) as i64) } else { None };
                    let b = self.body(d, elem, keep);
                    ApplyOpt(o, b, self.body(d, elem, keep))
                }
                4 => {
                    let i = self.src.below(100) as i64;
                    let r = if self.src.chance(1, 2) { Ok(i) } else { Err(i) };
                    let b = self.body(d, elem, keep);
                    ApplyRes(r, b, self.body(d, elem, keep))
                }
                5 if !keep => {
                    if self.err() {
                        AsTplFail(made_fail(self.src))
                    } else if self.src.chance(1, 2) {
                        ApplyBoxed(self.body(d, false, false))
                    } else {
                        AsTpl(self.body(d, false, false))
                    }
                }
                _ if elem => ApplyBoxedElem(self.body(d, true, keep)),
                _ => Apply(self.body(d, elem, keep)),
            },
            9 => {
                if elem && (keep || self.src.chance(1, 2)) {
                    BoxElem
                } else if keep {
                    if elem { BoxElem } else { Apply(self.body(0, elem, keep)) }
                } else {
                    Box
                }
            }
            10 => Look(self.site()),
            _ => {
                if elem { self.attr_op() } else { Append(self.content(0)) }
            }
        }
    }

    pub fn attr_op(&mut self) -> Op {
        use Op::*;
        let n = |g: &mut Self| {
            if g.src.chance(1, 4) {
                let text = g.src.pick(&["class", "CLASS", "id", "Id"]).to_string();
                Name { text, way: *g.src.pick(NWAYS) }
            } else {
                g.name(3)
            }
        };
        match self.src.below(15) {
            0 => {
                let v = if self.src.chance(3, 4) { Some(self.val()) } else { None };
                AddAttr(n(self), v)
            }
            1 => {
                let v = self.val();
                AddAttrV(n(self), v)
            }
            2 => AddEmpty(n(self)),
            3 | 4 => {
                let v = self.val();
                let s = if self.src.chance(1, 2) {
                    Val::Text(self.src.pick(&[" ", "", ";", ", "]).to_string(), VWay::Str)
                } else {
                    self.val()
                };
                AddTo(n(self), v, s)
            }
            5 => {
                let v = self.val();
                ReplaceIf(n(self), v)
            }
            6 => {
                let v = if self.src.chance(3, 4) { Some(self.val()) } else { None };
                SetAttr(n(self), v)
            }
            7 => {
                let v = self.val();
                SetAttrV(n(self), v)
            }
            8 => SetEmpty(n(self)),
            9 => RemoveAttr(n(self)),
            10 => AddClass(self.name(2)),
            11 | 12 => RemoveClass(self.name(2)),
            13 => RemoveId,
            _ => SetId(self.name(1)),
        }
    }
}

pub fn any_int(src: &mut Src) -> (i128, Int) {
    let i = *src.pick(INTS);
    let (lo, hi): (i128, i128) = match i {
        Int::Usize | Int::U64 => (0, u64::MAX as i128),
        Int::U8 => (0, 255),
        Int::U16 => (0, 65535),
        Int::U32 => (0, u32::MAX as i128),
        Int::Isize | Int::I64 => (i64::MIN as i128, i64::MAX as i128),
        Int::I8 => (-128, 127),
        Int::I16 => (-32768, 32767),
        Int::I32 => (i32::MIN as i128, i32::MAX as i128),
    };
    let n = match src.below(6) {
        0 => lo,
        1 => hi,
        2 => 0,
        3 => (lo + 1 + src.below(100) as i128).min(hi),
        4 => (hi - 1 - src.below(100) as i128).max(lo),
        _ => (src.below(1000) as i128).min(hi),
    };
    (n, i)
}

/// Does the operation hand on a single element?
pub fn op_elem(op: &Op, elem: bool) -> bool {
    use Op::*;
    match op {
        Apply(b) | ApplyBoxedElem(b) => b.elem,
        ApplyIf(_, b) => elem && b.elem,
        ApplyIfElse(_, a, b) | ApplyOpt(_, a, b) | ApplyRes(_, a, b) => a.elem && b.elem,
        Subselect(..) | SubContents(..) | RemoveC | AppendC(_) | PrependC(_) | ReplaceC(_)
        | RepeatC(..) | AddAttr(..) | AddAttrV(..) | AddEmpty(..) | AddTo(..) | ReplaceIf(..)
        | SetAttr(..) | SetAttrV(..) | SetEmpty(..) | RemoveAttr(..) | AddClass(..)
        | RemoveClass(..) | RemoveId | SetId(..) | BoxElem => elem,
        Select(..) | Remove | Append(_) | Prepend(_) | Replace(_) | Repeat(..) | RepeatElse(..)
        | RepeatCElse(..) | ApplyBoxed(_) | Box | AsTpl(_) | AsTplFail(_) | Look(_) => false,
    }
}

pub fn ends_elem(ops: &[Op], elem: bool) -> bool {
    ops.iter().fold(elem, |e, op| op_elem(op, e))
}

/// What a text in an operation is.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum T {
    Text,
    Name,
    Elem,
    Static,
}

/// The same operations with every text passed through `f`.
pub fn map_ops(ops: &[Op], f: &mut dyn FnMut(&str, T) -> String) -> Vec<Op> {
    ops.iter().map(|o| map_op(o, f)).collect()
}

type TextMap<'a> = &'a mut dyn FnMut(&str, T) -> String;

fn map_body(b: &Rc<Body>, f: TextMap) -> Rc<Body> {
    let variants = b.variants.iter().map(|v| v.iter().map(|o| map_op(o, &mut *f)).collect()).collect();
    Rc::new(Body { site: b.site, variants, elem: b.elem })
}

fn map_val(v: &Val, f: TextMap) -> Val {
    match v {
        Val::Text(s, w) => Val::Text(f(s, T::Text), *w),
        v => v.clone(),
    }
}

fn map_name(n: &Name, f: TextMap) -> Name {
    Name { text: f(&n.text, T::Name), way: n.way }
}

fn map_content(c: &Content, f: TextMap) -> Content {
    match c {
        Content::Text(s, w) => Content::Text(f(s, T::Text), *w),
        Content::NewElem(n, b) => Content::NewElem(f(n, T::Elem), b.as_ref().map(|b| map_body(b, f))),
        Content::Transformed(t, b) => Content::Transformed(*t, map_body(b, f)),
        c => c.clone(),
    }
}

fn map_sel(s: &Sel, f: TextMap) -> Sel {
    match s {
        Sel::Static(s) => Sel::Static(f(s, T::Static)),
        Sel::Tag(s) => Sel::Tag(f(s, T::Elem)),
        Sel::Id(s) => Sel::Id(f(s, T::Name)),
        Sel::Class(s) => Sel::Class(f(s, T::Name)),
        Sel::Classes(v) => Sel::Classes(v.iter().map(|s| f(s, T::Name)).collect()),
        s => s.clone(),
    }
}

fn map_op(o: &Op, f: TextMap) -> Op {
    use Op::*;
    match o {
        Select(s, x, b) => Select(*s, map_sel(x, f), map_body(b, f)),
        Subselect(s, x, b) => Subselect(*s, map_sel(x, f), map_body(b, f)),
        SubContents(b) => SubContents(map_body(b, f)),
        Append(c) => Append(map_content(c, f)),
        Prepend(c) => Prepend(map_content(c, f)),
        Replace(c) => Replace(map_content(c, f)),
        AppendC(c) => AppendC(map_content(c, f)),
        PrependC(c) => PrependC(map_content(c, f)),
        ReplaceC(c) => ReplaceC(map_content(c, f)),
        Repeat(i, b) => Repeat(i.clone(), map_body(b, f)),
        RepeatElse(i, a, b) => RepeatElse(i.clone(), map_body(a, f), map_body(b, f)),
        RepeatC(i, b) => RepeatC(i.clone(), map_body(b, f)),
        RepeatCElse(i, a, b) => RepeatCElse(i.clone(), map_body(a, f), map_body(b, f)),
        AddAttr(n, v) => AddAttr(map_name(n, f), v.as_ref().map(|v| map_val(v, f))),
        AddAttrV(n, v) => AddAttrV(map_name(n, f), map_val(v, f)),
        AddEmpty(n) => AddEmpty(map_name(n, f)),
        AddTo(n, s, v) => AddTo(map_name(n, f), map_val(s, f), map_val(v, f)),
        ReplaceIf(n, v) => ReplaceIf(map_name(n, f), map_val(v, f)),
        SetAttr(n, v) => SetAttr(map_name(n, f), v.as_ref().map(|v| map_val(v, f))),
        SetAttrV(n, v) => SetAttrV(map_name(n, f), map_val(v, f)),
        SetEmpty(n) => SetEmpty(map_name(n, f)),
        RemoveAttr(n) => RemoveAttr(map_name(n, f)),
        AddClass(n) => AddClass(map_name(n, f)),
        RemoveClass(n) => RemoveClass(map_name(n, f)),
        SetId(n) => SetId(map_name(n, f)),
        Apply(b) => Apply(map_body(b, f)),
        ApplyIf(c, b) => ApplyIf(*c, map_body(b, f)),
        ApplyIfElse(c, a, b) => ApplyIfElse(*c, map_body(a, f), map_body(b, f)),
        ApplyOpt(c, a, b) => ApplyOpt(*c, map_body(a, f), map_body(b, f)),
        ApplyRes(c, a, b) => ApplyRes(*c, map_body(a, f), map_body(b, f)),
        ApplyBoxed(b) => ApplyBoxed(map_body(b, f)),
        ApplyBoxedElem(b) => ApplyBoxedElem(map_body(b, f)),
        AsTpl(b) => AsTpl(map_body(b, f)),
        o => o.clone(),
    }
}

/// A text much like this one.
pub fn near_text(src: &mut Src, s: &str) -> String {
    let chars: Vec<char> = s.chars().collect();
    let n = chars.len();
    if n == 0 {
        return src.pick(&["", " ", "x", "&", "a", "0"]).to_string();
    }
    let cut = |a: usize, b: usize| -> String { chars[a..b].iter().collect() };
    match src.below(12) {
        0 | 1 => s.to_string(),
        2 => cut(1, n),
        3 => cut(0, n - 1),
        4 => cut(src.below(n), n),
        5 => cut(0, src.below(n)),
        6 => format!("{}{}", s, s),
        7 => format!("{}{}", cut(n - 1, n), s),
        8 => format!("{}{}", s, cut(0, 1)),
        9 => crate::gen::flip_case(src, s),
        10 => {
            let i = src.below(n);
            let mut v = chars.clone();
            v[i] = *src.pick(&['x', '&', ' ', 'a', 'ä', '<']);
            v.into_iter().collect()
        }
        _ => format!("{}{}", src.pick(&["a", " ", "&", "ä"]), s),
    }
}

/// The same for names: still one, mostly.
pub fn near_name(src: &mut Src, s: &str) -> String {
    match src.below(6) {
        0 | 1 | 2 => s.to_string(),
        3 => crate::gen::flip_case(src, s),
        4 => format!("{}x", s),
        _ => {
            let t: String = s.chars().skip(1).collect();
            if t.is_empty() { s.to_string() } else { t }
        }
    }
}
