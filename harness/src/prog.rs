//! Programs of transformations as data, and the reference interpreter: an eager evaluation
//! on trees, written from the documented meaning of each operation.

use crate::refparse::{name_rule, NameErr};
use crate::tree::*;
use std::collections::BTreeMap;
use std::rc::Rc;

/// How a selection is made.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Sel {
    /// Static selector text.
    Static(String),
    Tag(String),
    Id(String),
    Class(String),
    Classes(Vec<String>),
    /// User-written selector; records its calls under the site.
    Custom(Pred, usize),
    /// A selector construction that failed with this error.
    Fail(Fail),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Pred {
    All,
    None,
    /// Name of the tag starts with the letter.
    Starts(char),
    HasAttrs,
    /// Every n-th element asked about, from the given one on: keeps count of its questions.
    Nth(usize, usize),
}

/// How a text is supplied.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Way {
    DataDyn,
    DataStatic,
    DataRef,
    ValueDyn,
    ValueStatic,
    ValueRef,
    Str,
    OkData,
    OkStr,
    Boxed,
    Cell,
}

pub const WAYS: &[Way] = &[
    Way::DataDyn, Way::DataStatic, Way::DataRef, Way::ValueDyn, Way::ValueStatic, Way::ValueRef,
    Way::Str, Way::OkData, Way::OkStr, Way::Boxed, Way::Cell,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TplWay {
    Owned,
    Ref,
    Rc,
    Ok,
    Stream,
    BoxedStream,
    Cell,
    /// A stream of a template that is gone when the stream is asked.
    Short,
}
pub const TPL_WAYS: &[TplWay] = &[
    TplWay::Owned, TplWay::Ref, TplWay::Rc, TplWay::Ok, TplWay::Stream, TplWay::BoxedStream,
    TplWay::Cell, TplWay::Short,
];

/// How a user-written stream is handed over.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum UWay {
    Own,
    Boxed,
    BoxedTwice,
    Cell,
    Ok,
    OkBoxed,
    /// A stream that works with templates while it is asked.
    Busy,
}
pub const UWAYS: &[UWay] =
    &[UWay::Own, UWay::Boxed, UWay::BoxedTwice, UWay::Cell, UWay::Ok, UWay::OkBoxed, UWay::Busy];

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Content {
    Text(String, Way),
    Num(i128, Int),
    /// Template of the pool.
    Tpl(usize, TplWay),
    /// `with_element`, or `with_transformed_element` if there is a body.
    NewElem(String, Option<Rc<Body>>),
    /// The pool template, transformed first.
    Transformed(usize, Rc<Body>),
    /// Item of the innermost repetition (or option/result) as text.
    Item,
    /// A user-written stream over the events of a pool template that records its calls.
    User { tpl: usize, site: usize, fail_after: Option<(usize, Fail)>, way: UWay },
    Fail(Fail),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Int { Usize, U8, U16, U32, U64, Isize, I8, I16, I32, I64 }
pub const INTS: &[Int] = &[
    Int::Usize, Int::U8, Int::U16, Int::U32, Int::U64, Int::Isize, Int::I8, Int::I16, Int::I32,
    Int::I64,
];

/// Errors, as a specification the real error can be built from.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    Ident(NameErr),
    SelTag(NameErr),
    SelId(NameErr),
    SelClass(NameErr),
    SelClasses(usize, NameErr),
    SelClassesEmpty,
    StaticNothing,
    StaticTag(NameErr),
    StaticId(NameErr),
    StaticClass(usize, NameErr),
    /// Parsing this text fails.
    Parse(String),
    /// Text too long for the limit.
    Length(String, usize),
    /// Loading this file fails.
    File(String),
    /// Loading this file of the harness fails, with a length limit.
    Data(&'static str, Option<usize>),
    /// Made by the user: assertion with the given name.
    User(String),
}

/// Attribute values.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    Text(String, VWay),
    Num(i128, Int),
    Item,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum VWay { Dyn, Static, Ref, Str }
pub const VWAYS: &[VWay] = &[VWay::Dyn, VWay::Static, VWay::Ref, VWay::Str];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum NWay { Str, Owned, Ref, Res }
pub const NWAYS: &[NWay] = &[NWay::Str, NWay::Owned, NWay::Ref, NWay::Res];

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Name {
    pub text: String,
    pub way: NWay,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Scope { Any, Once, Direct, DirectOnce }
pub const SCOPES: &[Scope] = &[Scope::Any, Scope::Once, Scope::Direct, Scope::DirectOnce];

impl Scope {
    pub fn once(self) -> bool {
        matches!(self, Scope::Once | Scope::DirectOnce)
    }
    pub fn direct(self) -> bool {
        matches!(self, Scope::Direct | Scope::DirectOnce)
    }
}

/// What a builder closure does: on its n-th call it uses variant n modulo the number of them.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Body {
    pub site: usize,
    pub variants: Vec<Vec<Op>>,
    /// Every variant hands on a single element.
    pub elem: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Select(Scope, Sel, Rc<Body>),
    Subselect(Scope, Sel, Rc<Body>),
    SubContents(Rc<Body>),
    Remove,
    Append(Content),
    Prepend(Content),
    Replace(Content),
    RemoveC,
    AppendC(Content),
    PrependC(Content),
    ReplaceC(Content),
    Repeat(Items, Rc<Body>),
    RepeatElse(Items, Rc<Body>, Rc<Body>),
    RepeatC(Items, Rc<Body>),
    RepeatCElse(Items, Rc<Body>, Rc<Body>),
    AddAttr(Name, Option<Val>),
    AddAttrV(Name, Val),
    AddEmpty(Name),
    AddTo(Name, Val, Val),
    ReplaceIf(Name, Val),
    SetAttr(Name, Option<Val>),
    SetAttrV(Name, Val),
    SetEmpty(Name),
    RemoveAttr(Name),
    AddClass(Name),
    RemoveClass(Name),
    RemoveId,
    SetId(Name),
    Apply(Rc<Body>),
    ApplyIf(bool, Rc<Body>),
    ApplyIfElse(bool, Rc<Body>, Rc<Body>),
    ApplyOpt(Option<i64>, Rc<Body>, Rc<Body>),
    ApplyRes(Result<i64, i64>, Rc<Body>, Rc<Body>),
    ApplyBoxed(Rc<Body>),
    ApplyBoxedElem(Rc<Body>),
    Box,
    BoxElem,
    AsTpl(Rc<Body>),
    /// apply_as_template whose closure returns this error.
    AsTplFail(Fail),
    /// apply_as_template that notes what it was given and hands it on.
    Look(usize),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Items {
    pub site: usize,
    pub items: Vec<i64>,
}

/// What was observed per site: builder calls, looks, iterator and stream calls.
pub type Log = BTreeMap<usize, Vec<String>>;

pub struct Model<'a> {
    pub pool: &'a [Vec<Node>],
    pub log: Log,
    pub calls: BTreeMap<usize, usize>,
    /// Work bound: nodes produced.
    pub fuel: usize,
    /// How often each kind of operation ran.
    pub ran: BTreeMap<&'static str, u64>,
    /// Elements visited by selections.
    pub visits: u64,
    /// A transformation inside some content failed: how far it came before
    /// that is nobody's business, so what user code saw is not compared.
    pub cut_short: bool,
    /// What each user-written selector was asked about, per site and selection.
    pub asks: Asks,
}

pub type Asks = BTreeMap<usize, Vec<Vec<String>>>;

pub fn op_name(op: &Op) -> &'static str {
    use Op::*;
    match op {
        Select(Scope::Any, ..) => "select",
        Select(Scope::Once, ..) => "select_once",
        Select(Scope::Direct, ..) => "select_direct",
        Select(Scope::DirectOnce, ..) => "select_direct_once",
        Subselect(Scope::Any, ..) => "subselect",
        Subselect(Scope::Once, ..) => "subselect_once",
        Subselect(Scope::Direct, ..) => "subselect_direct",
        Subselect(Scope::DirectOnce, ..) => "subselect_direct_once",
        SubContents(_) => "subselect_contents",
        Remove => "remove",
        Append(_) => "append",
        Prepend(_) => "prepend",
        Replace(_) => "replace",
        RemoveC => "remove_contents",
        AppendC(_) => "append_contents",
        PrependC(_) => "prepend_contents",
        ReplaceC(_) => "replace_contents",
        Repeat(..) => "repeat",
        RepeatElse(..) => "repeat_or_else",
        RepeatC(..) => "repeat_contents",
        RepeatCElse(..) => "repeat_contents_or_else",
        AddAttr(..) => "add_attribute",
        AddAttrV(..) => "add_attribute_with_value",
        AddEmpty(_) => "add_empty_attribute",
        AddTo(..) => "add_to_attribute",
        ReplaceIf(..) => "replace_attribute_value_if_exists",
        SetAttr(..) => "set_attribute",
        SetAttrV(..) => "set_attribute_with_value",
        SetEmpty(_) => "set_empty_attribute",
        RemoveAttr(_) => "remove_attribute",
        AddClass(_) => "add_class",
        RemoveClass(_) => "remove_class",
        RemoveId => "remove_id",
        SetId(_) => "set_id",
        Apply(_) => "apply",
        ApplyIf(..) => "apply_if",
        ApplyIfElse(..) => "apply_if_else",
        ApplyOpt(..) => "apply_with_option",
        ApplyRes(..) => "apply_with_result",
        ApplyBoxed(_) => "apply_as_boxed",
        ApplyBoxedElem(_) => "apply_as_boxed_element",
        Box => "into_boxed",
        BoxElem => "into_boxed_element",
        AsTpl(_) | Look(_) | AsTplFail(_) => "apply_as_template",
    }
}

pub const OPS: &[&str] = &[
    "select", "select_once", "select_direct", "select_direct_once", "subselect", "subselect_once",
    "subselect_direct", "subselect_direct_once", "subselect_contents", "remove", "append", "prepend",
    "replace", "remove_contents", "append_contents", "prepend_contents", "replace_contents", "repeat",
    "repeat_or_else", "repeat_contents", "repeat_contents_or_else", "add_attribute",
    "add_attribute_with_value", "add_empty_attribute", "add_to_attribute",
    "replace_attribute_value_if_exists", "set_attribute", "set_attribute_with_value",
    "set_empty_attribute", "remove_attribute", "add_class", "remove_class", "remove_id", "set_id",
    "apply", "apply_if", "apply_if_else", "apply_with_option", "apply_with_result", "apply_as_boxed",
    "apply_as_boxed_element", "into_boxed", "into_boxed_element", "apply_as_template",
];

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    Fail(Fail),
    /// The program gets too big to be useful as a case.
    TooBig,
}

type R<T> = Result<T, Stop>;

pub fn encode(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' => o.push_str("&quot;"),
            c => o.push(c),
        }
    }
    o
}

pub fn classes(v: &str) -> Vec<&str> {
    v.split(|c: char| c.is_whitespace()).filter(|s| !s.is_empty()).collect()
}

pub fn has_class(e: &Elem, class: &str) -> bool {
    e.attrs.iter().any(|a| {
        ci(&a.name, "class")
            && a.value.as_ref().map_or(false, |v| classes(v).iter().any(|c| ci(c, class)))
    })
}

pub fn has_id(e: &Elem, id: &str) -> bool {
    e.attrs
        .iter()
        .any(|a| ci(&a.name, "id") && a.value.as_ref().map_or(false, |v| ci(v, id)))
}

/// The parts of a static selector, or the error of the first bad part.
pub fn static_parts(s: &str) -> Result<(Option<String>, Option<String>, Vec<String>), Fail> {
    let cut = s.find(|c| c == '#' || c == '.').unwrap_or(s.len());
    let (tag, rest) = s.split_at(cut);
    let tag = if tag.is_empty() {
        None
    } else {
        name_rule(tag).map_err(Fail::StaticTag)?;
        Some(tag.to_string())
    };
    let (id, rest) = match rest.strip_prefix('#') {
        None => (None, rest),
        Some(r) => {
            let end = r.find('.').unwrap_or(r.len());
            name_rule(&r[..end]).map_err(Fail::StaticId)?;
            (Some(r[..end].to_string()), &r[end..])
        }
    };
    let mut cl = Vec::new();
    if let Some(r) = rest.strip_prefix('.') {
        for (i, c) in r.split('.').enumerate() {
            name_rule(c).map_err(|e| Fail::StaticClass(i, e))?;
            cl.push(c.to_string());
        }
    }
    if tag.is_none() && id.is_none() && cl.is_empty() {
        return Err(Fail::StaticNothing);
    }
    Ok((tag, id, cl))
}

pub fn sel_check(sel: &Sel) -> Result<(), Fail> {
    match sel {
        Sel::Static(s) => static_parts(s).map(|_| ()),
        Sel::Tag(s) => name_rule(s).map_err(Fail::SelTag),
        Sel::Id(s) => name_rule(s).map_err(Fail::SelId),
        Sel::Class(s) => name_rule(s).map_err(Fail::SelClass),
        Sel::Classes(v) => {
            for (i, c) in v.iter().enumerate() {
                name_rule(c).map_err(|e| Fail::SelClasses(i, e))?;
            }
            if v.is_empty() {
                return Err(Fail::SelClassesEmpty);
            }
            Ok(())
        }
        Sel::Custom(..) => Ok(()),
        Sel::Fail(f) => Err(f.clone()),
    }
}

pub fn pred(p: &Pred, e: &Elem) -> bool {
    match p {
        Pred::All => true,
        Pred::None => false,
        Pred::Starts(c) => e.name.starts_with(*c),
        Pred::HasAttrs => !e.attrs.is_empty(),
        Pred::Nth(..) => false,
    }
}

impl<'a> Model<'a> {
    pub fn new(pool: &'a [Vec<Node>], fuel: usize) -> Model<'a> {
        Model { pool, log: Log::new(), calls: BTreeMap::new(), fuel, ran: BTreeMap::new(), visits: 0, cut_short: false, asks: Asks::new() }
    }

    fn burn(&mut self, n: usize) -> R<()> {
        if self.fuel < n {
            return Err(Stop::TooBig);
        }
        self.fuel -= n;
        Ok(())
    }

    pub fn note(&mut self, site: usize, what: String) {
        self.log.entry(site).or_default().push(what);
    }

    pub fn matches(&mut self, sel: &Sel, e: &Elem) -> bool {
        match sel {
            Sel::Static(s) => {
                let (t, i, c) = static_parts(s).unwrap();
                t.map_or(true, |t| ci(&t, &e.name))
                    && i.map_or(true, |i| has_id(e, &i))
                    && c.iter().all(|c| has_class(e, c))
            }
            Sel::Tag(t) => ci(t, &e.name),
            Sel::Id(i) => has_id(e, i),
            Sel::Class(c) => has_class(e, c),
            Sel::Classes(v) => v.iter().all(|c| has_class(e, c)),
            Sel::Custom(p, site) => {
                let n = if *site == 0 {
                    0
                } else {
                    let list = self.asks.get_mut(site).and_then(|l| l.last_mut()).expect("no selection");
                    list.push(start_tag(e));
                    list.len() - 1
                };
                match p {
                    Pred::Nth(every, from) => n >= *from && (n - from) % every == 0,
                    p => pred(p, e),
                }
            }
            Sel::Fail(_) => false,
        }
    }

    fn selection(&mut self, sel: &Sel) {
        if let Sel::Custom(_, site) = sel {
            self.asks.entry(*site).or_default().push(vec![]);
        }
    }

    fn call(&mut self, body: &Body, env: &Env) -> usize {
        let n = self.calls.entry(body.site).or_insert(0);
        let now = *n;
        *n += 1;
        let item = env.item.map(|i| i.to_string()).unwrap_or_default();
        self.note(body.site, format!("call {} item {}", now, item));
        now % body.variants.len()
    }

    pub fn body(&mut self, body: &Body, env: &Env, cur: Vec<Node>) -> R<Vec<Node>> {
        let v = self.call(body, env);
        self.ops(&body.variants[v], env, cur)
    }

    pub fn ops(&mut self, ops: &[Op], env: &Env, mut cur: Vec<Node>) -> R<Vec<Node>> {
        for op in ops {
            self.burn(1 + count(&cur) / 4)?;
            cur = self.op(op, env, cur)?;
        }
        Ok(cur)
    }

    /// Content is made when the operation is built; a failing one fails only if used.
    fn content(&mut self, c: &Content, env: &Env) -> R<Result<Vec<Node>, Fail>> {
        Ok(Ok(match c {
            Content::Text(s, _) => {
                self.burn(s.len() / 64)?;
                vec![Node::Text(encode(s))]
            }
            Content::Num(n, _) => vec![Node::Text(n.to_string())],
            Content::Tpl(i, _) => {
                self.burn(count(&self.pool[*i]))?;
                self.pool[*i].clone()
            }
            Content::NewElem(name, body) => {
                if let Err(e) = crate::refparse::element_name_rule(name) {
                    return Ok(Err(Fail::Ident(e)));
                }
                let kind = if is_void(name) { Kind::Void } else { Kind::SelfClosed };
                let base = vec![Node::Elem(Elem { name: name.clone(), attrs: vec![], kind })];
                match body {
                    None => base,
                    Some(b) => match self.body(b, env, base) {
                        Ok(v) => v,
                        Err(Stop::Fail(f)) => {
                            self.cut_short = true;
                            return Ok(Err(f));
                        }
                        Err(e) => return Err(e),
                    },
                }
            }
            Content::Transformed(i, b) => {
                self.burn(count(&self.pool[*i]))?;
                let base = self.pool[*i].clone();
                match self.body(b, env, base) {
                    Ok(v) => v,
                    Err(Stop::Fail(f)) => {
                            self.cut_short = true;
                            return Ok(Err(f));
                        }
                    Err(e) => return Err(e),
                }
            }
            Content::Item => vec![Node::Text(env.item_text())],
            Content::User { tpl, fail_after, .. } => {
                if let Some((_, f)) = fail_after {
                    return Ok(Err(f.clone()));
                }
                self.burn(count(&self.pool[*tpl]))?;
                self.pool[*tpl].clone()
            }
            Content::Fail(f) => return Ok(Err(f.clone())),
        }))
    }

    fn val(&self, v: &Val, env: &Env) -> String {
        match v {
            Val::Text(s, _) => encode(s),
            Val::Num(n, _) => n.to_string(),
            Val::Item => env.item_text(),
        }
    }

    fn op(&mut self, op: &Op, env: &Env, cur: Vec<Node>) -> R<Vec<Node>> {
        use Op::*;
        *self.ran.entry(op_name(op)).or_insert(0) += 1;
        Ok(match op {
            Select(scope, sel, body) => {
                sel_check(sel).map_err(Stop::Fail)?;
                self.selection(sel);
                self.select(*scope, sel, body, env, cur)?
            }
            Subselect(scope, sel, body) => {
                sel_check(sel).map_err(Stop::Fail)?;
                self.selection(sel);
                self.contents(cur, |m, c| m.select(*scope, sel, body, env, c))?
            }
            SubContents(body) => self.contents(cur, |m, c| m.body(body, env, c))?,
            Remove => vec![],
            Append(c) => {
                let add = self.content(c, env)?;
                let mut cur = cur;
                cur.extend(add.map_err(Stop::Fail)?);
                cur
            }
            Prepend(c) => {
                let add = self.content(c, env)?;
                let mut out = add.map_err(Stop::Fail)?;
                out.extend(cur);
                out
            }
            Replace(c) => {
                let add = self.content(c, env)?;
                add.map_err(Stop::Fail)?
            }
            RemoveC => self.contents(cur, |_, _| Ok(vec![]))?,
            AppendC(c) => {
                let add = self.content(c, env)?;
                self.contents(cur, |_, mut c| {
                    c.extend(add.map_err(Stop::Fail)?);
                    Ok(c)
                })?
            }
            PrependC(c) => {
                let add = self.content(c, env)?;
                self.contents(cur, |_, c| {
                    let mut out = add.map_err(Stop::Fail)?;
                    out.extend(c);
                    Ok(out)
                })?
            }
            ReplaceC(c) => {
                let add = self.content(c, env)?;
                self.contents(cur, |_, _| add.map_err(Stop::Fail))?
            }
            Repeat(items, body) => self.repeat(items, body, env, cur)?,
            RepeatElse(items, body, other) => {
                if items.items.is_empty() {
                    self.body(other, env, cur)?
                } else {
                    self.repeat(items, body, env, cur)?
                }
            }
            RepeatC(items, body) => self.contents(cur, |m, c| m.repeat(items, body, env, c))?,
            RepeatCElse(items, body, other) => {
                if items.items.is_empty() {
                    self.body(other, env, cur)?
                } else {
                    self.contents(cur, |m, c| m.repeat(items, body, env, c))?
                }
            }
            AddAttr(n, v) => {
                let v = v.as_ref().map(|v| self.val(v, env));
                self.attrs(cur, &n.text, |a, n| a.push(Attr { name: n.into(), value: v }))?
            }
            AddAttrV(n, v) => {
                let v = self.val(v, env);
                self.attrs(cur, &n.text, |a, n| a.push(Attr { name: n.into(), value: Some(v) }))?
            }
            AddEmpty(n) => {
                self.attrs(cur, &n.text, |a, n| a.push(Attr { name: n.into(), value: None }))?
            }
            AddTo(n, v, sep) => {
                let v = self.val(v, env);
                let sep = self.val(sep, env);
                self.attrs(cur, &n.text, |a, n| add_to(a, n, &v, &sep))?
            }
            ReplaceIf(n, v) => {
                let v = self.val(v, env);
                self.attrs(cur, &n.text, |a, n| {
                    if a.iter().any(|x| ci(&x.name, n)) {
                        set(a, n, Some(v));
                    }
                })?
            }
            SetAttr(n, v) => {
                let v = v.as_ref().map(|v| self.val(v, env));
                self.attrs(cur, &n.text, |a, n| set(a, n, v))?
            }
            SetAttrV(n, v) => {
                let v = self.val(v, env);
                self.attrs(cur, &n.text, |a, n| set(a, n, Some(v)))?
            }
            SetEmpty(n) => self.attrs(cur, &n.text, |a, n| set(a, n, None))?,
            RemoveAttr(n) => self.attrs(cur, &n.text, |a, n| a.retain(|x| !ci(&x.name, n)))?,
            AddClass(n) => self.attrs(cur, &n.text, |a, n| add_to(a, "class", n, " "))?,
            RemoveClass(n) => self.attrs(cur, &n.text, |a, n| {
                let old = std::mem::take(a);
                for x in old {
                    let hit = ci(&x.name, "class")
                        && x.value.as_ref().map_or(false, |v| classes(v).iter().any(|c| ci(c, n)));
                    if !hit {
                        a.push(x);
                        continue;
                    }
                    let v = x.value.unwrap();
                    let left: Vec<&str> =
                        classes(&v).into_iter().filter(|c| !ci(c, n)).collect();
                    if !left.is_empty() {
                        a.push(Attr { name: x.name, value: Some(left.join(" ")) });
                    }
                }
            })?,
            RemoveId => self.attrs(cur, "id", |a, _| a.retain(|x| !ci(&x.name, "id")))?,
            SetId(n) => self.attrs(cur, &n.text, |a, n| set(a, "id", Some(n.to_string())))?,
            Apply(b) | ApplyBoxed(b) | ApplyBoxedElem(b) | AsTpl(b) => self.body(b, env, cur)?,
            ApplyIf(c, b) => {
                if *c {
                    self.body(b, env, cur)?
                } else {
                    cur
                }
            }
            ApplyIfElse(c, b1, b2) => self.body(if *c { b1 } else { b2 }, env, cur)?,
            ApplyOpt(o, b1, b2) => match o {
                Some(i) => self.body(b1, &env.with(*i), cur)?,
                None => self.body(b2, env, cur)?,
            },
            ApplyRes(r, b1, b2) => match r {
                Ok(i) => self.body(b1, &env.with(*i), cur)?,
                Err(i) => self.body(b2, &env.with(*i), cur)?,
            },
            Box | BoxElem => cur,
            AsTplFail(f) => return Err(Stop::Fail(f.clone())),
            Look(site) => {
                let mut t = Vec::new();
                flatten(&cur, &mut t);
                let s = render_toks(&merge_text(t));
                self.note(*site, format!("look {}", s));
                cur
            }
        })
    }

    fn repeat(&mut self, items: &Items, body: &Body, env: &Env, cur: Vec<Node>) -> R<Vec<Node>> {
        let mut out = Vec::new();
        for i in &items.items {
            self.burn(1 + count(&cur))?;
            let part = self.body(body, &env.with(*i), cur.clone())?;
            out.extend(part);
        }
        Ok(out)
    }

    /// Transform the contents of the single element.
    fn contents(
        &mut self,
        cur: Vec<Node>,
        f: impl FnOnce(&mut Self, Vec<Node>) -> R<Vec<Node>>,
    ) -> R<Vec<Node>> {
        let mut it = cur.into_iter();
        let (Some(Node::Elem(mut e)), None) = (it.next(), it.next()) else {
            panic!("model: not a single element");
        };
        let (close, children) = match e.kind {
            Kind::Void => return Ok(vec![Node::Elem(e)]),
            Kind::SelfClosed => (e.name.clone(), vec![]),
            Kind::Normal { close, children } => (close, children),
        };
        let children = f(self, children)?;
        e.kind = Kind::Normal { close, children };
        Ok(vec![Node::Elem(e)])
    }

    fn attrs(
        &mut self,
        mut cur: Vec<Node>,
        name: &str,
        f: impl FnOnce(&mut Vec<Attr>, &str),
    ) -> R<Vec<Node>> {
        name_rule(name).map_err(|e| Stop::Fail(Fail::Ident(e)))?;
        match &mut cur[..] {
            [Node::Elem(e)] => f(&mut e.attrs, name),
            _ => panic!("model: not a single element"),
        }
        Ok(cur)
    }

    fn select(
        &mut self,
        scope: Scope,
        sel: &Sel,
        body: &Body,
        env: &Env,
        cur: Vec<Node>,
    ) -> R<Vec<Node>> {
        let mut done = false;
        self.select_in(scope, sel, body, env, cur, &mut done)
    }

    fn select_in(
        &mut self,
        scope: Scope,
        sel: &Sel,
        body: &Body,
        env: &Env,
        cur: Vec<Node>,
        done: &mut bool,
    ) -> R<Vec<Node>> {
        let mut out = Vec::new();
        for node in cur {
            match node {
                Node::Elem(e) if !*done => {
                    if self.matches(sel, &e) {
                        if scope.once() {
                            *done = true;
                        }
                        self.visits += 1;
                        let new = self.body(body, env, vec![Node::Elem(e)])?;
                        out.extend(new);
                        continue;
                    }
                    let Elem { name, attrs, kind } = e;
                    let kind = match kind {
                        Kind::Normal { close, children } if !scope.direct() => {
                            let children =
                                self.select_in(scope, sel, body, env, children, done)?;
                            Kind::Normal { close, children }
                        }
                        k => k,
                    };
                    out.push(Node::Elem(Elem { name, attrs, kind }));
                }
                other => out.push(other),
            }
        }
        Ok(out)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Env {
    pub item: Option<i64>,
}

impl Env {
    pub fn with(&self, item: i64) -> Env {
        Env { item: Some(item) }
    }
    pub fn item_text(&self) -> String {
        match self.item {
            Some(i) => format!("item{}", i),
            None => "no item".into(),
        }
    }
}

fn add_to(a: &mut Vec<Attr>, name: &str, v: &str, sep: &str) {
    for x in a.iter_mut() {
        if ci(&x.name, name) {
            x.value = Some(match x.value.take() {
                None => v.to_string(),
                Some(old) => format!("{}{}{}", old, sep, v),
            });
            return;
        }
    }
    a.push(Attr { name: name.into(), value: Some(v.into()) });
}

fn set(a: &mut Vec<Attr>, name: &str, v: Option<String>) {
    a.retain(|x| !ci(&x.name, name));
    a.push(Attr { name: name.into(), value: v });
}

/// The element's start tag as it is rendered.
pub fn start_tag(e: &Elem) -> String {
    let mut s = format!("<{}", e.name);
    attrs_str(&e.attrs, &mut s);
    s.push_str(if let Kind::SelfClosed = e.kind { " />" } else { ">" });
    s
}

/// Work in a list of nodes: their number, and the length of their texts.
pub fn count(nodes: &[Node]) -> usize {
    const PER: usize = 64;
    nodes
        .iter()
        .map(|n| match n {
            Node::Elem(e) => {
                let a: usize = e
                    .attrs
                    .iter()
                    .map(|a| 1 + a.name.len() / PER + a.value.as_ref().map_or(0, |v| v.len() / PER))
                    .sum();
                1 + a
                    + match e.kind {
                        Kind::Normal { ref children, .. } => count(children),
                        _ => 0,
                    }
            }
            Node::Text(s) | Node::Raw(s) | Node::Comment(s) | Node::Doctype(s) => 1 + s.len() / PER,
        })
        .sum()
}
