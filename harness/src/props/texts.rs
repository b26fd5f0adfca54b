//! C07-C09 and C18: texts, names, selectors and equality.

use crate::choice::Src;
use crate::gen::*;
use crate::h::*;
use crate::prog::*;
use crate::progen::{any_int, bad_name};
use crate::real::{self, err_text, intern, make_err, name_err, RealEnv};
use crate::refparse::{self, element_name_rule, name_rule, NameErr};
use crate::run::{fam, Ctx, Family, Prop, Res};
use crate::tree::*;
use html5_fuser::event::{Event, IntoStream, Stream};
use html5_fuser::select::{self, IntoSelector, Selector};
use html5_fuser::text::{Data, Identifier, IdentifierError, IntoIdentifier, IntoValue, Value};
use html5_fuser::{ParseOptions, StreamError, Template};
use std::borrow::Cow;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            rule: "Texts of any Unicode, rich in markup characters, entities and pieces of tags (and every Unicode character on its own), are put into small documents by every operation that takes content or values and in every way of supplying a text; what was added to the output is decoded as an HTML reader does. Non-trivial: the text holds a character that needs encoding; distinct by text.",
            families: vec![
                fam("all characters", c07_chars, 17_408, 17_408),
                fam("all ways", c07_ways, 30_000, 150_000),
                fam("joined values", c07_joined, 240_000, 1_200_000),
                fam("texts beside texts", c07_beside, 180_000, 900_000),
                fam("numbers", c07_numbers, 120_000, 400_000),
            ],
            assumptions: &[
                "the decoder knows the entities amp, lt, gt, quot, apos and the numeric ones",
                "texts above 4 GiB are not tried",
            ],
            needs: &["content decoded", "values decoded", "joined values decoded", "numbers read"],
            extra: None,
        },
        Prop {
            id: "C08",
            rule: "All strings of up to two characters over ASCII and some other characters, and random names with and without forbidden characters, supplied in every way a name can be: markup, FromStr, static texts, selectors of each kind, element creation, attribute operations. Non-trivial: all; distinct by name (or pair of names).",
            families: vec![
                fam("one character", c08_one, 420, 420),
                fam("two characters", c08_two, 18_769, 18_769),
                fam("in context", c08_mid, 160_000, 800_000),
                fam("random", c08_random, 120_000, 600_000),
                fam("pairs", c08_pairs, 240_000, 1_000_000),
            ],
            assumptions: &["static texts are leaked by the harness, one per distinct name"],
            needs: &["names accepted", "names refused", "pairs equal", "pairs different", "read back"],
            extra: None,
        },
        Prop {
            id: "C09",
            rule: "Elements with random names, id, class and other attributes (doubled, empty, without value, odd separators, near misses) against selectors of every kind made from their own and other words; the answer of Selector::matches for each event of the stream and the elements select visits are compared with the rule restated. Ill-formed selectors: error compared in full. Non-trivial: a selector that matches some but not all elements, or an ill-formed one; distinct by document and selector.",
            families: vec![
                fam("matches", c09_matches, 600_000, 3_000_000),
                fam("ill-formed", c09_bad, 300_000, 1_500_000),
                fam("short static selectors", c09_short, 300_000, 600_000),
            ],
            assumptions: &["values are compared as they stand in the markup, encoded"],
            needs: &["matching elements", "other elements", "events without selector meaning", "errors compared"],
            extra: None,
        },
        Prop {
            id: "C18",
            rule: "Pairs of texts, values, names, events and templates with the same content or content that differs in one detail, each built by a randomly chosen route (markup in different spellings, static, dynamic, number, conversion, clone, transformation, insertion as a stream); == must agree with equality of content, both ways round. One pair among very many compared in between. Non-trivial: routes differ; distinct by content and routes.",
            families: vec![
                fam("texts", c18_texts, 480_000, 2_000_000),
                fam("templates", c18_templates, 480_000, 2_000_000),
                fam("events", c18_events, 80_000, 300_000),
                Family { shrink: false, ..fam("one among many", c18_many, 16, 64) },
            ],
            assumptions: &[],
            needs: &["equal texts", "different texts", "equal templates", "different templates"],
            extra: None,
        },
    ]
}

// ---------------------------------------------------------------- C07

/// The text an HTML reader sees. None where it is not safe to say.
pub fn decode(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        let body = &rest[1..];
        let end = body.find(|c: char| !c.is_ascii_alphanumeric() && c != '#').unwrap_or(body.len());
        let name = &body[..end];
        if name.is_empty() {
            out.push('&');
            rest = body;
            continue;
        }
        if !body[end..].starts_with(';') {
            return Err(format!("unfinished character reference &{}", name));
        }
        let c = match name {
            "amp" => Some('&'),
            "lt" => Some('<'),
            "gt" => Some('>'),
            "quot" => Some('"'),
            "apos" => Some('\''),
            _ => match name.strip_prefix('#') {
                Some(n) => match n.strip_prefix(|c| c == 'x' || c == 'X') {
                    Some(h) => u32::from_str_radix(h, 16).ok().and_then(char::from_u32),
                    None => n.parse().ok().and_then(char::from_u32),
                },
                None => None,
            },
        };
        match c {
            Some(c) => out.push(c),
            None => return Err(format!("unknown character reference &{};", name)),
        }
        rest = &body[end + 1..];
    }
    out.push_str(rest);
    Ok(out)
}

pub fn decode_text(s: &str) -> Result<String, String> {
    if s.contains('<') {
        return Err("a '<' in the text".into());
    }
    decode(s)
}

pub fn decode_value(s: &str) -> Result<String, String> {
    if s.contains('"') {
        return Err("a quote in the value".into());
    }
    decode(s)
}

pub fn cut<'a>(out: &'a str, pre: &str, post: &str) -> Result<&'a str, String> {
    if out.len() >= pre.len() + post.len() && out.starts_with(pre) && out.ends_with(post) {
        Ok(&out[pre.len()..out.len() - post.len()])
    } else {
        Err(format!("something else changed: expected {} ... {}, got {}", show(pre), show(post), show(out)))
    }
}

pub fn means(ctx: &mut Ctx, what: &str, counter: &str, got: Result<String, String>, want: &str, part: &str) -> Res {
    match got {
        Ok(ref s) if s == want => {
            ctx.count(counter);
            Ok(())
        }
        Ok(s) => Err(format!("{}: an HTML reader sees {} instead of {} (output {})", what, show(&s), show(want), show(part))),
        Err(e) => Err(format!("{}: {} for the text {} (output {})", what, e, show(want), show(part))),
    }
}

/// Texts for C07: anything but half surrogates; the reader's own changes to
/// line ends are no business of the library.
fn c07_text(src: &mut Src) -> String {
    match src.below(6) {
        0 => text_without(src, "", 4),
        1 => {
            // around the sizes where buffers change their kind
            let n = *src.pick(&[7usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 255, 256, 4095, 4096, 4097]);
            let mut s: String = std::iter::repeat('x').take(n).collect();
            for _ in 0..src.below(4) {
                let at = src.below(s.len() + 1);
                if s.is_char_boundary(at) {
                    s.insert_str(at, *src.pick(&["<", "&", "\"", ">", "é", "&lt;", "'"]));
                }
            }
            s
        }
        2 => dict_text(src),
        _ => hostile_text(src),
    }
}

fn dict_text(src: &mut Src) -> String {
    let d = dict();
    if d.texts.is_empty() {
        return "<>".into();
    }
    src.pick(&d.texts).clone()
}

fn interesting(s: &str) -> bool {
    s.contains(|c| "<>&\"'".contains(c))
}

pub fn run_one(t: &Template, ops: &[Op], env: &Rc<RealEnv>) -> Result<String, String> {
    real::run(t, ops, env).map(|t| t.to_string()).map_err(|e| format!("an error came out of nowhere: {}", err_text(&e)))
}

pub fn on_p(ops: Vec<Op>) -> Vec<Op> {
    vec![Op::Select(Scope::Once, Sel::Tag("p".into()), Rc::new(Body { site: 1, variants: vec![ops], elem: false }))]
}

pub fn nm(s: &str) -> Name {
    Name { text: s.into(), way: NWay::Str }
}

fn c07_chars(ctx: &mut Ctx, src: &mut Src) -> Res {
    let base = ctx.index as u32 * 64;
    let _ = src.below(2);
    ctx.about(format!("characters from {:x}", base));
    for n in base..base + 64 {
        let Some(c) = char::from_u32(n) else { continue };
        for s in [c.to_string(), format!("a{}b", c), format!("{}{}", c, c)] {
            let w = format!("character {:x}", n);
            let d = Data::from_unencoded_str(&s).to_string();
            means(ctx, &w, "content decoded", decode_text(&d), &s, &d)?;
            let v = Value::from_unencoded_str(&s).to_string();
            means(ctx, &w, "values decoded", decode_value(&v), &s, &v)?;
            if n < 0x3000 || n % 64 == 5 {
                let st = intern(&s);
                for d2 in [
                    Data::from_unencoded_static_str(st).to_string(),
                    Data::from(Value::from_unencoded_str(&s)).to_string(),
                ] {
                    if d2 != d {
                        return Err(format!("{}: the same text gives {} and {}", w, show(&d), show(&d2)));
                    }
                }
                if Value::from_unencoded_static_str(st).to_string() != v {
                    return Err(format!("{}: the same value is encoded in two ways", w));
                }
                ctx.nontrivial(s.as_bytes());
            }
        }
    }
    Ok(())
}

fn c07_ways(ctx: &mut Ctx, src: &mut Src) -> Res {
    let s = c07_text(src);
    let host = *src.pick(&["p", "P", "title", "textarea", "x-y"]);
    let inner = *src.pick(&["t", "", "a&amp;b", "é;", "<b></b>"]);
    let inner = if is_raw(host) && inner == "<b></b>" { "t" } else { inner };
    let v0 = *src.pick(&["v", "", "a&lt;b", "é;", "a > b"]);
    let sep = *src.pick(&["", " ", ";", "\"", "&", "<b>", "lt;", "--"]);
    ctx.about(format!("text {} in <{} k=\"{}\">{}", show(&s), host, v0, inner));
    let head = format!("<{} k=\"{}\">", host, v0);
    let tail = format!("</{}>", host);
    let t = load(&format!("u{}{}{}u", head, inner, tail))?;
    let env = Rc::new(RealEnv::new(vec![]));
    let on = |ops: Vec<Op>| {
        vec![Op::Select(Scope::Any, Sel::Tag(host.into()), Rc::new(Body { site: 1, variants: vec![ops], elem: false }))]
    };
    let mut known: Option<String> = None;
    let mut same = |what: &str, x: &str| -> Res {
        match known {
            None => {
                known = Some(x.to_string());
                Ok(())
            }
            Some(ref k) if k == x => Ok(()),
            Some(ref k) => Err(format!("{}: the same text is written as {} and as {}", what, show(k), show(x))),
        }
    };
    // the objects themselves
    let st = intern(&s);
    let owned = s.clone();
    let d = Data::from_unencoded_str(&s);
    for (w, x) in [
        ("Data", d.to_string()),
        ("Data as_encoded_ref", d.as_encoded_ref().to_string()),
        ("Data of a String", Data::from_unencoded_str(owned.clone()).to_string()),
        ("Data of a Cow", Data::from_unencoded_str(Cow::from(&s[..])).to_string()),
        ("Data of a box", Data::from_unencoded_str(owned.clone().into_boxed_str()).to_string()),
        ("static Data", Data::from_unencoded_static_str(st).to_string()),
        ("static Data as_encoded_ref", Data::from_unencoded_static_str(st).as_encoded_ref().to_string()),
        ("Data from Value", Data::from(Value::from_unencoded_str(&s)).to_string()),
        ("Data from static Value", Data::from(Value::from_unencoded_static_str(st)).to_string()),
        ("Data from &str value", Data::from(st.into_value()).to_string()),
        ("Data clone", d.clone().to_string()),
    ] {
        means(ctx, w, "content decoded", decode_text(&x), &s, &x)?;
        same(w, &x)?;
    }
    for way in WAYS {
        let c = || Content::Text(s.clone(), *way);
        let cases: Vec<(&str, Vec<Op>, String, String)> = vec![
            ("append", vec![Op::Append(c())], format!("u{}{}{}", head, inner, tail), "u".into()),
            ("prepend", vec![Op::Prepend(c())], "u".into(), format!("{}{}{}u", head, inner, tail)),
            ("replace", vec![Op::Replace(c())], "u".into(), "u".into()),
            ("append_contents", vec![Op::AppendC(c())], format!("u{}{}", head, inner), format!("{}u", tail)),
            ("prepend_contents", vec![Op::PrependC(c())], format!("u{}", head), format!("{}{}u", inner, tail)),
            ("replace_contents", vec![Op::ReplaceC(c())], format!("u{}", head), format!("{}u", tail)),
        ];
        for (what, ops, pre, post) in cases {
            let out = run_one(&t, &on(ops), &env)?;
            let w = format!("{} with {:?}", what, way);
            let x = cut(&out, &pre, &post).map_err(|e| format!("{}: {}", w, e))?;
            means(ctx, &w, "content decoded", decode_text(x), &s, x)?;
            same(&w, x)?;
        }
    }
    // values
    let mut known: Option<String> = None;
    let mut same = |what: &str, x: &str| -> Res {
        match known {
            None => {
                known = Some(x.to_string());
                Ok(())
            }
            Some(ref k) if k == x => Ok(()),
            Some(ref k) => Err(format!("{}: the same text is written as {} and as {}", what, show(k), show(x))),
        }
    };
    let v = Value::from_unencoded_str(&s);
    for (w, x) in [
        ("Value", v.to_string()),
        ("Value as_encoded_ref", v.as_encoded_ref().to_string()),
        ("Value of a String", Value::from_unencoded_str(owned.clone()).to_string()),
        ("static Value", Value::from_unencoded_static_str(st).to_string()),
        ("into_value of a value", v.clone().into_value().to_string()),
        ("into_value of a reference", (&v).into_value().to_string()),
        ("into_value of a text", st.into_value().to_string()),
    ] {
        means(ctx, w, "values decoded", decode_value(&x), &s, &x)?;
        same(w, &x)?;
    }
    let start = format!("u<{}", host);
    let rest = format!("\">{}{}u", inner, tail);
    let dsep = |x: &str| -> Result<String, String> { decode_value(x) };
    for way in VWAYS {
        let v = || Val::Text(s.clone(), *way);
        let plain: Vec<(&str, Vec<Op>, String)> = vec![
            ("add_attribute_with_value", vec![Op::AddAttrV(nm("n"), v())], format!("{} k=\"{}\" n=\"", start, v0)),
            ("add_attribute", vec![Op::AddAttr(nm("n"), Some(v()))], format!("{} k=\"{}\" n=\"", start, v0)),
            ("set_attribute_with_value", vec![Op::SetAttrV(nm("k"), v())], format!("{} k=\"", start)),
            ("set_attribute", vec![Op::SetAttr(nm("K"), Some(v()))], format!("{} K=\"", start)),
            ("replace_attribute_value_if_exists", vec![Op::ReplaceIf(nm("k"), v())], format!("{} k=\"", start)),
            ("add_to_attribute (new)", vec![Op::AddTo(nm("n"), v(), Val::Text(sep.into(), *way))], format!("{} k=\"{}\" n=\"", start, v0)),
        ];
        for (what, ops, pre) in plain {
            let out = run_one(&t, &on(ops), &env)?;
            let w = format!("{} with {:?}", what, way);
            let x = cut(&out, &pre, &rest).map_err(|e| format!("{}: {}", w, e))?;
            means(ctx, &w, "values decoded", decode_value(x), &s, x)?;
            same(&w, x)?;
        }
        // joined
        let out = run_one(&t, &on(vec![Op::AddTo(nm("k"), v(), Val::Text(sep.into(), *way))]), &env)?;
        let pre = format!("{} k=\"{}", start, v0);
        let w = format!("add_to_attribute with {:?}", way);
        let x = cut(&out, &pre, &rest).map_err(|e| format!("{}: {}", w, e))?;
        means(ctx, &w, "joined values decoded", dsep(x), &format!("{}{}", sep, s), x)?;
        let out = run_one(&t, &on(vec![Op::AddTo(nm("k"), Val::Text(sep.into(), *way), v())]), &env)?;
        let w = format!("add_to_attribute, as separator, with {:?}", way);
        let x = cut(&out, &pre, &rest).map_err(|e| format!("{}: {}", w, e))?;
        means(ctx, &w, "joined values decoded", dsep(x), &format!("{}{}", s, sep), x)?;
    }
    if interesting(&s) {
        ctx.nontrivial(s.as_bytes());
    }
    ctx.sample(|| show(&s));
    Ok(())
}

fn a_val(src: &mut Src) -> (Val, String) {
    match src.below(5) {
        0 => {
            let (n, i) = any_int(src);
            (Val::Num(n, i), n.to_string())
        }
        _ => {
            let s = if src.chance(1, 3) { String::new() } else { c07_text(src) };
            (Val::Text(s.clone(), *src.pick(VWAYS)), s)
        }
    }
}

/// The same attribute, joined to several times, in one or several transformations.
fn c07_joined(ctx: &mut Ctx, src: &mut Src) -> Res {
    let v0 = src.pick(&[None, Some("v"), Some(""), Some("a&lt;b"), Some("&amp;lt;"), Some("é;")]).clone();
    let name = *src.pick(&["k", "K", "class", "id", "style"]);
    let other = if src.chance(1, 2) { " o=\"&quot;\"" } else { "" };
    let attr = match v0 {
        None if src.chance(1, 2) => format!(" {}", name),
        None => String::new(),
        Some(v) => format!(" {}=\"{}\"", name, v),
    };
    let mut have: Option<String> = if attr.contains('=') { Some(decode(v0.unwrap_or(""))?) } else { None };
    let mut markup = format!("<p{}{}>x</p>", attr, other);
    let env = Rc::new(RealEnv::new(vec![]));
    let n = src.range(1, 4);
    let apart = src.chance(1, 2);
    let reload = src.chance(1, 3);
    let mut ops = Vec::new();
    let mut all = String::new();
    let mut t = load(&markup)?;
    ctx.about(format!("{}", markup));
    for _ in 0..n {
        let (v, vs) = a_val(src);
        let (s, ss) = a_val(src);
        all.push_str(&vs);
        all.push_str(&ss);
        let nw = Name { text: flip_case(src, name), way: *src.pick(NWAYS) };
        have = Some(match have {
            None => vs,
            Some(h) => format!("{}{}{}", h, ss, vs),
        });
        ops.push(Op::AddTo(nw, v, s));
        ctx.about = format!("{} then {:?}", markup, ops);
        if apart {
            let list = on_p(std::mem::take(&mut ops));
            t = real::run(&t, &list, &env).map_err(|e| format!("an error came out of nowhere: {}", err_text(&e)))?;
            markup = t.to_string();
            if reload {
                t = load(&markup)?;
            }
        }
    }
    if !apart {
        t = real::run(&t, &on_p(ops), &env).map_err(|e| format!("an error came out of nowhere: {}", err_text(&e)))?;
    }
    let out = t.to_string();
    let toks = read(&out)?;
    let Some(Tok::Open(_, attrs)) = toks.first() else {
        return Err(format!("no element left: {}", show(&out)));
    };
    if toks.len() != 3 || attrs.len() != if other.is_empty() { 1 } else { 2 } {
        return Err(format!("markup came or went: {}", show(&out)));
    }
    let Some(a) = attrs.iter().find(|a| ci(&a.name, name)) else {
        return Err(format!("the attribute is gone: {}", show(&out)));
    };
    if attrs.iter().any(|a| a.name == "o" && a.value.as_deref() != Some("&quot;")) {
        return Err(format!("another attribute changed: {}", show(&out)));
    }
    let v = a.value.clone().unwrap_or_default();
    means(ctx, "joined value", "joined values decoded", decode_value(&v), &have.unwrap_or_default(), &v)?;
    if interesting(&all) {
        ctx.nontrivial(format!("{:?}{}", v0, all).as_bytes());
    }
    Ok(())
}

/// Several texts next to each other and to markup, through streams, repetition and pieces.
fn c07_beside(ctx: &mut Ctx, src: &mut Src) -> Res {
    let host = *src.pick(&["p", "title", "textarea"]);
    let mut want = "t".to_string();
    let mut ops = Vec::new();
    let env = Rc::new(RealEnv::new(vec![]));
    let mut all = String::new();
    let mut before = String::new();
    let mut after = String::new();
    for _ in 0..src.range(1, 6) {
        let (c, s) = match src.below(5) {
            0 => {
                let (n, i) = any_int(src);
                (Content::Num(n, i), n.to_string())
            }
            _ => {
                let s = c07_text(src);
                (Content::Text(s.clone(), *src.pick(WAYS)), s)
            }
        };
        all.push_str(&s);
        match src.below(6) {
            0 | 1 => {
                want.push_str(&s);
                ops.push(Op::AppendC(c));
            }
            2 => {
                want = format!("{}{}", s, want);
                ops.push(Op::PrependC(c));
            }
            3 => {
                want = s;
                ops.push(Op::ReplaceC(c));
            }
            4 => {
                let k = src.below(4);
                want = s.repeat(k);
                let b = Body { site: 2, variants: vec![vec![Op::Replace(c)]], elem: false };
                ops.push(Op::RepeatC(Items { site: 3, items: (0..k as i64).collect() }, Rc::new(b)));
            }
            _ => {
                // around the element; from here on it is no single element
                let mut rest = Vec::new();
                if src.chance(1, 2) {
                    rest.push(Op::Append(c));
                    after = s;
                } else {
                    rest.push(Op::Prepend(c));
                    before = s;
                }
                ops.extend(rest);
                break;
            }
        }
    }
    ctx.about(format!("<{}>t</{}> {:?}", host, host, ops));
    let t = load(&format!("<{}>t</{}>", host, host))?;
    let list = vec![Op::Select(Scope::Any, Sel::Tag(host.into()), Rc::new(Body { site: 1, variants: vec![ops], elem: false }))];
    let out = run_one(&t, &list, &env)?;
    let open = format!("<{}>", host);
    let close = format!("</{}>", host);
    let (a, rest) = out.split_once(&open).ok_or_else(|| format!("no element: {}", show(&out)))?;
    let (b, c) = rest.split_once(&close).ok_or_else(|| format!("no element: {}", show(&out)))?;
    means(ctx, "text before", "content decoded", decode_text(a), &before, a)?;
    means(ctx, "contents", "content decoded", decode_text(b), &want, b)?;
    means(ctx, "text after", "content decoded", decode_text(c), &after, c)?;
    if interesting(&all) {
        ctx.nontrivial(all.as_bytes());
    }
    Ok(())
}

fn c07_numbers(ctx: &mut Ctx, src: &mut Src) -> Res {
    let (n, i) = if ctx.index < 65536 {
        let n = ctx.index as i128;
        let ints: Vec<Int> = INTS.iter().cloned().filter(|i| !matches!(i, Int::U8 | Int::I8 | Int::I16)).collect();
        if src.chance(1, 2) { any_int(src) } else { (n, *src.pick(&ints)) }
    } else {
        any_int(src)
    };
    ctx.about(format!("{} as {:?}", n, i));
    let t = load("<p k=\"v\">t</p>")?;
    let env = Rc::new(RealEnv::new(vec![]));
    let sep = Val::Num(n, i);
    let all: Vec<(Op, String)> = vec![
        (Op::AppendC(Content::Num(n, i)), format!("<p k=\"v\">t{}</p>", n)),
        (Op::PrependC(Content::Num(n, i)), format!("<p k=\"v\">{}t</p>", n)),
        (Op::ReplaceC(Content::Num(n, i)), format!("<p k=\"v\">{}</p>", n)),
        (Op::Append(Content::Num(n, i)), format!("<p k=\"v\">t</p>{}", n)),
        (Op::Prepend(Content::Num(n, i)), format!("{}<p k=\"v\">t</p>", n)),
        (Op::Replace(Content::Num(n, i)), format!("{}", n)),
        (Op::AddAttrV(nm("n"), Val::Num(n, i)), format!("<p k=\"v\" n=\"{}\">t</p>", n)),
        (Op::SetAttrV(nm("k"), Val::Num(n, i)), format!("<p k=\"{}\">t</p>", n)),
        (Op::AddTo(nm("k"), Val::Num(n, i), sep), format!("<p k=\"v{}{}\">t</p>", n, n)),
        (Op::ReplaceIf(nm("k"), Val::Num(n, i)), format!("<p k=\"{}\">t</p>", n)),
    ];
    for (op, want) in all {
        let out = run_one(&t, &on_p(vec![op.clone()]), &env)?;
        if out != want {
            return Err(format!("{:?}: expected {}, got {}", op, want, out));
        }
        ctx.count("numbers read");
    }
    ctx.nontrivial(format!("{}{:?}", n, i).as_bytes());
    Ok(())
}

// ---------------------------------------------------------------- C08

fn rule_of(r: &Result<(), NameErr>) -> Result<(), IdentifierError> {
    match r {
        Ok(()) => Ok(()),
        Err(e) => Err(name_err(e)),
    }
}

fn verdict<T>(what: &str, got: Result<T, IdentifierError>, want: &Result<(), IdentifierError>) -> Result<Option<T>, String> {
    match (got, want) {
        (Ok(x), Ok(())) => Ok(Some(x)),
        (Err(ref a), Err(b)) if a == b => Ok(None),
        (Ok(_), Err(b)) => Err(format!("{}: accepted, expected {:?}", what, b)),
        (Err(a), w) => Err(format!("{}: {:?}, expected {:?}", what, a, w)),
    }
}

fn stream_verdict<T>(what: &str, got: Result<T, StreamError>, want: &Result<(), NameErr>) -> Result<Option<T>, String> {
    match (got, want) {
        (Ok(x), Ok(())) => Ok(Some(x)),
        (Err(e), Err(w)) => {
            let w = err_text(&make_err(&Fail::Ident(w.clone())));
            if err_text(&e) == w {
                Ok(None)
            } else {
                Err(format!("{}: {}, expected {}", what, err_text(&e), w))
            }
        }
        (Ok(_), Err(w)) => Err(format!("{}: accepted, expected {:?}", what, w)),
        (Err(e), Ok(())) => Err(format!("{}: {}, expected success", what, err_text(&e))),
    }
}

/// One name through every door.
pub fn one_name(ctx: &mut Ctx, s: &str) -> Res {
    ctx.about(format!("name {:?}", s));
    let r = name_rule(s);
    let el = element_name_rule(s);
    let want = rule_of(&r);
    let want_el = rule_of(&el);
    let st = intern(s);
    ctx.count(if r.is_ok() { "names accepted" } else { "names refused" });
    ctx.nontrivial(s.as_bytes());
    // names as such
    let mut got = Vec::new();
    got.push(verdict("parse", s.parse::<Identifier>(), &want)?);
    got.push(verdict("from_static_str", Identifier::from_static_str(st), &want)?);
    got.push(verdict("into_identifier", st.into_identifier(), &want)?);
    got.push(verdict("into_identifier of a result", s.parse::<Identifier>().into_identifier(), &want)?);
    for i in got.iter().flatten() {
        if &**i != s || i.to_string() != s {
            return Err(format!("the accepted name reads {:?} and {:?}", &**i, i.to_string()));
        }
        if (&*i).into_identifier().map(|i| i.to_string()) != Ok(s.to_string()) {
            return Err("the name changed when passed on by reference".into());
        }
    }
    if let Err(w) = &want {
        // the message tells what is wrong
        let m = w.to_string();
        let e = match s.parse::<Identifier>() {
            Err(e) => e.to_string(),
            Ok(_) => String::new(),
        };
        if m != e {
            return Err(format!("message {:?}, expected {:?}", e, m));
        }
    }
    // creation
    let env = Rc::new(RealEnv::new(vec![]));
    for (w, r) in [
        ("with_element", Template::with_element(st)),
        ("with_element of an identifier", s.parse::<Identifier>().and_then(|i| Template::with_element(i))),
        ("with_element of a result", Template::with_element(s.parse::<Identifier>())),
    ] {
        if let Some(t) = verdict(w, r, &want_el)? {
            let out = t.to_string();
            let x = if is_void(s) { format!("<{}>", s) } else { format!("<{} />", s) };
            if out != x {
                return Err(format!("{}: rendered as {}", w, show(&out)));
            }
            let back = drainable(&load(&out)?)?;
            if back != vec![x] {
                return Err(format!("{}: read back as {:?}", w, back));
            }
            ctx.count("read back");
        }
    }
    if let Some(t) = stream_verdict("with_transformed_element", Template::with_transformed_element(st, |h| h.set_id(st)), &el)? {
        let x = if is_void(s) { format!("<{} id=\"{}\">", s, s) } else { format!("<{} id=\"{}\" />", s, s) };
        if t.to_string() != x {
            return Err(format!("with_transformed_element: rendered as {}", show(&t.to_string())));
        }
    }
    // attribute operations
    let t = load("<p k=\"v\"></p>")?;
    let v = || Val::Text("w".into(), VWay::Str);
    for way in [NWay::Str, NWay::Res] {
        let n = || Name { text: s.into(), way };
        let hit = ci(s, "k");
        let ops: Vec<(Op, String)> = vec![
            (Op::AddAttr(n(), None), format!(" k=\"v\" {}", s)),
            (Op::AddAttrV(n(), v()), format!(" k=\"v\" {}=\"w\"", s)),
            (Op::AddEmpty(n()), format!(" k=\"v\" {}", s)),
            (Op::AddTo(n(), v(), v()), if hit { " k=\"vww\"".into() } else { format!(" k=\"v\" {}=\"w\"", s) }),
            (Op::ReplaceIf(n(), v()), if hit { format!(" {}=\"w\"", s) } else { " k=\"v\"".into() }),
            (Op::SetAttr(n(), None), if hit { format!(" {}", s) } else { format!(" k=\"v\" {}", s) }),
            (Op::SetAttrV(n(), v()), if hit { format!(" {}=\"w\"", s) } else { format!(" k=\"v\" {}=\"w\"", s) }),
            (Op::SetEmpty(n()), if hit { format!(" {}", s) } else { format!(" k=\"v\" {}", s) }),
            (Op::RemoveAttr(n()), if hit { "".into() } else { " k=\"v\"".into() }),
            (Op::AddClass(n()), format!(" k=\"v\" class=\"{}\"", s)),
            (Op::SetId(n()), format!(" k=\"v\" id=\"{}\"", s)),
            (Op::RemoveClass(n()), " k=\"v\"".into()),
        ];
        for (op, want) in ops {
            let w = format!("{} ({:?})", op_name(&op), way);
            if let Some(t) = stream_verdict(&w, real::run(&t, &on_p(vec![op]), &env), &r)? {
                let x = format!("<p{}></p>", want);
                if t.to_string() != x {
                    return Err(format!("{}: expected {}, got {}", w, x, t));
                }
            }
        }
    }
    // selectors
    let stat = |f: fn(NameErr) -> Fail| r.clone().map_err(f);
    let sels: Vec<(Sel, Result<(), Fail>)> = vec![
        (Sel::Tag(s.into()), stat(Fail::SelTag)),
        (Sel::Id(s.into()), stat(Fail::SelId)),
        (Sel::Class(s.into()), stat(Fail::SelClass)),
        (Sel::Classes(vec![s.into()]), r.clone().map_err(|e| Fail::SelClasses(0, e))),
        (Sel::Classes(vec!["ok".into(), s.into(), "".into()]), match &r {
            Ok(()) => Err(Fail::SelClasses(2, NameErr::Empty)),
            Err(e) => Err(Fail::SelClasses(1, e.clone())),
        }),
    ];
    for (sel, want) in sels {
        let got = real::dyn_sel(&sel, &env).map(|_| ()).map_err(|e| err_text(&e));
        let want = want.map_err(|f| err_text(&make_err(&f)));
        if got != want {
            return Err(format!("selector {:?}: {:?}, expected {:?}", sel, got, want));
        }
    }
    if !s.contains('#') && !s.contains('.') {
        for (text, f) in [
            (s.to_string(), Fail::StaticTag as fn(NameErr) -> Fail),
            (format!("#{}", s), Fail::StaticId),
            (format!(".{}", s), |e| Fail::StaticClass(0, e)),
            (format!("a.b.{}", s), |e| Fail::StaticClass(1, e)),
        ] {
            let want = if text.is_empty() { Err(Fail::StaticNothing) } else { r.clone().map_err(f) };
            let want = want.map_err(|f| err_text(&make_err(&f)));
            let got = intern(&text).into_selector().map(|_| ()).map_err(|e| err_text(&e.into()));
            if got != want {
                return Err(format!("static selector {:?}: {:?}, expected {:?}", text, got, want));
            }
        }
    }
    // markup
    for m in [
        format!("<{}></{}>", s, s),
        format!("<{} />", s),
        format!("<x {}></x>", s),
        format!("<x {}=\"v\"></x>", s),
        format!("<{}>", s),
        format!("<x></{}>", s),
    ] {
        let want = refparse::parse(&m, None);
        let got = Template::from_str(&m, Default::default());
        match (&want, &got) {
            (Ok(toks), Ok(t)) => {
                // the same items, whatever the spelling of the slash
                let back = read(&t.to_string())?;
                if drop_empty(toks.clone()) != back {
                    return Err(format!("{:?} is read as {}", m, t));
                }
                if el.is_ok() || !m.starts_with(&format!("<{}", s)) {
                    ctx.count("read back");
                }
            }
            (Err(w), Err(e)) => {
                let g = parse_err(e).and_then(view);
                if g.as_ref() != Some(w) {
                    return Err(format!("{:?}: {:?}, expected {:?}", m, e, w));
                }
            }
            (Ok(_), Err(e)) => return Err(format!("{:?} is refused: {:?}", m, e)),
            (Err(w), Ok(t)) => return Err(format!("{:?} is read as {}, expected {:?}", m, t, w)),
        }
    }
    Ok(())
}

fn drainable(t: &Template) -> Result<Vec<String>, String> {
    real::drain(t.into_stream()).map(|v| v.iter().map(|e| e.to_string()).collect()).map_err(|e| err_text(&e))
}

const OTHERS: &[char] = &[
    '\u{80}', '\u{85}', '\u{a0}', '\u{ad}', 'é', 'K', 'ſ', 'İ', 'ı', '\u{200b}', '\u{2028}', '\u{3000}',
    '\u{feff}', '\u{fffd}', '\u{1f600}', '\u{10ffff}', '＞', '＂', '＜',
];

fn c08_one(ctx: &mut Ctx, _src: &mut Src) -> Res {
    let i = ctx.index as u32;
    let s = match i {
        0 => String::new(),
        1..=384 => char::from_u32(i - 1).map(|c| c.to_string()).unwrap_or_default(),
        _ => OTHERS[(i as usize - 385) % OTHERS.len()].to_string(),
    };
    one_name(ctx, &s)
}

fn c08_two(ctx: &mut Ctx, _src: &mut Src) -> Res {
    const N: u64 = 137; // 128 + 9 others
    let c = |i: u64| if i < 128 { char::from(i as u8) } else { OTHERS[(i - 128) as usize] };
    let s: String = [c(ctx.index / N % N), c(ctx.index % N)].iter().collect();
    one_name(ctx, &s)
}

/// A character at each place of a longer name.
fn c08_mid(ctx: &mut Ctx, src: &mut Src) -> Res {
    let n = src.range(2, 20);
    let mut s: Vec<char> = (0..n).map(|_| (b'a' + src.below(26) as u8) as char).collect();
    for _ in 0..src.range(1, 3) {
        let at = src.below(s.len());
        s[at] = if src.chance(1, 6) { *src.pick(OTHERS) } else { char::from(src.below(128) as u8) };
    }
    one_name(ctx, &s.into_iter().collect::<String>())
}

fn c08_random(ctx: &mut Ctx, src: &mut Src) -> Res {
    let s = match src.below(5) {
        0 => bad_name(src),
        1 => elem_name(src),
        2 => attr_name(src),
        3 => {
            let n = *src.pick(&[8usize, 9, 16, 64, 300, 5000]);
            let mut s = "n".repeat(n);
            if src.chance(1, 2) {
                let at = if src.chance(1, 2) { n - 1 } else { src.below(n) };
                let c = char::from(src.below(128) as u8);
                s.replace_range(at..at + 1, &c.to_string());
            }
            s
        }
        _ => random_name(src),
    };
    one_name(ctx, &s)
}

fn c08_pairs(ctx: &mut Ctx, src: &mut Src) -> Res {
    let a = loop {
        let s = match src.below(4) {
            0 => random_name(src),
            1 => elem_name(src),
            _ => (0..src.range(1, 6)).map(|_| char::from(33 + src.below(94) as u8)).collect(),
        };
        if element_name_rule(&s).is_ok() && !is_void(&s) && !is_raw(&s) {
            break s;
        }
    };
    let mut b = if src.chance(1, 2) { flip_case(src, &a) } else { a.clone() };
    match src.below(4) {
        0 => {
            // another character in one place, often one that differs in the bit of the letter case only
            let at = src.below(b.len());
            let old = b.as_bytes()[at];
            let c = match src.below(4) {
                0 | 1 => old ^ 0x20,
                2 => old ^ 0x40,
                _ => 33 + src.below(94) as u8,
            };
            b.replace_range(at..at + 1, &char::from(c & 127).to_string());
        }
        1 => {
            if src.chance(1, 2) {
                b.pop();
            } else {
                b.push(*src.pick(&['a', '-', '_', '0']));
            }
        }
        _ => {}
    }
    if element_name_rule(&b).is_err() || is_void(&b) || is_raw(&b) {
        return Ok(());
    }
    ctx.about(format!("names {:?} and {:?}", a, b));
    let same = a.len() == b.len() && a.bytes().zip(b.bytes()).all(|(x, y)| x.to_ascii_lowercase() == y.to_ascii_lowercase());
    ctx.count(if same { "pairs equal" } else { "pairs different" });
    ctx.nontrivial(format!("{} {}", a, b).as_bytes());
    let id = |s: &str, st: bool| -> Result<Identifier, String> {
        if st { Identifier::from_static_str(intern(s)) } else { s.parse() }.map_err(|e| format!("{:?}", e))
    };
    for (x, y) in [(false, false), (true, false), (false, true), (true, true)] {
        let (p, q) = (id(&a, x)?, id(&b, y)?);
        if (p == q) != same || (q == p) != same || (p != q) == same {
            return Err(format!("{:?} == {:?} gives {} (static {} {})", a, b, p == q, x, y));
        }
    }
    let say = |w: &str, got: bool| -> Res {
        if got != same {
            Err(format!("{}: {:?} and {:?} are treated as {}", w, a, b, if got { "equal" } else { "different" }))
        } else {
            Ok(())
        }
    };
    // closing tag
    say("closing tag", Template::from_str(&format!("<{}></{}>", a, b), Default::default()).is_ok())?;
    // selection by tag, id, class, and attribute operations
    let env = Rc::new(RealEnv::new(vec![]));
    let t = load(&format!("<{} {}=\"1 1\" id=\"{}\" class=\"q {} r\"></{}>", a, a, a, a, a))?;
    let hit = |sel: Sel| -> Result<bool, String> {
        let ops = vec![Op::Select(Scope::Any, sel, Rc::new(Body { site: 1, variants: vec![vec![Op::Append(Content::Num(7, Int::U8))]], elem: false }))];
        Ok(run_one(&t, &ops, &env)?.ends_with(">7"))
    };
    say("tag selector", hit(Sel::Tag(b.clone()))?)?;
    if !ci(&a, "id") && !ci(&b, "id") {
        say("id selector", hit(Sel::Id(b.clone()))?)?;
    }
    if !ci(&a, "class") && b != "q" && b != "r" && !ci(&b, "q") && !ci(&b, "r") {
        say("class selector", hit(Sel::Class(b.clone()))?)?;
        say("classes selector", hit(Sel::Classes(vec!["R".into(), b.clone()]))?)?;
    }
    if !b.contains('.') && !b.contains('#') {
        say("static selector", hit(Sel::Static(b.clone()))?)?;
        if !ci(&a, "id") {
            say("static id selector", hit(Sel::Static(format!("#{}", b)))?)?;
        }
        if !ci(&a, "class") && !ci(&b, "q") && !ci(&b, "r") {
            say("static class selector", hit(Sel::Static(format!(".{}", b)))?)?;
        }
    }
    if ![&a, &b].iter().any(|x| ci(x, "id") || ci(x, "class")) {
        let list = |op| vec![Op::Select(Scope::Any, Sel::Tag(a.clone()), Rc::new(Body { site: 1, variants: vec![vec![op]], elem: false }))];
        let out = run_one(&t, &list(Op::RemoveAttr(nm(&b))), &env)?;
        say("remove_attribute", !out.contains("=\"1 1\""))?;
        let out = run_one(&t, &list(Op::SetEmpty(nm(&b))), &env)?;
        say("set_empty_attribute", !out.contains("=\"1 1\""))?;
        let out = run_one(&t, &list(Op::ReplaceIf(nm(&b), Val::Text("2 2".into(), VWay::Str))), &env)?;
        say("replace_attribute_value_if_exists", out.contains("=\"2 2\""))?;
        let out = run_one(&t, &list(Op::AddTo(nm(&b), Val::Num(2, Int::U8), Val::Text("+".into(), VWay::Str))), &env)?;
        say("add_to_attribute", out.contains("=\"1 1+2\""))?;
        let out = run_one(&t, &list(Op::RemoveClass(nm(&b))), &env)?;
        if !ci(&b, "q") && !ci(&b, "r") {
            say("remove_class", out.contains("class=\"q r\""))?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

/// A word that may take part in a selector, often one of the given words or near one.
fn sel_word(src: &mut Src, words: &[String]) -> String {
    for _ in 0..20 {
        let mut s = if !words.is_empty() && src.chance(4, 5) {
            src.pick(words).clone()
        } else {
            class_word(src)
        };
        match src.below(8) {
            0 => s = flip_case(src, &s),
            1 => {
                s.pop();
            }
            2 => s.push(*src.pick(&['x', '-', '1'])),
            3 if s.len() > 1 => {
                s.remove(0);
            }
            _ => {}
        }
        if name_rule(&s).is_ok() {
            return s;
        }
    }
    "x".into()
}

fn c09_doc(src: &mut Src) -> (Vec<Node>, Vec<String>) {
    const SEP: &[&str] = &[" ", "  ", "\t", "\n", "\u{c}", "\r\n", "\u{a0}", "\u{2003}", "\u{b}", "\u{85}", "\u{1c}", "\u{200b}", ",", ";", "&#32;"];
    let mut words = Vec::new();
    let mut nodes = Vec::new();
    for _ in 0..src.range(1, 4) {
        let name = plain_elem_name(src);
        words.push(name.clone());
        let mut attrs = Vec::new();
        for _ in 0..src.below(5) {
            let an = match src.below(6) {
                0 | 1 => flip_case(src, "class"),
                2 | 3 => flip_case(src, "id"),
                _ => attr_name(src),
            };
            let value = if src.chance(1, 8) {
                None
            } else {
                let mut v = String::new();
                let k = src.below(4);
                for i in 0..k {
                    if i > 0 || src.chance(1, 5) {
                        let s = if src.chance(1, 2) { " " } else { *src.pick(SEP) };
                        v.push_str(s);
                    }
                    let w = if !words.is_empty() && src.chance(1, 3) {
                        let w = src.pick(&words).clone();
                        flip_case(src, &w)
                    } else {
                        class_word(src)
                    };
                    v.push_str(&w);
                    words.push(w);
                }
                if src.chance(1, 8) {
                    let s = *src.pick(SEP);
                    v.push_str(s);
                }
                if src.chance(1, 20) {
                    v.push_str(&text_without(src, "\"", 3));
                }
                words.push(v.clone());
                Some(v.replace('"', ""))
            };
            attrs.push(Attr { name: an, value });
        }
        let kind = match src.below(6) {
            0 => Kind::SelfClosed,
            _ => Kind::Normal {
                close: flip_case(src, &name),
                children: match src.below(6) {
                    0 => vec![Node::Text(words.last().cloned().unwrap_or_default().replace('<', "").replace('&', ""))],
                    1 => vec![Node::Comment(" x ".into()), Node::Elem(Elem { name: "br".into(), attrs: attrs.clone(), kind: Kind::Void })],
                    _ => vec![],
                },
            },
        };
        nodes.push(Node::Elem(Elem { name, attrs, kind }));
    }
    if src.chance(1, 4) {
        nodes.insert(0, Node::Doctype("html".into()));
        words.push("html".into());
    }
    (nodes, words)
}

fn a_selector(src: &mut Src, words: &[String]) -> Sel {
    match src.below(6) {
        0 => Sel::Tag(sel_word(src, words)),
        1 => Sel::Id(sel_word(src, words)),
        2 => Sel::Class(sel_word(src, words)),
        3 => {
            let n = src.range(1, 4);
            Sel::Classes((0..n).map(|_| sel_word(src, words)).collect())
        }
        _ => {
            let plain = |src: &mut Src| sel_word(src, words).replace('.', "").replace('#', "");
            let mut s = String::new();
            if src.chance(1, 2) {
                s.push_str(&plain(src));
            }
            if src.chance(1, 2) {
                s.push('#');
                s.push_str(&plain(src));
            }
            for _ in 0..src.below(4) {
                s.push('.');
                s.push_str(&plain(src));
            }
            Sel::Static(s)
        }
    }
}

fn elems<'a>(nodes: &'a [Node], out: &mut Vec<&'a Elem>) {
    for n in nodes {
        if let Node::Elem(e) = n {
            out.push(e);
            if let Kind::Normal { children, .. } = &e.kind {
                elems(children, out);
            }
        }
    }
}

fn c09_matches(ctx: &mut Ctx, src: &mut Src) -> Res {
    let (nodes, words) = c09_doc(src);
    let sel = a_selector(src, &words);
    matching(ctx, &nodes, sel)
}

pub fn matching(ctx: &mut Ctx, nodes: &[Node], sel: Sel) -> Res {
    let markup = render(nodes);
    ctx.about(format!("{} selected by {}", show(&markup), show(&format!("{:?}", sel))));
    let t = load(&markup)?;
    let env = Rc::new(RealEnv::new(vec![]));
    let want = sel_check(&sel);
    let got = real::dyn_sel(&sel, &env);
    let s = match (got, want) {
        (Err(e), Err(f)) => {
            let w = err_text(&make_err(&f));
            if err_text(&e) != w {
                return Err(format!("expected the error {}\n  got {}", w, err_text(&e)));
            }
            ctx.count("errors compared");
            return Ok(());
        }
        (Ok(_), Err(f)) => return Err(format!("expected the error {:?}", f)),
        (Err(e), Ok(())) => return Err(format!("a good selector is refused: {}", err_text(&e))),
        (Ok(s), Ok(())) => s,
    };
    let mut all = Vec::new();
    elems(nodes, &mut all);
    let mut m = Model::new(&[], 0);
    let mut it = all.iter();
    let mut hits = 0;
    for e in real::drain((&t).into_stream()).map_err(|e| err_text(&e))? {
        let yes = s.matches(&e);
        if real::is_start(&e) {
            let Some(el) = it.next() else {
                return Err(format!("more elements than in the document: {}", e));
            };
            let want = m.matches(&sel, el);
            ctx.count(if want { "matching elements" } else { "other elements" });
            hits += want as usize;
            if yes != want {
                return Err(format!("matches is {} for {}", yes, e));
            }
        } else {
            ctx.count("events without selector meaning");
            if yes {
                return Err(format!("matches is true for {:?} ({})", e.to_string(), e.description()));
            }
        }
    }
    // and through select: mark what is visited
    let mut m = Model::new(&[], 10_000);
    let ops = vec![Op::Select(Scope::Any, sel.clone(), Rc::new(Body { site: 1, variants: vec![vec![Op::Prepend(Content::Num(1, Int::U8))]], elem: false }))];
    if let Ok(n) = m.ops(&ops, &Env::default(), nodes.to_vec()) {
        same_output(&render(&n), &run_one(&t, &ops, &env)?)?;
    }
    if hits > 0 && hits < all.len() {
        ctx.nontrivial(format!("{}{:?}", markup, sel).as_bytes());
    }
    ctx.sample(|| format!("{:?} on {}", sel, markup));
    Ok(())
}

fn c09_bad(ctx: &mut Ctx, src: &mut Src) -> Res {
    let w = |src: &mut Src| -> String {
        if src.chance(1, 2) { bad_name(src) } else { class_word(src) }
    };
    let sel = match src.below(7) {
        0 => Sel::Tag(w(src)),
        1 => Sel::Id(w(src)),
        2 => Sel::Class(w(src)),
        3 => {
            let n = src.below(5);
            Sel::Classes((0..n).map(|_| w(src)).collect())
        }
        _ => {
            let mut s = String::new();
            for _ in 0..src.below(6) {
                match src.below(4) {
                    0 => s.push('#'),
                    1 | 2 => s.push('.'),
                    _ => {}
                }
                s.push_str(&w(src));
            }
            Sel::Static(s)
        }
    };
    bad_selector(ctx, sel)
}

fn c09_short(ctx: &mut Ctx, src: &mut Src) -> Res {
    const A: &[char] = &['a', 'B', '#', '.', ' ', '>', 'é', '*', '-'];
    // all of up to five characters, then random longer ones
    let mut i = ctx.index as usize;
    let mut s = String::new();
    if i < 66_430 {
        while i > 0 {
            i -= 1;
            s.push(A[i % A.len()]);
            i /= A.len();
        }
    } else {
        for _ in 0..src.range(6, 14) {
            s.push(*src.pick(A));
        }
    }
    bad_selector(ctx, Sel::Static(s))
}

pub fn bad_selector(ctx: &mut Ctx, sel: Sel) -> Res {
    ctx.about(format!("selector {:?}", sel));
    let env = Rc::new(RealEnv::new(vec![]));
    let t = load("<a class=\"a b\" id=\"a\">a<b></b></a><br><b id=\"a\" class=\"a\"></b>")?;
    let nodes = vec![
        el("a", &[("class", "a b"), ("id", "a")], vec![Node::Text("a".into()), el("b", &[], vec![])]),
        Node::Elem(Elem { name: "br".into(), attrs: vec![], kind: Kind::Void }),
        el("b", &[("id", "a"), ("class", "a")], vec![]),
    ];
    let ops = vec![Op::Select(Scope::Any, sel.clone(), Rc::new(Body { site: 1, variants: vec![vec![Op::Prepend(Content::Num(1, Int::U8))]], elem: false }))];
    let mut m = Model::new(&[], 10_000);
    let want = m.ops(&ops, &Env::default(), nodes);
    let got = real::run(&t, &ops, &env);
    match (want, got) {
        (Ok(n), Ok(t)) => same_output(&render(&n), &t.to_string()),
        (Err(Stop::Fail(f)), Err(e)) => {
            let w = err_text(&make_err(&f));
            if err_text(&e) != w {
                return Err(format!("expected the error {}\n  got {}", w, err_text(&e)));
            }
            // straight from the constructor
            let c = real::dyn_sel(&sel, &env).map(|_| ()).map_err(|e| err_text(&e));
            if c != Err(w.clone()) {
                return Err(format!("expected the error {} from the constructor\n  got {:?}", w, c));
            }
            direct_errors(&sel, &f)?;
            ctx.count("errors compared");
            ctx.nontrivial(format!("{:?}", sel).as_bytes());
            Ok(())
        }
        (Ok(n), Err(e)) => Err(format!("expected {}, got the error {}", render(&n), err_text(&e))),
        (Err(f), Ok(t)) => Err(format!("expected the error {:?}, got {}", f, t)),
        (Err(Stop::TooBig), _) => Ok(()),
    }
}

/// The errors in the types of the constructors, and their messages.
fn direct_errors(sel: &Sel, f: &Fail) -> Res {
    use crate::real::level;
    use std::error::Error;
    let (msg, cause) = match (sel, f) {
        (Sel::Tag(s), Fail::SelTag(w)) => match s.parse::<select::Tag>() {
            Err(ref e @ select::TagError::Identifier { ref error }) if *error == name_err(w) => {
                level("selector error", e, Some(error))?;
                return Ok(());
            }
            other => return Err(format!("Tag: {:?}", other)),
        },
        (Sel::Id(s), Fail::SelId(w)) => match s.parse::<select::Id>() {
            Err(ref e @ select::IdError::Identifier { ref error }) if *error == name_err(w) => {
                level("selector error", e, Some(error))?;
                return Ok(());
            }
            other => return Err(format!("Id: {:?}", other)),
        },
        (Sel::Class(s), Fail::SelClass(w)) => match s.parse::<select::Class>() {
            Err(ref e @ select::ClassError::Identifier { ref error }) if *error == name_err(w) => {
                level("selector error", e, Some(error))?;
                return Ok(());
            }
            other => return Err(format!("Class: {:?}", other)),
        },
        (Sel::Classes(v), _) => match (select::Classes::from_str_iterator(v.iter().map(|s| &s[..])), f) {
            (Err(e @ select::ClassesError::Empty), Fail::SelClassesEmpty) => return level("selector error", &e, None),
            (Err(e), Fail::SelClasses(i, w)) => {
                if let select::ClassesError::Identifier { ref error, .. } = e {
                    level("selector error", &e, Some(error))?;
                }
                match e {
                    select::ClassesError::Identifier { index, ref error } if index == *i && *error == name_err(w) => {}
                    ref other => return Err(format!("Classes: {:?}", other)),
                }
                (e.to_string(), Some(i))
            }
            (other, _) => return Err(format!("Classes: {:?}", other)),
        },
        (Sel::Static(s), _) => match intern(s).into_selector() {
            Ok(_) => return Err("accepted".into()),
            Err(e) => {
                let ok = match (&e, f) {
                    (select::StaticError::Unrestricted, Fail::StaticNothing) => e.cause().is_none(),
                    (select::StaticError::Tag { error }, Fail::StaticTag(w))
                    | (select::StaticError::Id { error }, Fail::StaticId(w)) => *error == name_err(w),
                    (select::StaticError::Class { index, error }, Fail::StaticClass(i, w)) => {
                        index == i && *error == name_err(w)
                    }
                    _ => false,
                };
                match e {
                    select::StaticError::Tag { ref error }
                    | select::StaticError::Id { ref error }
                    | select::StaticError::Class { ref error, .. } => level("selector error", &e, Some(error))?,
                    select::StaticError::Unrestricted => level("selector error", &e, None)?,
                }
                if !ok {
                    return Err(format!("static selector: {:?}, expected {:?}", e, f));
                }
                match f {
                    Fail::StaticClass(i, _) => (e.to_string(), Some(i)),
                    _ => return Ok(()),
                }
            }
        },
        _ => return Ok(()),
    };
    if let Some(i) = cause {
        if !msg.contains(&i.to_string()) {
            return Err(format!("the message {:?} does not tell the index {}", msg, i));
        }
    }
    Ok(())
}

pub fn el(name: &str, attrs: &[(&str, &str)], children: Vec<Node>) -> Node {
    Node::Elem(Elem {
        name: name.into(),
        attrs: attrs.iter().map(|(n, v)| Attr { name: n.to_string(), value: Some(v.to_string()) }).collect(),
        kind: Kind::Normal { close: name.into(), children },
    })
}

// ---------------------------------------------------------------- C18

/// A text next to the given one.
fn beside(src: &mut Src, s: &str) -> String {
    let mut t = s.to_string();
    match src.below(13) {
        0 => t = flip_case(src, s),
        1 => t.push(*src.pick(&[' ', 'x', '\0', '&'])),
        2 => {
            t.pop();
        }
        3 => t = encode(s),
        4 => {
            let n = t.chars().count().max(1);
            let at = src.below(n);
            let c = *src.pick(&['x', 'X', '<', '\'', 'é']);
            t = t.chars().enumerate().map(|(i, o)| if i == at { c } else { o }).collect();
        }
        5 => t = t.replace("\r\n", "\n"),
        // another spelling of what a reader would see as much the same
        6..=9 => {
            let (x, y) = *src.pick(ALIKE);
            let (x, y) = if src.chance(1, 2) { (x, y) } else { (y, x) };
            if !x.is_empty() && t.contains(x) {
                t = if src.chance(1, 2) { t.replace(x, y) } else { t.replacen(x, y, 1) };
            } else {
                // none there: one into each, if the other one can be
                t.push_str(y);
            }
        }
        10 => t = t.trim().to_string(),
        11 => {
            let mut w: Vec<&str> = t.split(' ').collect();
            w.reverse();
            t = w.join(" ");
        }
        _ => {}
    }
    t
}

/// Texts that mean or look the same and are not.
const ALIKE: &[(&str, &str)] = &[
    ("&quot;", "&#34;"), ("&quot;", "&#x22;"), ("&#34;", "&#x22;"), ("&amp;", "&#38;"), ("&amp;", "&AMP;"), ("&lt;", "&#60;"), ("&lt;", "&LT;"),
    ("&gt;", ">"), ("&quot;", "&QUOT;"), ("&#39;", "'"), ("&apos;", "'"), ("&apos;", "&#39;"), ("&nbsp;", "\u{a0}"), ("&amp;", "&amp;amp;"),
    (" ", "\u{a0}"), (" ", "  "), (" ", "\t"), (" ", "\n"), ("\n", "\r\n"), ("\n", "\r"), (" ", ""), ("\u{c}", " "), ("\u{200b}", ""), ("\u{feff}", ""), ("\u{ad}", ""),
    ("é", "e\u{301}"), ("é", "É"), ("ß", "ss"), ("ß", "ẞ"), ("k", "\u{212a}"), ("ſ", "s"), ("i", "İ"), ("ı", "i"), ("σ", "ς"), ("ﬁ", "fi"), ("\u{ff21}", "A"),
    ("0", "00"), ("1", "1.0"), ("-0", "0"), ("\0", "\u{fffd}"), ("\0", ""), ("\u{7f}", ""),
];

fn data_by(src: &mut Src, s: &str) -> (Data, &'static str) {
    let st = intern(s);
    match src.below(8) {
        0 => (Data::from_unencoded_str(s), "dynamic"),
        1 => (Data::from_unencoded_static_str(st), "static"),
        2 => (Data::from(Value::from_unencoded_str(s)), "value"),
        3 => (Data::from(Value::from_unencoded_static_str(st)), "static value"),
        4 => (Data::from(st.into_value()), "into_value"),
        5 => (Data::from_unencoded_static_str(st).clone(), "static clone"),
        6 => (Data::from((&Value::from_unencoded_static_str(st)).into_value()), "value reference"),
        _ => match s.parse::<i64>() {
            Ok(n) if n.to_string() == s => (Data::from(n.into_value()), "number"),
            _ => (Data::from_unencoded_str(s.to_string()).clone(), "dynamic clone"),
        },
    }
}

fn value_by(src: &mut Src, s: &str) -> (Value, &'static str) {
    let st = intern(s);
    match src.below(6) {
        0 => (Value::from_unencoded_str(s), "dynamic"),
        1 => (Value::from_unencoded_static_str(st), "static"),
        2 => (st.into_value(), "into_value"),
        3 => (Value::from_unencoded_static_str(st).clone(), "static clone"),
        4 => ((&Value::from_unencoded_str(s)).into_value(), "reference"),
        _ => match s.parse::<u32>() {
            Ok(n) if n.to_string() == s => (n.into_value(), "number"),
            _ => (Value::from_unencoded_str(s).clone(), "clone"),
        },
    }
}

fn c18_texts(ctx: &mut Ctx, src: &mut Src) -> Res {
    let mut a = if src.chance(1, 8) { src.below(300).to_string() } else { c07_text(src) };
    let mut b = match src.below(5) {
        0 | 1 => a.clone(),
        _ => beside(src, &a),
    };
    if src.chance(1, 5) {
        b = a.clone();
        twin(src, &mut a, &mut b);
    }
    let same = a == b;
    ctx.count(if same { "equal texts" } else { "different texts" });
    let (da, ra) = data_by(src, &a);
    let (db, rb) = data_by(src, &b);
    ctx.about(format!("{} ({}) and {} ({})", show(&a), ra, show(&b), rb));
    if (da == db) != same || (db == da) != same || (da != db) == same {
        return Err(format!("data: == gives {}", da == db));
    }
    if da != da.clone() || db.clone() != db {
        return Err("a clone of the data differs".into());
    }
    let (va, rva) = value_by(src, &a);
    let (vb, rvb) = value_by(src, &b);
    ctx.about(format!("{} ({}) and {} ({})", show(&a), rva, show(&b), rvb));
    if (va == vb) != same || (vb == va) != same || (va != vb) == same {
        return Err(format!("values: == gives {}", va == vb));
    }
    if va != va.clone() {
        return Err("a clone of the value differs".into());
    }
    // events made of them
    let (mut sa, mut sb) = (da.clone().into_stream(), (&db).into_stream());
    match (sa.next_event(), sb.next_event()) {
        (Ok(Some(x)), Ok(Some(y))) => {
            if (x == y) != same || (y == x) != same {
                return Err(format!("events: == gives {}", x == y));
            }
        }
        _ => return Err("a text gave no event".into()),
    }
    if ra != rb || rva != rvb {
        ctx.nontrivial(format!("{} {} {} {}", a, ra, b, rb).as_bytes());
    }
    Ok(())
}

/// What equality of templates is about.
fn norm(toks: &[Tok]) -> Vec<String> {
    let at = |attrs: &[Attr]| -> String {
        attrs.iter().map(|a| format!(" {:?}={:?}", a.name.to_ascii_lowercase(), a.value)).collect()
    };
    toks.iter()
        .map(|t| match t {
            Tok::Doctype(s) => format!("doctype {}", s),
            Tok::Comment(s) => format!("comment {:?}", s),
            Tok::Text(s) => format!("text {:?}", s),
            Tok::Raw(s) => format!("raw {:?}", s),
            Tok::Open(n, a) => format!("open {:?}{}", n.to_ascii_lowercase(), at(a)),
            Tok::Close(n) => format!("close {:?}", n.to_ascii_lowercase()),
            Tok::SelfClosed(n, a) => format!("selfclosed {:?}{}", n.to_ascii_lowercase(), at(a)),
            Tok::Void(n, a) => format!("void {:?}{}", n.to_ascii_lowercase(), at(a)),
        })
        .collect()
}

/// Puts something into one and what looks like it into the other.
fn twin(src: &mut Src, a: &mut String, b: &mut String) {
    let (x, y) = *src.pick(ALIKE);
    let (x, y) = if src.chance(1, 2) { (x, y) } else { (y, x) };
    let mut at = src.below(a.len() + 1);
    while !a.is_char_boundary(at) {
        at -= 1;
    }
    a.insert_str(at, x);
    b.insert_str(at, y);
}

/// The same twice, but for something that looks alike in some text, comment or value.
fn twins(src: &mut Src, toks: &[Tok]) -> (Vec<Tok>, Vec<Tok>) {
    let (mut v, mut w) = (toks.to_vec(), toks.to_vec());
    let from = src.below(v.len().max(1));
    for k in 0..v.len() {
        let i = (from + k) % v.len();
        match (&mut v[i], &mut w[i]) {
            (Tok::Text(a), Tok::Text(b)) | (Tok::Raw(a), Tok::Raw(b)) | (Tok::Comment(a), Tok::Comment(b)) => {
                twin(src, a, b);
                return (v, w);
            }
            (Tok::Open(_, a), Tok::Open(_, b)) | (Tok::SelfClosed(_, a), Tok::SelfClosed(_, b)) | (Tok::Void(_, a), Tok::Void(_, b)) if !a.is_empty() => {
                let j = src.below(a.len());
                if let (Some(a), Some(b)) = (&mut a[j].value, &mut b[j].value) {
                    twin(src, a, b);
                    return (v, w);
                }
            }
            _ => {}
        }
    }
    let (mut a, mut b) = ("t".to_string(), "t".to_string());
    twin(src, &mut a, &mut b);
    v.push(Tok::Text(a));
    w.push(Tok::Text(b));
    // (not beside another text)
    v.insert(v.len() - 1, Tok::Comment("c".into()));
    w.insert(w.len() - 1, Tok::Comment("c".into()));
    (v, w)
}

/// A change to one place; the result may be no proper document any more (then None).
fn vary(src: &mut Src, toks: &[Tok]) -> Option<Vec<Tok>> {
    let mut v = toks.to_vec();
    if v.is_empty() {
        v.push(Tok::Text("x".into()));
        return Some(v);
    }
    let i = src.below(v.len());
    match v[i].clone() {
        Tok::Doctype(_) => {
            // whether html and HTML are the same here is nobody's promise
            v.remove(i);
        }
        Tok::Comment(s) => match src.below(3) {
            0 => v[i] = Tok::Comment(beside(src, &s)),
            1 => v[i] = Tok::Text(s),
            _ => {
                v.remove(i);
            }
        },
        Tok::Text(s) => match src.below(4) {
            0 => {
                v.remove(i);
            }
            1 => v[i] = Tok::Comment(s),
            _ => v[i] = Tok::Text(beside(src, &s)),
        },
        Tok::Raw(s) => v[i] = Tok::Raw(beside(src, &s)),
        Tok::Close(n) => v[i] = Tok::Close(flip_case(src, &n)),
        Tok::Open(n, mut a) => {
            if src.chance(1, 4) {
                if let (Some(Tok::Close(_)), true) = (v.get(i + 1), true) {
                    v.remove(i + 1);
                    v[i] = Tok::SelfClosed(n, a);
                    return Some(v);
                }
            }
            if src.chance(1, 2) {
                v[i] = Tok::Open(flip_case(src, &n), a);
            } else {
                vary_attrs(src, &mut a);
                v[i] = Tok::Open(n, a);
            }
        }
        Tok::SelfClosed(n, mut a) => match src.below(3) {
            0 => {
                v[i] = Tok::Open(n.clone(), a);
                v.insert(i + 1, Tok::Close(n));
            }
            1 => v[i] = Tok::SelfClosed(flip_case(src, &n), a),
            _ => {
                vary_attrs(src, &mut a);
                v[i] = Tok::SelfClosed(n, a);
            }
        },
        Tok::Void(n, mut a) => match src.below(3) {
            0 => v[i] = Tok::Void(flip_case(src, &n), a),
            1 => v[i] = Tok::Void(src.pick(VOID).to_string(), a),
            _ => {
                vary_attrs(src, &mut a);
                v[i] = Tok::Void(n, a);
            }
        },
    }
    Some(v)
}

fn vary_attrs(src: &mut Src, a: &mut Vec<Attr>) {
    if a.is_empty() {
        a.push(Attr { name: "x".into(), value: None });
        return;
    }
    let i = src.below(a.len());
    match src.below(7) {
        0 => a[i].name = flip_case(src, &a[i].name.clone()),
        1 => {
            a.remove(i);
        }
        2 => {
            let j = src.below(a.len());
            a.swap(i, j);
        }
        3 => {
            a[i].value = match a[i].value {
                None => Some(String::new()),
                Some(ref s) if s.is_empty() => None,
                Some(ref s) => Some(beside(src, s).replace('"', "")),
            }
        }
        4 => {
            let x = a[i].clone();
            a.push(x);
        }
        5 => a[i].name.push('x'),
        _ => {
            if let Some(v) = a[i].value.clone() {
                a[i].value = Some(flip_case(src, &v));
            }
        }
    }
}

/// The template of the given items, by one of many routes.
fn template_by(src: &mut Src, toks: &[Tok]) -> Result<Option<(Template, &'static str)>, String> {
    let markup = spell(src, toks, true);
    // is it what it should be?
    match refparse::parse(&markup, None) {
        Ok(t) if norm(&drop_empty(t.clone())) == norm(&drop_empty(toks.to_vec())) => {}
        _ => return Ok(None),
    }
    let t = load(&markup)?;
    let bad = |e: StreamError| err_text(&e);
    let env = Rc::new(RealEnv::new(vec![]));
    Ok(Some(match src.below(11) {
        0 => (t, "parsed"),
        1 => (t.clone(), "clone"),
        2 => (t.transform(|h| h).map_err(bad)?, "empty transformation"),
        3 => {
            let x = load("<x></x>")?;
            (x.transform(|h| h.replace(&t)).map_err(bad)?, "replace")
        }
        4 => {
            let x = load("")?;
            let ev = real::drain((&t).into_stream()).map_err(bad)?;
            (x.transform(|h| h.append(Events(ev.into_iter()))).map_err(bad)?, "stream of events")
        }
        5 => (load(&t.to_string())?, "rendered and loaded"),
        6 => {
            let ops = vec![Op::Select(Scope::Any, Sel::Custom(Pred::All, 0), Rc::new(Body { site: 1, variants: vec![vec![]], elem: true }))];
            (real::run(&t, &ops, &env).map_err(bad)?, "selection that does nothing")
        }
        7 => {
            let ops = vec![
                Op::Select(Scope::Any, Sel::Custom(Pred::All, 0), Rc::new(Body {
                    site: 1,
                    variants: vec![vec![Op::AddAttrV(nm("zzz-tmp"), Val::Num(1, Int::U8)), Op::RemoveAttr(nm("zzz-TMP"))]],
                    elem: true,
                })),
            ];
            (real::run(&t, &ops, &env).map_err(bad)?, "attribute added and removed")
        }
        8 => {
            let x = load("<x></x>")?;
            let x = x.transform(|h| h.prepend(&t)).map_err(bad)?;
            (x.transform(|h| h.select_direct("zzz", |h| h.remove())).map_err(bad)?
                .transform(|h| h.select_direct("x", |h| h.apply(|h| h))).map_err(bad)?, "beside another")
        }
        9 => {
            let x = load("<x></x>")?;
            (x.transform(|h| h.select("x", |h| h.replace(Rc::new(t.clone())))).map_err(bad)?, "in place of an element")
        }
        _ => (t.transform(|h| h.apply_as_template(|t| Ok::<_, StreamError>(t.clone()))).map_err(bad)?, "as template"),
    }))
}

pub struct Events(pub std::vec::IntoIter<Event>);
impl Stream for Events {
    fn next_event(&mut self) -> html5_fuser::event::StreamResult {
        Ok(self.0.next())
    }
}

fn c18_templates(ctx: &mut Ctx, src: &mut Src) -> Res {
    let mut a = drop_empty(doc_toks(src, Shape { nodes: 6, ..SMALL }));
    let b = match src.below(6) {
        5 => {
            let (x, y) = twins(src, &a);
            a = x;
            Some(y)
        }
        0 | 1 => Some(a.clone()),
        2 | 3 => vary(src, &a),
        _ => {
            let x = vary(src, &a);
            x.and_then(|x| vary(src, &x))
        }
    };
    let Some(b) = b else { return Ok(()) };
    let b = drop_empty(b);
    let Some((ta, ra)) = template_by(src, &a)? else { return Ok(()) };
    let Some((tb, rb)) = template_by(src, &b)? else {
        ctx.count("no document");
        return Ok(());
    };
    let x = Tok::Open("x".into(), vec![]);
    let extra = |toks: &[Tok], r: &str| {
        let mut v = toks.to_vec();
        if r == "beside another" {
            v.push(x.clone());
            v.push(Tok::Close("x".into()));
        }
        norm(&v)
    };
    let same = extra(&a, ra) == extra(&b, rb);
    ctx.about(format!("{} ({}) and {} ({})", show(&render_toks(&a)), ra, show(&render_toks(&b)), rb));
    ctx.count(if same { "equal templates" } else { "different templates" });
    if (ta == tb) != same || (tb == ta) != same || (ta != tb) == same {
        return Err(format!("== gives {}", ta == tb));
    }
    if ta.clone() != ta || tb != tb.clone() {
        return Err("a clone differs from its original".into());
    }
    // and by their items
    let ea = real::drain((&ta).into_stream()).map_err(|e| err_text(&e))?;
    let eb = real::drain((&tb).into_stream()).map_err(|e| err_text(&e))?;
    if (ea == eb) != same {
        return Err(format!("== of the events gives {}", ea == eb));
    }
    if ra != rb {
        ctx.nontrivial(format!("{:?}{}{:?}{}", a, ra, b, rb).as_bytes());
    }
    Ok(())
}

/// Something is compared with each of very many made after it.
fn c18_many(ctx: &mut Ctx, src: &mut Src) -> Res {
    let kind = ctx.index % 8;
    let n = if ctx.thorough { 1_000_000 } else { 70_000 };
    let word = src.pick(&["a", "b&c", "class", "<"]).to_string();
    ctx.about(format!("{} made after the first, kind {}", n, kind));
    ctx.nontrivial(format!("{} {} {}", word, kind, n).as_bytes());
    ctx.add("compared with the first", n as u64);
    let text = |i: usize| format!("{}{}", word, i);
    let load = |s: &str| Template::from_str(s, ParseOptions::default()).map_err(|e| e.to_string());
    let with = |s: String| {
        load("<p></p>")?
            .transform(|html| html.select("p", |html| {
                html.append_contents(Data::from_unencoded_str(&s)).set_attribute_with_value("k", Value::from_unencoded_str(&s))
            }))
            .map_err(|e| err_text(&e))
    };
    match kind {
        0 | 1 => {
            let of = |i: usize| if kind == 0 { load(&text(i).replace('<', "")) } else { with(text(i)) };
            let first = of(0)?;
            for i in 1..=n {
                let other = of(i)?;
                if first == other || other == first {
                    return Err(format!("{} == {}", first, other));
                }
            }
            if first != of(0)? {
                return Err(format!("{} is no longer equal to its like", first));
            }
        }
        2 | 3 => {
            let of = |i: usize| {
                let d = Data::from_unencoded_str(text(i));
                if kind == 2 { d } else { Data::from(Value::from_unencoded_str(text(i))) }
            };
            let first = of(0);
            for i in 1..=n {
                let other = of(i);
                if first == other || other == first {
                    return Err(format!("{} == {}", first, other));
                }
            }
            if first != of(0) {
                return Err(format!("{} is no longer equal to its like", first));
            }
        }
        4 => {
            let first = Value::from_unencoded_str(text(0));
            for i in 1..=n {
                let other = Value::from_unencoded_str(text(i));
                if first == other || other == first {
                    return Err(format!("{} == {}", first, other));
                }
            }
        }
        5 => {
            let of = |i: usize| -> Result<Identifier, String> { format!("x{}", i).parse().map_err(|e| format!("{}", e)) };
            let first = of(0)?;
            for i in 1..=n {
                let other = of(i)?;
                if first == other || other == first {
                    return Err(format!("{} == {}", first, other));
                }
            }
            if first != of(0)? {
                return Err(format!("{} is no longer equal to its like", first));
            }
        }
        6 => {
            // the same again and again
            let first = with(text(0))?;
            for i in 1..=n {
                let other = with(text(0))?;
                if first != other || other != first {
                    return Err(format!("number {}: {} != {}", i, first, other));
                }
            }
        }
        _ => {
            let first = with(text(0))?;
            let mut last = first.clone();
            for i in 1..=n {
                last = last.clone();
                if i % 1000 == 0 && (last != first || first != last) {
                    return Err(format!("the clone of a clone, {} times, of {} is {}", i, first, last));
                }
            }
            if last == with(text(1))? {
                return Err(format!("{} is equal to something else", last));
            }
        }
    }
    Ok(())
}

/// Each item against each other of two documents.
fn c18_events(ctx: &mut Ctx, src: &mut Src) -> Res {
    let a = drop_empty(doc_toks(src, Shape { nodes: 8, narrow: true, ..SMALL }));
    let b = vary(src, &a).map(drop_empty).unwrap_or_default();
    let Some((ta, ra)) = template_by(src, &a)? else { return Ok(()) };
    let Some((tb, rb)) = template_by(src, &b)? else { return Ok(()) };
    if ra == "beside another" || rb == "beside another" {
        return Ok(());
    }
    let (na, nb) = (norm(&a), norm(&b));
    let ea = real::drain((&ta).into_stream()).map_err(|e| err_text(&e))?;
    let eb = real::drain((&tb).into_stream()).map_err(|e| err_text(&e))?;
    ctx.about(format!("{} ({}) and {} ({})", show(&render_toks(&a)), ra, show(&render_toks(&b)), rb));
    if ea.len() != na.len() || eb.len() != nb.len() {
        // texts may have been split
        ctx.count("not item by item");
        return Ok(());
    }
    for (i, x) in ea.iter().enumerate().take(24) {
        for (j, y) in eb.iter().enumerate().take(24) {
            let same = na[i] == nb[j];
            if (x == y) != same || (y == x) != same {
                return Err(format!("{} == {} gives {}", x, y, x == y));
            }
            ctx.count(if same { "equal items" } else { "different items" });
        }
        if x.clone() != *x {
            return Err(format!("a clone of {} differs", x));
        }
    }
    ctx.nontrivial(format!("{:?}{}{:?}{}", a, ra, b, rb).as_bytes());
    Ok(())
}
