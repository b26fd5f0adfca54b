//! C20: work and memory against the size of the input, by pumping pieces of it.

use super::progs::a_pool;
use crate::alloc;
use crate::choice::Src;
use crate::prog::*;
use crate::progen::*;
use crate::real::{self, RealEnv};
use crate::run::{fam, run_limited, Ctx, Extra, Prop, Res};
use crate::tree::*;
use html5_fuser::text::{Data, Value};
use html5_fuser::{ParseOptions, StreamError, Template};
use std::fmt::Write as _;
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        rule: "Inputs pre u^n mid v^n post, with u, v from every state of the parser (content, tags, values, names, comments, raw text, doctypes), accepted or refused, and programs that run over what is accepted; loading, transforming and rendering are measured one by one. Bytes and blocks allocated and peak of live bytes at n, 8n and 64n: the cost of each further repetition may not grow by more than 3.5 (8 for a quadratic part, 2.5 at most for buffers that double). Instructions executed (callgrind) at n, 4n and 16n: it may not grow by more than 2.5 (4 for a quadratic part). A violation is what does at n and at a multiple of it. Non-trivial: work was measured that grows with n; distinct by input and program.",
        families: vec![
            fam("allocations", allocations, 20_000, 400_000).alone(),
        ],
        assumptions: &["instruction counts by callgrind stand for time", "sizes up to some hundred kilobytes"],
        needs: &["grows with the input", "loaded", "refused", "programs run", "cases under callgrind"],
        extra: Some(instructions),
    }]
}

/// A family of inputs, one for each n.
#[derive(Clone, Debug)]
pub struct Pump {
    pre: String,
    u: String,
    mid: String,
    v: String,
    post: String,
}

impl Pump {
    fn text(&self, n: usize) -> String {
        let mut s = self.pre.clone();
        for i in 0..n {
            numbered(&mut s, &self.u, i);
        }
        s.push_str(&self.mid);
        for i in 0..n {
            numbered(&mut s, &self.v, n - 1 - i);
        }
        s.push_str(&self.post);
        s
    }
    /// How often to repeat for so many bytes.
    fn times(&self, bytes: usize) -> usize {
        (bytes / (self.u.len() + self.v.len()).max(1)).max(4)
    }
}

/// Stands for the number of the repetition, so that each one is different.
const NUMBER: char = '\u{e000}';

fn numbered(s: &mut String, piece: &str, i: usize) {
    for c in piece.chars() {
        if c == NUMBER {
            // always of the same length, and different from the front and from the back
            let mut k = i;
            for _ in 0..4 {
                s.push(char::from_digit((k % 36) as u32, 36).unwrap_or('z'));
                k /= 36;
            }
        } else {
            s.push(c);
        }
    }
}

const CONTENT: &[&str] = &[
    "<n\u{e000}></n\u{e000}>", "<p class=\"c\u{e000}\"></p>", "<p id=\"i\u{e000}\">\u{e000}</p>", "<!--\u{e000}-->", "<p a\u{e000}></p>",
    "x", " ", "\n", "\r\n", "\r", "é", "word ", "&amp;", "&lt", "&", "&#1;", "<p></p>", "<br>", "<i/>", "<b k=\"v\">t</b>",
    "<p class=\"x y\">t</p>", "<p id='a' class=x a>é</p>", "<!--c-->", "<!doctype h>", "<script>1 < 2</script>",
    "<textarea>é</textarea>", "<a><b><p class=x></p></b></a>", "<ul><li>1</li><li>2</li></ul>", "<P></p>", "\u{1F600}",
];
const WRONG: &[&str] = &["<n\u{e000}>", "</n\u{e000}>", "<p>", "</p>", "<", "</", "<!", "<!-", "<p", ">", "<!--", "-->", "<a x='", "\"", "'", "<script>", "</script>", "</", "<?", "<a", "\0"];
const TAG: &[&str] = &[" a\u{e000}", " a\u{e000}=\"b\"", " a=\"\u{e000}\"", " class=\"c\u{e000}\"", " A\u{e000}=\"\u{e000}\"", " ", " a", " a=b", " a=\"b\"", " a='b'", " class=\"x\"", " id=i", "/", "=", "\"", " =", "\n", " é", " a =", " a= ", "\t", " /", "<", "&", " a=\"&quot;\""];
const VALUE: &[&str] = &["\u{e000}", "c\u{e000} ", "x", "&quot;", "'", " ", ">", "<", "é", "&", "x ", "\n", "=", "/", "</", "\r\n", "`"];
const NAME: &[&str] = &["a", "-", "é", ":", "A", "_", "1", "."];
const COMMENT: &[&str] = &["\u{e000}", "-", "--", "->", "x", "<!--", "- -", "é", "\n", "--!", "-x", "<", ">", "!>"];
const RAW: &[&str] = &["</s\u{e000}", "\u{e000}", "</script", "</", "<", "</scrip", "x", "</script x", "</SCRIPT", "</s", ">", "<!--", "\n", "é", "</script<", "</scriptx>", "</script\n"];
const DOCTYPE: &[&str] = &[" ", "html", "\"", "x", "\n", " x", "'", "<", "é", "!", "-"];
const NEST: &[(&str, &str)] = &[
    ("<n\u{e000}>", "</n\u{e000}>"), ("<p a=\"\u{e000}\">\u{e000}", "</p>"),
    ("<p>", "</p>"), ("<p>t", "</p>"), ("<p class=\"x\">", "t</p>"), ("<a><p>", "</p></a>"), ("<p>", "</p><br>"),
    ("<P>", "</p>"), ("<p id=i a=b>", "</p >"), ("<b>", "</p>"), ("<p>", "</p"), ("<p><b></b>", "<i/></p>"),
];

fn some(src: &mut Src, from: &[&str], max: usize) -> String {
    let n = src.range(1, max);
    (0..n).map(|_| *src.pick(from)).collect()
}

fn maybe(src: &mut Src, s: &str) -> String {
    if src.chance(2, 3) {
        s.into()
    } else {
        String::new()
    }
}

/// Number `fixed` of the systematic ones, or a random one.
fn a_pump(src: &mut Src, fixed: Option<usize>) -> (Pump, usize) {
    let lists: [(&str, &[&str], &str); 10] = [
        ("", CONTENT, ""),
        ("", WRONG, ""),
        ("<p", TAG, "></p>"),
        ("<p a=\"", VALUE, "\"></p>"),
        ("<p a=", VALUE, "></p>"),
        ("<p class=\"", VALUE, "\"></p>"),
        ("<!--", COMMENT, "-->"),
        ("<script>", RAW, "</script>"),
        ("<!doctype", DOCTYPE, ">"),
        ("<p></p", TAG, ">"),
    ];
    let total: usize = lists.iter().map(|l| 2 * l.1.len()).sum::<usize>() + NEST.len() + 2 * NAME.len();
    let none = String::new;
    if let Some(k) = fixed {
        let mut k = k % total;
        for (pre, us, post) in lists {
            if k < 2 * us.len() {
                let post = if k % 2 == 0 { post } else { "" };
                return (Pump { pre: pre.into(), u: us[k / 2].into(), mid: none(), v: none(), post: post.into() }, total);
            }
            k -= 2 * us.len();
        }
        if k < NEST.len() {
            let (u, v) = NEST[k];
            return (Pump { pre: none(), u: u.into(), mid: none(), v: v.into(), post: none() }, total);
        }
        k -= NEST.len();
        let p = if k % 2 == 0 {
            Pump { pre: "<".into(), u: NAME[k / 2].into(), mid: "></".into(), v: NAME[k / 2].into(), post: ">".into() }
        } else {
            Pump { pre: "<p ".into(), u: NAME[k / 2].into(), mid: none(), v: none(), post: "></p>".into() }
        };
        return (p, total);
    }
    let mut p = match src.below(20) {
        0..=4 => Pump { pre: none(), u: some(src, CONTENT, 3), mid: none(), v: none(), post: none() },
        5..=7 => {
            let (u, v) = *src.pick(NEST);
            let (a, b, c) = if src.chance(1, 2) {
                (some(src, CONTENT, 2), maybe(src, "t"), some(src, CONTENT, 1))
            } else {
                (none(), none(), none())
            };
            Pump { pre: none(), u: format!("{}{}", a, u), mid: b, v: format!("{}{}", c, v), post: none() }
        }
        8 => {
            let n = some(src, NAME, 2);
            Pump { pre: "<".into(), u: n.clone(), mid: "></".into(), v: n, post: ">".into() }
        }
        9 => {
            // text between as much markup
            let v = some(src, CONTENT, 2);
            Pump { pre: none(), u: some(src, CONTENT, 2), mid: maybe(src, "<br>"), v, post: none() }
        }
        n => {
            let (pre, us, post) = *src.pick(&lists);
            let post = maybe(src, post);
            let u = some(src, us, 3);
            if n < 17 {
                Pump { pre: pre.into(), u, mid: none(), v: none(), post }
            } else {
                // the whole of it over and over
                Pump { pre: none(), u: format!("{}{}{}", pre, u, post), mid: none(), v: none(), post: none() }
            }
        }
    };
    if src.chance(1, 5) {
        p.pre = format!("{}{}", some(src, CONTENT, 3), p.pre);
    }
    if src.chance(1, 5) {
        p.post.push_str(&some(src, CONTENT, 2));
    }
    if src.chance(1, 8) {
        p.post.push_str(src.pick(WRONG));
    }
    (p, total)
}

/// What is done with a template.
#[derive(Clone, Debug)]
enum Work {
    Fixed(usize),
    /// Number so of those made for their input.
    Sized(usize),
    Program(Vec<Op>, Vec<Vec<Node>>),
}

const FIXED: usize = 30;

fn fixed(k: usize, t: &Template) -> Result<Template, StreamError> {
    match k {
        0 => t.transform(|h| h.select("p", |h| h.add_class("z"))),
        1 => t.transform(|h| h.select("p", |h| h.append_contents("t"))),
        2 => t.transform(|h| h.select_direct("p", |h| h.prepend_contents("t"))),
        3 => t.transform(|h| h.select_once("p", |h| h.replace_contents("t"))),
        4 => t.transform(|h| h.select("p", |h| h.remove())),
        5 => t.transform(|h| h.select("p", |h| h.remove_contents())),
        6 => t.transform(|h| h.select("p", |h| h.replace(1))),
        7 => t.transform(|h| h.select("p", |h| h.subselect("p", |h| h.set_id("i")))),
        8 => t.transform(|h| h.select("p", |h| h.subselect_direct("p", |h| h.append(2)))),
        9 => t.transform(|h| h.select("p", |h| h.subselect_contents(|h| h.prepend("x")))),
        10 => t.transform(|h| h.select("p", |h| h.repeat(0..2, |h, i| h.set_attribute_with_value("n", i)))),
        11 => t.transform(|h| h.select("p", |h| h.repeat_contents(0..3, |h, i| h.append(i)))),
        12 => t.transform(|h| h.select("p", |h| h.repeat_contents_or_else(0..0, |h, _: i32| h, |h| h.remove_class("x")))),
        13 => t.transform(|h| h.select(".x", |h| h.set_attribute_with_value("k", "v"))),
        14 => t.transform(|h| h.select("p", |h| h.remove_attribute("a"))),
        15 => t.transform(|h| h.select("p", |h| h.add_to_attribute("a", "w", " "))),
        16 => t.transform(|h| h.select("p", |h| h.remove_class("x"))),
        17 => t.transform(|h| h.select("p.x.y#i", |h| h.remove())),
        18 => t.transform(|h| h.select("p", |h| h.subselect_once(".x", |h| h.repeat_contents(0..2, |h, _| h.select("b", |h| h.remove()))))),
        19 => t.transform(|h| h.apply_as_template(Ok)),
        20 => t.transform(|h| h.prepend(t).append(t)),
        21 => t.transform(|h| h.select_once("p", |h| h.append_contents(t).replace_contents(t))),
        22 => t.transform(|h| h.repeat(0..3, |h, _| h)),
        23 => t.transform(|h| h.remove()),
        24 => t.transform(|h| h.replace("x")),
        25 => t.transform(|h| {
            h.select("p", |h| h.add_class("m")).select("b", |h| h.remove()).select("i", |h| h.remove_contents()).select_once("br", |h| h.replace(1))
        }),
        26 => t.transform(|h| h.append(Data::from_unencoded_str(&t.to_string())).select("p", |h| h.set_attribute_with_value("q", "é"))),
        27 => t.transform(|h| h.repeat_or_else(0..0, |h, _: u8| h, |h| h.append("none"))),
        28 => t.transform(|h| h.select("li", |h| h.into_boxed()).select_direct_once("p", |h| h.into_boxed_element().remove_id())),
        _ => {
            let s = t.to_string();
            t.transform(|h| {
                h.append(Data::from_unencoded_str(&s))
                    .prepend(Template::from_str(&s, ParseOptions::default()))
                    .select_once("p", |h| h.set_attribute_with_value("a", Value::from_unencoded_str(&s)).add_class("k"))
            })
        }
    }
}

type SizedWork = (&'static str, &'static str, &'static str, &'static str, &'static str, fn(&Template, usize) -> Result<Template, StreamError>);

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

const CLASSES: (&str, &str, &str, &str, &str) = ("<p class=\"", "c\u{e000} ", "x ", "d\u{e000} ", "\"></p>");
const ATTRS: (&str, &str, &str, &str, &str) = ("<p", " a\u{e000}=\"v\"", " x=\"y\"", " b\u{e000}", "></p>");
const ITEMS: (&str, &str, &str, &str, &str) = ("<ul>", "<li class=\"k\" a=b id=i>\u{e000}<b>t</b></li>", "<p class=\"x\"></p>", "<!--\u{e000}-->", "</ul>");
const ONE: (&str, &str, &str, &str, &str) = ("<p class=\"x y\" a=\"v\" id=\"i\">", "t", "", "", "</p>");

macro_rules! sized {
    ($($p:expr => $f:expr),* $(,)?) => { &[$(($p.0, $p.1, $p.2, $p.3, $p.4, $f)),*] };
}

fn some_text(n: usize) -> String {
    let mut s = String::new();
    for i in 0..n {
        numbered(&mut s, "w\u{e000} & ", i);
    }
    s
}

/// Inputs of which exactly that grows what the operation works on, and operations with arguments that grow.
const SIZED: &[SizedWork] = sized![
    CLASSES => |t, _| t.transform(|h| h.select("p", |e| e.remove_class("x"))),
    CLASSES => |t, _| t.transform(|h| h.select("p", |e| e.remove_class("c0000"))),
    CLASSES => |t, _| t.transform(|h| h.select("p", |e| e.remove_class("d0000"))),
    CLASSES => |t, _| t.transform(|h| h.select("p", |e| e.remove_class("nope"))),
    CLASSES => |t, _| t.transform(|h| h.select("p", |e| e.add_class("nope"))),
    CLASSES => |t, _| t.transform(|h| h.select("p", |e| e.add_class("d0000"))),
    CLASSES => |t, _| t.transform(|h| h.select(".x", |e| e.add_to_attribute("class", "x", " "))),
    CLASSES => |t, _| t.transform(|h| h.select(".d0000", |e| e.set_attribute_with_value("class", "x"))),
    CLASSES => |t, _| t.transform(|h| h.select(".nope", |e| e.remove())),
    CLASSES => |t, _| t.transform(|h| h.select("p.x.d0000.c0000.x.x", |e| e.replace_attribute_value_if_exists("class", "q"))),
    CLASSES => |t, _| t.transform(|h| h.select("p", |e| e.add_class("y").remove_class("x").add_class("x").remove_class("y"))),
    CLASSES => |t, _| t.transform(|h| h.repeat(0..3, |h, _| h.select(".x", |e| e.remove_class("x")))),
    ("<p class=\"", "x ", "y", " x", "\"></p>") => |t, _| t.transform(|h| h.select(".y", |e| e.remove_class("x"))),
    ("<p class=\"", "x ", "", " ", "\"></p>") => |t, _| t.transform(|h| h.select("p", |e| e.remove_class("x"))),
    ("<p class=\"", " ", "y", "\t\n", "\"></p>") => |t, _| t.transform(|h| h.select(".y", |e| e.remove_class("y"))),
    ("<p id=\"", "i\u{e000}", "", "", "\"></p>") => |t, _| t.transform(|h| h.select("#x", |e| e.set_id("k")).select("p", |e| e.remove_id())),
    ATTRS => |t, _| t.transform(|h| h.select("p", |e| e.set_attribute_with_value("x", "z"))),
    ATTRS => |t, _| t.transform(|h| h.select("p", |e| e.set_attribute_with_value("new", "z"))),
    ATTRS => |t, _| t.transform(|h| h.select("p", |e| e.set_attribute_with_value("b0000", "z"))),
    ATTRS => |t, _| t.transform(|h| h.select("p", |e| e.remove_attribute("x"))),
    ATTRS => |t, _| t.transform(|h| h.select("p", |e| e.remove_attribute("b0000").remove_attribute("a0000").remove_attribute("nope"))),
    ATTRS => |t, _| t.transform(|h| h.select("p", |e| e.add_to_attribute("x", "z", ","))),
    ATTRS => |t, _| t.transform(|h| h.select("p", |e| e.add_to_attribute("nope", "z", ","))),
    ATTRS => |t, _| t.transform(|h| h.select("p", |e| e.replace_attribute_value_if_exists("x", "z").replace_attribute_value_if_exists("nope", "z"))),
    ATTRS => |t, _| t.transform(|h| h.select("p", |e| e.add_attribute_with_value("new", "z"))),
    ATTRS => |t, _| t.transform(|h| h.select("p", |e| e.add_empty_attribute("x"))),
    ATTRS => |t, _| t.transform(|h| h.select("p", |e| e.set_empty_attribute("x").set_id("i").add_class("c"))),
    ATTRS => |t, _| t.transform(|h| h.select("p#i.c", |e| e.remove())),
    ATTRS => |t, _| t.transform(|h| h.select("p", |e| e.remove_id().remove_class("c"))),
    ATTRS => |t, _| t.transform(|h| h.repeat(0..3, |h, i| h.select("p", move |e| e.set_attribute_with_value("x", i)))),
    ITEMS => |t, _| t.transform(|h| h.select("ul", |e| e.subselect_contents(|h| h.select("li", |e| e.add_class("z"))))),
    ITEMS => |t, _| t.transform(|h| h.select("ul", |e| e.repeat_contents(0..3, |h, _| h))),
    ITEMS => |t, _| t.transform(|h| h.select("ul", |e| e.repeat_contents(0..3, |h, _| h.select_once("li", |e| e.remove())))),
    ITEMS => |t, _| t.transform(|h| h.select("li", |e| e.repeat(0..2, |h, i| h.prepend_contents(i)))),
    ITEMS => |t, _| t.transform(|h| h.select("li", |e| e.apply_as_template(|t| t.transform(|h| h.append("x"))))),
    ITEMS => |t, _| t.transform(|h| h.select_direct("ul", |e| e.subselect_direct("li", |e| e.subselect_direct("b", |e| e.replace_contents("x"))))),
    ITEMS => |t, _| t.transform(|h| h.select("li", |e| e.apply_as_boxed_element(|e| e.add_class("m")).apply_as_boxed(|h| h.append(1)))),
    ITEMS => |t, _| t.transform(|h| h.select("li", |e| e.subselect("b", |e| e.remove_contents()))),
    ITEMS => |t, _| t.transform(|h| h.select(".x", |e| e.replace(t)).select("li", |e| e.remove())),
    ITEMS => |t, _| t.transform(|h| h.select("ul", |e| e.remove_contents())),
    ITEMS => |t, _| t.transform(|h| h.select("ul", |e| e.replace_contents(t).append(t))),
    ITEMS => |t, _| t.transform(|h| h.select_once(".x", |e| e.append(t).prepend(t))),
    ITEMS => |t, _| t.transform(|h| h.apply_as_template(|u| u.transform(|h| h.append(t)))),
    ITEMS => |t, _| t.transform(|h| h.select("li", |e| e.select_once("b", |e| e.remove()).select("b", |e| e.add_class("r")))),
    ITEMS => |t, _| {
        let u = t.clone();
        if u == *t { Ok(u) } else { t.transform(|h| h.remove()) }
    },
    ONE => |t, _| t.transform(|h| h.select("p", |e| e.repeat_contents(0..3, |h, i| h.append(i).prepend(t)))),
    ITEMS => |t, _| t.transform(|h| h.append(t)).and_then(|a| if a == *t { Ok(t.clone()) } else { Ok(a) }),
    ("<p class=\"x y\" a=\"v\" id=\"i\">t</p>", "\u{e000}", "", "", "") => |t, n| t.transform(|h| h.select("p", |e| e.repeat(0..n, |e, i| e.set_attribute_with_value("i", i)))),
    ("<p>t</p>", "\u{e000}", "", "", "") => |t, n| t.transform(|h| h.select("p", |e| e.repeat(0..n, |e, i| e.append_contents(i)))),
    ("<p>t</p>", "\u{e000}", "", "", "") => |t, n| t.transform(|h| h.select("p", |e| e.repeat_or_else(0..n, |e, i| e.set_attribute_with_value("n", i), |h| h))),
    ("<p>t</p>", "\u{e000}", "", "", "") => |t, n| t.transform(|h| h.select("p", |e| e.repeat_contents(0..n, |h, i| h.append(i)))),
    ("<p>t</p>", "\u{e000}", "", "", "") => |t, n| t.transform(|h| h.select("p", |e| e.repeat_contents_or_else(0..n, |h, i| h.append(i), |e| e))),
    ("<p>t</p>", "\u{e000}", "", "", "") => |t, n| t.transform(|h| h.select("p", |e| e.repeat((0..n).filter(|i| i % 7 == 0), |e, _| e.select("p", |e| e.remove())))),
    ("<p class=\"x\">t</p>", "\u{e000}", "", "", "") => |t, n| {
        let names: Vec<String> = (0..n).map(|i| format!("c{}", i)).collect();
        t.transform(|h| h.select(html5_fuser::select::Classes::from_str_iterator(names.iter().map(|s| &s[..])), |e| e.remove()))
    },
    ("<p class=\"x\">t</p>", "\u{e000}", "", "", "") => |t, n| {
        let s: String = (0..n).map(|_| ".x").collect();
        t.transform(|h| h.select(leak(s), |e| e.add_class("y")))
    },
    ("<p class=\"x\">t</p>", "\u{e000}", "", "", "") => |t, n| {
        let s: String = (0..n).map(|i| format!(".c{}", i)).collect();
        t.transform(|h| h.select(leak(s), |e| e.add_class("y")))
    },
    ("<p class=\"x\">t</p>", "\u{e000}", "", "", "") => |t, n| {
        let s = leak("y".repeat(n));
        t.transform(|h| h.select("p", |e| e.add_class(s).set_id(s).set_empty_attribute(s).remove_class(s)).select(s, |e| e.remove()))
    },
    ("<p class=\"x\">t</p>", "\u{e000}", "", "", "") => |t, n| {
        let s = some_text(n);
        t.transform(|h| h.select("p", |e| e.set_attribute_with_value("a", Value::from_unencoded_str(&s)).add_to_attribute("a", Value::from_unencoded_str(&s), " ").append(Data::from_unencoded_str(&s))))
    },
    ("<p class=\"x\">t</p>", "\u{e000}", "", "", "") => |t, n| {
        let s = leak(some_text(n));
        t.transform(|h| h.select("p", |e| e.set_attribute_with_value("a", s).add_to_attribute("a", s, s).append_contents(s)).append(Data::from_unencoded_static_str(s)))
    },
    ("<p class=\"x\">t</p>", "\u{e000}", "", "", "") => |_, n| {
        let s = leak("n".repeat(n));
        Template::with_transformed_element(s, |e| e.append_contents(s).select(s, |e| e.add_class("x")))
    },
    ("<p class=\"x\">t</p>", "\u{e000}", "", "", "") => |t, n| {
        // many operations, one after the other
        let mut u = t.clone();
        for _ in 0..n / 8 {
            u = u.transform(|h| h.select("p", |e| e.set_id("i").add_class("k").remove_class("k").replace_contents("t")))?;
        }
        Ok(u)
    },
];

const PLAIN: Mix = Mix { select: 10, content: 10, repeat: 3, attr: 8, apply: 3, look: 0, errors: 1, max_ops: 3, depth: 2, ..MIX };

fn a_work(src: &mut Src, pump: &Pump) -> Work {
    if src.chance(1, 2) {
        return Work::Fixed(src.below(FIXED));
    }
    let toks = crate::refparse::parse(&pump.text(2), None).ok().and_then(|t| tree(&t)).unwrap_or_default();
    let pool = a_pool(src, true);
    let mut g = Pg::new(src, PLAIN, pool.len(), &toks);
    Work::Program(g.ops(PLAIN.depth, false, false), pool)
}

/// One number for each thing measured.
type Cost = Vec<(&'static str, u64)>;

/// Measures what is done between start and end.
trait Meter {
    fn start(&mut self);
    fn end(&mut self) -> Result<Cost, String>;
}

struct Allocations {
    total: usize,
    calls: usize,
    live: usize,
}

impl Meter for Allocations {
    fn start(&mut self) {
        self.live = alloc::LIVE.load(Relaxed);
        alloc::PEAK.store(self.live, Relaxed);
        self.total = alloc::TOTAL.load(Relaxed);
        self.calls = alloc::CALLS.load(Relaxed);
    }
    fn end(&mut self) -> Result<Cost, String> {
        Ok(vec![
            ("bytes allocated", (alloc::TOTAL.load(Relaxed) - self.total) as u64),
            ("allocations", (alloc::CALLS.load(Relaxed) - self.calls) as u64),
            ("peak of live bytes", alloc::PEAK.load(Relaxed).saturating_sub(self.live) as u64),
        ])
    }
}

/// Which step costs what, with one input.
fn cost(m: &mut dyn Meter, pump: &Pump, work: &Work, n: usize, ctx: Option<&mut Ctx>) -> Result<Vec<(&'static str, Cost)>, String> {
    let s = pump.text(n);
    let mut v = Vec::new();
    m.start();
    let r = Template::from_str(&s, ParseOptions::default());
    let c = m.end()?;
    let t = match r {
        Err(e) => {
            v.push(("refusing", c));
            m.start();
            let s = format!("{}", e);
            let c = m.end()?;
            drop(s);
            v.push(("the message", c));
            if let Some(ctx) = ctx {
                ctx.count("refused");
            }
            return Ok(v);
        }
        Ok(t) => t,
    };
    v.push(("loading", c));
    m.start();
    let out = t.to_string();
    v.push(("rendering", m.end()?));
    drop(out);
    let (r, c) = match work {
        Work::Fixed(k) => {
            m.start();
            let r = fixed(*k, &t);
            (r, m.end()?)
        }
        Work::Sized(k) => {
            m.start();
            let r = (SIZED[*k].5)(&t, n);
            (r, m.end()?)
        }
        Work::Program(ops, pool) => {
            let mut ts = Vec::new();
            for p in pool {
                ts.push(crate::h::load(&crate::gen::spelled(p))?);
            }
            let env = Rc::new(RealEnv::new(ts));
            m.start();
            let r = real::run(&t, ops, &env);
            (r, m.end()?)
        }
    };
    v.push(("transforming", c));
    if let Some(ctx) = ctx {
        ctx.count("loaded");
        ctx.count("programs run");
    }
    if let Ok(t) = r {
        m.start();
        let out = t.to_string();
        v.push(("rendering the result", m.end()?));
        drop(out);
    }
    Ok(v)
}

/// How to tell: the input grows twice by a factor; the cost for each further repetition may grow by another.
/// Buffers that double make steps in what is allocated, so that wants wider spacing than instructions do.
struct Rule {
    factor: usize,
    limit: f64,
    /// Where to look again.
    again: usize,
}

const BY_ALLOCATIONS: Rule = Rule { factor: 8, limit: 3.5, again: 3 };
const BY_INSTRUCTIONS: Rule = Rule { factor: 4, limit: 2.5, again: 3 };

/// Which of the things measured grow faster than the input?
fn steep(m: &mut dyn Meter, rule: &Rule, pump: &Pump, work: &Work, n: usize, mut ctx: Option<&mut Ctx>) -> Result<Vec<(String, String, f64)>, String> {
    let f = rule.factor;
    let a = cost(m, pump, work, n, ctx.as_deref_mut())?;
    let b = cost(m, pump, work, f * n, None)?;
    // far off already?
    for (i, (step, ca)) in a.iter().enumerate() {
        let Some(sb) = b.get(i).filter(|s| s.0 == *step) else { continue };
        for (j, (what, x)) in ca.iter().enumerate() {
            let y = sb.1[j].1;
            if *what == "instructions" && y > 150_000_000 && y as f64 > *x as f64 * 2.2 * f as f64 {
                return Err(format!(
                    "{} of {} grows faster than the input: with {} repetitions and {} times as many {}, {}",
                    what, step, n, f, x, y
                ));
            }
        }
    }
    let c = cost(m, pump, work, f * f * n, None)?;
    let mut grows = false;
    let mut bad = Vec::new();
    for (i, (step, ca)) in a.iter().enumerate() {
        let (Some(sb), Some(sc)) = (b.get(i), c.get(i)) else { continue };
        if sb.0 != *step || sc.0 != *step {
            continue;
        }
        for (j, (what, x)) in ca.iter().enumerate() {
            let (x, y, z) = (*x as f64, sb.1[j].1 as f64, sc.1[j].1 as f64);
            // for as many repetitions
            let (d1, d2) = (y - x, (z - y) / f as f64);
            // what hardly grows is noise
            let floor = match *what {
                "allocations" => 60.0,
                "instructions" => 60_000.0,
                _ => 6_000.0,
            };
            if z - y < floor || z - y < z * 0.2 {
                continue;
            }
            grows = true;
            // (a buffer may be half empty)
            let least = (y / 4.0).max(floor / 64.0);
            if d2 > rule.limit * d1.max(least) {
                bad.push((format!("{} of {}", what, step), format!("{}, {}, {}", x, y, z), z));
            }
        }
    }
    if grows {
        if let Some(ctx) = ctx {
            ctx.count("grows with the input");
            ctx.nontrivial(format!("{:?}{:?}", pump, work).as_bytes());
        }
    }
    Ok(bad)
}

fn decide(m: &mut dyn Meter, rule: &Rule, pump: &Pump, work: &Work, n: usize, ctx: Option<&mut Ctx>) -> Res {
    let first = steep(m, rule, pump, work, n, ctx)?;
    if first.is_empty() {
        return Ok(());
    }
    // (no need to wait for more of the obvious)
    if let Some((what, nums)) = first.iter().find(|f| f.2 > 500e6 && f.0.starts_with("instructions")).map(|f| (&f.0, &f.1)) {
        return Err(format!("{} grows faster than the input: with {} repetitions, {} times and {} times as many {}", what, n, rule.factor, rule.factor * rule.factor, nums));
    }
    let second = steep(m, rule, pump, work, rule.again * n, None)?;
    for (what, nums, _) in &second {
        if let Some((_, before, _)) = first.iter().find(|f| f.0 == *what) {
            return Err(format!(
                "{} grows faster than the input: with {} repetitions, {} times and {} times as many {}; with {} {}",
                what, n, rule.factor, rule.factor * rule.factor, before, rule.again * n, nums
            ));
        }
    }
    Ok(())
}

fn sized(k: usize) -> (Pump, Work) {
    let (pre, u, mid, v, post, _) = SIZED[k % SIZED.len()];
    (Pump { pre: pre.into(), u: u.into(), mid: mid.into(), v: v.into(), post: post.into() }, Work::Sized(k % SIZED.len()))
}

fn allocations(ctx: &mut Ctx, src: &mut Src) -> Res {
    let (pump, work) = if src.chance(1, 12) {
        sized(src.below(SIZED.len()))
    } else {
        let which = if src.chance(1, 4) { Some(src.below(1000)) } else { None };
        let (pump, _) = a_pump(src, which);
        let work = a_work(src, &pump);
        (pump, work)
    };
    let bytes = *src.pick(&[150, 400, 1000]);
    let n = pump.times(bytes);
    ctx.about(format!("{:?}\n    repeated {} times, {:?}", pump, n, work));
    ctx.sample(|| format!("{:?} {:?}", pump, work));
    let mut m = Allocations { total: 0, calls: 0, live: 0 };
    decide(&mut m, &BY_ALLOCATIONS, &pump, &work, n, Some(ctx))
}

// ---- callgrind

#[cfg(all(target_arch = "x86_64", not(miri)))]
fn request(code: u64, arg: u64) -> u64 {
    let args: [u64; 6] = [code, arg, 0, 0, 0, 0];
    let out: u64;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") args.as_ptr(),
            inout("rdx") 0u64 => out,
        );
    }
    out
}
#[cfg(not(all(target_arch = "x86_64", not(miri))))]
fn request(_: u64, _: u64) -> u64 {
    0
}

const CALLGRIND: u64 = ((b'C' as u64) << 24) | ((b'T' as u64) << 16);

/// Lives in a process under callgrind.
struct Instructions {
    base: String,
    dumps: usize,
}

impl Meter for Instructions {
    fn start(&mut self) {
        request(CALLGRIND + 1, 0);
    }
    fn end(&mut self) -> Result<Cost, String> {
        request(CALLGRIND, 0);
        self.dumps += 1;
        let name = format!("{}.{}", self.base, self.dumps);
        let s = std::fs::read_to_string(&name).map_err(|e| format!("harness: {}: {}", name, e))?;
        let _ = std::fs::remove_file(&name);
        let n = s
            .lines()
            .find_map(|l| l.strip_prefix("summary: ").or_else(|| l.strip_prefix("totals: ")))
            .and_then(|l| l.trim().parse().ok())
            .ok_or_else(|| format!("harness: no total in {}", name))?;
        Ok(vec![("instructions", n)])
    }
}

/// Cases for one process under callgrind: those of the fixed ones with the number of the process, then random ones.
pub fn under_callgrind(base: &str, seed: u64, number: u64, of: u64, secs: u64, thorough: bool) -> i32 {
    let start = std::time::Instant::now();
    let mut m = Instructions { base: base.into(), dumps: 0 };
    let mut ctx = Ctx::new(seed, false);
    let mut done = 0;
    let mut systematic = 0;
    let total = a_pump(&mut Src::seeded(0), Some(0)).1 as u64;
    let bytes = if thorough { *[1_000, 4_000].get((number % 2) as usize).unwrap_or(&1_000) } else { 1_500 };
    let mut next = number;
    while start.elapsed().as_secs() < secs {
        let i = next;
        let mut src = Src::seeded(crate::run::case_seed(seed, "callgrind", i));
        // the order depends on the seed
        let round = i / of;
        let i = (round - (round + 2) / 4) * of + number;
        let k = (i + seed * 37) % total;
        let (pump, work) = if round % 4 == 1 {
            // every fourth
            sized(((round / 4) * of + number + seed * 11) as usize)
        } else if i < total {
            let p = a_pump(&mut src, Some(k as usize)).0;
            systematic += 1;
            let w = Work::Fixed(src.below(FIXED));
            (p, w)
        } else {
            let p = a_pump(&mut src, None).0;
            let w = a_work(&mut src, &p);
            (p, w)
        };
        let n = pump.times(bytes);
        ctx.about = format!("{:?}\n    {:?}", pump, work);
        let _ = std::fs::write(format!("{}.case", base), &ctx.about);
        match decide(&mut m, &BY_INSTRUCTIONS, &pump, &work, n, Some(&mut ctx)) {
            Ok(()) => {}
            Err(e) if e.starts_with("harness: ") => {
                eprintln!("{}", e);
                return 3;
            }
            Err(e) => {
                println!("found: {}", e);
                println!("{}", ctx.about);
                return 1;
            }
        }
        done += 1;
        next += of;
    }
    println!("done: {} {} {}", done, systematic, m.dumps);
    0
}

fn instructions(x: &mut Extra) -> Result<(), String> {
    let dir = std::path::PathBuf::from(format!("/verif/scratch/callgrind-{}", std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let (of, secs) = (8u64, if x.thorough { 500 } else { 36 });
    let mut threads = Vec::new();
    for n in 0..of {
        let base = dir.join(format!("cg{}", n));
        let mut c = Command::new("valgrind");
        c.args(["--tool=callgrind", "--collect-atstart=yes", "--main-stacksize=8388608"])
            .arg(format!("--callgrind-out-file={}", base.display()))
            .arg(&exe)
            .arg("grow")
            .arg(&base)
            .args([x.seed.to_string(), n.to_string(), of.to_string(), secs.to_string()])
            .arg(if x.thorough { "thorough" } else { "quick" })
            .stdin(Stdio::null());
        threads.push(std::thread::spawn(move || {
            let file = |k: &str| format!("{}.{}", base.display(), k);
            c.stdout(std::fs::File::create(file("out")).map_err(|e| e.to_string())?);
            c.stderr(std::fs::File::create(file("err")).map_err(|e| e.to_string())?);
            let r = run_limited(&mut c, secs as f64 + 150.0).map_err(|e| format!("valgrind: {}", e))?;
            let read = |k: &str| std::fs::read(file(k)).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
            Ok::<_, String>((r, read("out"), read("err"), read("case")))
        }));
    }
    let mut res = Ok(());
    for (n, t) in threads.into_iter().enumerate() {
        let ((status, late), out, err, case) = match t.join().map_err(|_| "a thread of the harness failed".to_string()).and_then(|r| r) {
            Ok(o) => o,
            Err(e) => {
                res = Err(e);
                continue;
            }
        };
        if let Some(l) = out.lines().find_map(|l| l.strip_prefix("done: ")) {
            let v: Vec<u64> = l.split(' ').filter_map(|w| w.parse().ok()).collect();
            for (name, n) in ["cases under callgrind", "systematic cases under callgrind", "callgrind measurements"].iter().zip(&v) {
                *x.counters.entry(name.to_string()).or_insert(0) += n;
            }
        } else if let Some(l) = out.lines().find_map(|l| l.strip_prefix("found: ")) {
            let mut text = String::new();
            let _ = writeln!(text, "# C20 under callgrind, process {} of {}, seed {}", n, of, x.seed);
            text.push_str(&out);
            x.violations.push((l.to_string(), text));
        } else if late {
            // the cases take a second or two
            x.violations.push((format!("one case takes minutes: {:.600}", case), case));
        } else {
            res = Err(format!("callgrind run {} ended with {:?}: {:.1500}", n, status, err));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    res
}
