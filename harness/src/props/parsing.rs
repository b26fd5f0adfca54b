//! C01-C06: loading and rendering markup.

use crate::choice::Src;
use crate::gen::*;
use crate::h::*;
use crate::refparse::{self, RErr};
use crate::run::{fam, Ctx, Prop, Res};
use crate::tree::*;
use html5_fuser::template::{FileError, InputError};
use html5_fuser::{ParseOptions, Template};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "Documents are generated as trees of elements (common, void, raw, near-miss and odd names), attributes, texts, comments and doctypes, written with random white space, slashes and letter case between the parts, or made by mutating such documents; a case is non-trivial if the loaded document has at least one tag with an attribute, a comment, doctype or raw element.",
            families: vec![
                fam("spelled documents", c01_spelled, 240_000, 900_000),
                fam("mutated documents", c01_mutated, 240_000, 900_000),
                fam("large documents", c01_large, 320, 2_000),
            ],
            assumptions: &["texts above 4 GiB are not tried"],
            needs: &["rendered", "void", "raw", "self-closed", "comment", "doctype"],
            extra: None,
        },
        Prop {
            id: "C03",
            rule: "Inputs are well-formed documents, mutations of them (characters, tokens and markup fragments inserted, deleted, replaced, copied, cut), sequences of markup fragments, and all short strings over an alphabet of markup characters; the verdict is compared with a reference parser written from the documented rules. A case is non-trivial if it contains at least one '<'.",
            families: vec![
                fam("well-formed", c03_good, 160_000, 400_000),
                fam("mutated", c03_mutated, 480_000, 2_000_000),
                fam("fragments", c03_soup, 480_000, 2_000_000),
                fam("short strings", c03_short, 1_280_000, 4_000_000),
                fam("deep and wide", c03_deep, 160, 800),
            ],
            assumptions: &["texts above 4 GiB are not tried"],
            needs: &["accepted", "rejected"],
            extra: None,
        },
        Prop {
            id: "C04",
            rule: "Refused inputs as for C03, with line breaks and multi-byte characters before and inside the offending part; a case is non-trivial if the input is refused, distinct by input.",
            families: vec![
                fam("mutated", c04_mutated, 480_000, 2_000_000),
                fam("fragments", c04_soup, 480_000, 2_000_000),
                fam("planted", c04_planted, 480_000, 2_000_000),
            ],
            assumptions: &[],
            needs: &["locations checked", "error kinds: Mismatch", "error kinds: Missing"],
            extra: None,
        },
        Prop {
            id: "C05",
            rule: "Documents, well-formed and not, loaded from strings and files with every limit around the document's own length and depth and with random and extreme limits, built through the builder methods and the fields; non-trivial if a limit is within one of the document's own size.",
            families: vec![
                fam("length of strings", c05_len, 160_000, 400_000),
                fam("depth", c05_depth, 240_000, 600_000),
                fam("files", c05_file, 12_000, 20_000),
                fam("options", c05_options, 40_000, 50_000),
            ],
            assumptions: &[],
            needs: &["refused for length", "refused for depth", "within limits"],
            extra: None,
        },
    ]
}

pub fn seen(ctx: &mut Ctx, toks: &[Tok]) -> bool {
    let mut rich = false;
    for t in toks {
        let (k, r) = match t {
            Tok::Doctype(_) => ("doctype", true),
            Tok::Comment(_) => ("comment", true),
            Tok::Text(_) => ("text", false),
            Tok::Raw(_) => ("raw", true),
            Tok::Open(_, a) => ("opening tag", !a.is_empty()),
            Tok::Close(_) => ("closing tag", false),
            Tok::SelfClosed(_, a) => ("self-closed", !a.is_empty()),
            Tok::Void(_, a) => ("void", !a.is_empty()),
        };
        ctx.count(k);
        rich |= r;
    }
    rich
}

fn shape(src: &mut Src) -> Shape {
    let mut s = SMALL;
    if src.chance(1, 6) {
        s.depth = 25;
        s.nodes = 60;
    }
    if src.chance(1, 4) {
        s.narrow = true;
    }
    s
}

// ---- C01

pub fn roundtrip(ctx: &mut Ctx, markup: &str, toks: &[Tok]) -> Res {
    let t = load(markup)?;
    let out = t.to_string();
    ctx.count("rendered");
    if seen(ctx, toks) {
        ctx.nontrivial(markup.as_bytes());
    }
    let got = read(&out)?;
    let want = drop_empty(toks.to_vec());
    if got != want {
        return Err(format!(
            "rendering differs: {}\n  input:  {}\n  output: {}",
            first_diff(&want, &got),
            show(markup),
            show(&out)
        ));
    }
    let again = format!("{}", t);
    if again != out {
        return Err("rendering twice gives different output".into());
    }
    written(ctx, &t, &out)
}

/// Takes what is written until there is no room left.
struct Room {
    text: String,
    left: usize,
    refused: bool,
}

impl std::fmt::Write for Room {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let mut n = self.left.min(s.len());
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        self.text.push_str(&s[..n]);
        self.left -= n;
        if n < s.len() {
            self.left = 0;
            self.refused = true;
            return Err(std::fmt::Error);
        }
        Ok(())
    }
}

/// Rendering with the format's options, and to where there is not room enough.
pub fn written(ctx: &mut Ctx, t: &Template, out: &str) -> Res {
    use std::fmt::Write;
    let n = ctx.index as usize;
    // options that are for numbers and single words must not reach into the document
    let (what, got) = match n % 8 {
        0 => ("{:.3}", format!("{:.3}", t)),
        1 => ("{:9}", format!("{:9}", t)),
        2 => ("{:*>7}", format!("{:*>7}", t)),
        3 => ("{:#}", format!("{:#}", t)),
        4 => ("{:05}", format!("{:05}", t)),
        5 => ("{:^+8.0}", format!("{:^+8.0}", t)),
        6 => {
            let mut v = Vec::new();
            let _ = std::io::Write::write_fmt(&mut v, format_args!("{}", t));
            ("{} to bytes", String::from_utf8(v).unwrap_or_default())
        }
        _ => {
            let room = if out.is_empty() { 0 } else { (n / 8 * 7919) % (out.len() + 3) };
            let mut w = Room { text: String::new(), left: room, refused: false };
            let r = write!(w, "{}", t);
            if r.is_err() != (room < out.len()) || r.is_err() != w.refused {
                return Err(format!("rendering to a place with room for {} of {} bytes gave {:?}", room, out.len(), r));
            }
            if !out.starts_with(&w.text[..]) {
                return Err(format!("written before the failure: {}\n  instead of: {}", show(&w.text), show(out)));
            }
            ctx.count("rendered to a failing writer");
            return Ok(());
        }
    };
    if got != out {
        return Err(format!("rendered with {}: {}\n  instead of: {}", what, show(&got), show(out)));
    }
    ctx.count("rendered with options");
    Ok(())
}

fn c01_spelled(ctx: &mut Ctx, src: &mut Src) -> Res {
    let sh = shape(src);
    let toks = doc_toks(src, sh);
    let noise = src.chance(4, 5);
    let s = spell(src, &toks, noise);
    match refparse::parse(&s, None) {
        Ok(ref t) if drop_empty(t.clone()) == drop_empty(toks.clone()) => {}
        other => panic!("generator and reference disagree: {:?} {:?} {:?}", s, toks, other),
    }
    ctx.about(format!("markup: {}", show(&s)));
    ctx.sample(|| s.clone());
    roundtrip(ctx, &s, &toks)
}

fn c01_mutated(ctx: &mut Ctx, src: &mut Src) -> Res {
    for _ in 0..4 {
        let s = mutant(src, 1);
        if let Ok(toks) = refparse::parse(&s, None) {
            ctx.about(format!("markup: {}", show(&s)));
            ctx.sample(|| s.clone());
            return roundtrip(ctx, &s, &toks);
        }
    }
    ctx.count("no well-formed mutant");
    Ok(())
}

/// One big thing: text, value, comment, raw text, many attributes, siblings or levels.
pub fn large(src: &mut Src, max: usize) -> Vec<Tok> {
    let n = size(src, max);
    let unit = src.pick(&["x", "ä", "日", "🙂", "a b ", "&amp;", "\n", "-", "'"]).to_string();
    let big: String = unit.repeat(n / unit.len() + 1);
    let mut toks = Vec::new();
    let open = |n: &str| Tok::Open(n.into(), vec![]);
    let close = |n: &str| Tok::Close(n.into());
    match src.below(9) {
        0 => toks.extend([open("p"), Tok::Text(big), close("p")]),
        1 => toks.push(Tok::Void(
            "img".into(),
            vec![Attr { name: "a".into(), value: Some(big) }, Attr { name: "b".into(), value: None }],
        )),
        2 => toks.push(Tok::Comment(if unit == "-" { "- ".repeat(n / 2) } else { big })),
        3 => toks.extend([open("script"), Tok::Raw(big), close("script")]),
        4 => {
            let v = (0..n / 8)
                .map(|i| Attr { name: format!("a{}", i), value: Some(i.to_string()) })
                .collect();
            toks.push(Tok::SelfClosed("p".into(), v));
        }
        5 => {
            for i in 0..n / 8 {
                toks.push(Tok::SelfClosed(format!("e{}", i % 7), vec![]));
                toks.push(Tok::Text("t".into()));
            }
        }
        6 => {
            let d = n / 8;
            for i in 0..d {
                toks.push(open(if i % 3 == 0 { "b" } else { "a" }));
            }
            toks.push(Tok::Text("x".into()));
            for i in (0..d).rev() {
                toks.push(close(if i % 3 == 0 { "B" } else { "a" }));
            }
        }
        7 => toks.push(Tok::Open(("n".repeat(n / 2)) + "x", vec![])),
        _ => {
            for i in 0..n / 16 {
                toks.push(Tok::Comment(format!("{}", i)));
                toks.push(open("li"));
                toks.push(Tok::Text(unit.clone()));
                toks.push(close("LI"));
            }
        }
    }
    if let [Tok::Open(n, _)] = &toks[..] {
        let n = n.clone();
        toks.push(Tok::Close(n));
    }
    toks
}

fn c01_large(ctx: &mut Ctx, src: &mut Src) -> Res {
    let max = if ctx.thorough { 1 << 22 } else { 1 << 19 };
    let toks = large(src, max);
    let s = spell(src, &toks, false);
    ctx.about(format!("markup: {}", show(&s)));
    ctx.add("bytes of large documents", s.len() as u64);
    roundtrip(ctx, &s, &toks)
}

// ---- mutation

const PIECES: &[&str] = &[
    "<", ">", "/", "=", "\"", "'", "&", "!", "-", "--", "-->", "<!--", "<!", "</", "/>", " ", "\n",
    "\t", "\r", "\u{c}", "\u{b}", "\u{a0}", "\u{2003}", "\u{85}", "\u{200b}", "é", "日", "🙂", "\0", "a", "b", "x", "<a", "<b>",
    "</a>", "</b>", "<a/>", "<br>", "<br/>", "<A>", "</A>", "a=\"b\"", "=\"", "\"\"", "class=\"x\"",
    "<!doctype html>", "<!DOCTYPE", "doctype", "html", "<script>", "</script>", "</SCRIPT >",
    "<title>", "</title>", "<style>", "</style>", "<textarea>", "</textarea>", "script", "title",
    "<img", "< a", "< /a >", "<a b", ",", ";", "<!-->", "<!--->", "<>", "</>", "< >", "<é>", "</é>",
    "<a é>", "<a b=c>", "<a b='c'>", "<a b=", "<a b = \"", "<!a>", "<!>", "<a !b>", "<a/ >", "<a / / >",
    "<a/b>", "</a b>", "</a/>", "<a\">", "<a'>", "<a&>", "<a,>", "<a;>", "<a b,>", "<a b&=\"\">", "<?xml ?>",
    "<html>", "</html>", "<p", "</p", "{{", "K", "ſ", "<scrIpt", "<\u{212a}>", "<!doctype html", "<!doctypehtml>",
    "<!doctype\u{a0}html>", "<! doctype html >", "<!doctype html x>", "<!doctype>",
];

pub fn piece(src: &mut Src) -> String {
    if src.chance(1, 30) {
        let t = long_text(src);
        return match src.below(8) {
            0 => format!("<!doctype {}>", t),
            1 => format!("<!doctype {}", t),
            2 => format!("<!--{}-->", t),
            3 => format!("<{}{}>", long_name(src), t),
            4 => format!("</{}{}>", long_name(src), t),
            5 => format!("<a {}=\"{}\">", long_name(src), t),
            6 => format!("<a {}={}>", long_name(src), t),
            _ => t,
        };
    }
    match src.below(12) {
        0 => src.pick(&dict().texts).clone(),
        1 => {
            let n = elem_name(src);
            match src.below(4) {
                0 => format!("<{}>", n),
                1 => format!("</{}>", n),
                2 => format!("<{}/>", n),
                _ => n,
            }
        }
        _ => src.pick(PIECES).to_string(),
    }
}

/// A document with a few changes.
pub fn mutant(src: &mut Src, at_least: usize) -> String {
    let sh = Shape { nodes: 8, ..SMALL };
    let toks = doc_toks(src, sh);
    let noise = src.chance(1, 2);
    let mut s: Vec<char> = spell(src, &toks, noise).chars().collect();
    let n = at_least + src.below(4);
    for _ in 0..n {
        let len = s.len();
        // prefer places at markup
        let mut at = src.below(len + 1);
        if src.chance(2, 3) {
            for k in 0..12 {
                if at + k < len && "<>=\"/!-".contains(s[at + k]) {
                    at += k + src.below(2);
                    break;
                }
            }
        }
        match src.below(7) {
            0 | 1 => {
                let p: Vec<char> = piece(src).chars().collect();
                s.splice(at..at, p);
            }
            2 => {
                let end = (at + 1 + src.below(3)).min(len);
                s.drain(at.min(len)..end);
            }
            3 => {
                let end = (at + 1).min(len);
                let p: Vec<char> = piece(src).chars().collect();
                s.splice(at.min(end)..end, p);
            }
            4 => {
                let end = (at + 1 + src.below(20)).min(len);
                let part: Vec<char> = s[at.min(end)..end].to_vec();
                let to = src.below(len + 1);
                s.splice(to..to, part);
            }
            5 => {
                if at < len && src.chance(1, 3) {
                    s.truncate(at);
                } else if at < len {
                    let c = s[at];
                    s[at] = if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
                }
            }
            _ => {
                if at + 1 < len {
                    s.swap(at, at + 1);
                }
            }
        }
    }
    s.into_iter().collect()
}

pub fn soup(src: &mut Src) -> String {
    let mut s = String::new();
    let n = 1 + src.len(14);
    for _ in 0..n {
        s.push_str(&piece(src));
    }
    s
}

// ---- C03

pub fn verdict(ctx: &mut Ctx, s: &str, places: bool) -> Res {
    ctx.about(format!("input: {}", show(s)));
    let want = refparse::parse(s, None);
    let got = Template::from_str(s, ParseOptions::default());
    judge(ctx, s, &want, &got, places)
}

fn kind(e: &RErr) -> &'static str {
    use RErr::*;
    match e {
        UnsupportedDoctype { .. } => "error kinds: UnsupportedDoctype",
        UnclosedDoctype { .. } => "error kinds: UnclosedDoctype",
        UnclosedComment { .. } => "error kinds: UnclosedComment",
        UnfinishedOpen { .. } => "error kinds: UnfinishedOpen",
        UnfinishedClose { .. } => "error kinds: UnfinishedClose",
        OpenNameMissing { .. } => "error kinds: OpenNameMissing",
        OpenNameBad { .. } => "error kinds: OpenNameBad",
        CloseNameMissing { .. } => "error kinds: CloseNameMissing",
        CloseNameBad { .. } => "error kinds: CloseNameBad",
        AttrNameBad { .. } => "error kinds: AttrNameBad",
        ValueUnquoted { .. } => "error kinds: ValueUnquoted",
        ValueUnclosed { .. } => "error kinds: ValueUnclosed",
        Missing(_) => "error kinds: Missing",
        Limit { .. } => "error kinds: Limit",
        Unexpected { .. } => "error kinds: Unexpected",
        Mismatch { .. } => "error kinds: Mismatch",
    }
}

fn judge(
    ctx: &mut Ctx,
    s: &str,
    want: &Result<Vec<Tok>, RErr>,
    got: &Result<Template, InputError>,
    places: bool,
) -> Res {
    match (want, got) {
        (Ok(toks), Ok(t)) => {
            ctx.count("accepted");
            let out = t.to_string();
            let back = read(&out)?;
            let want = drop_empty(toks.clone());
            if !places && back != want {
                return Err(format!("accepted, but read differently: {}", first_diff(&want, &back)));
            }
            Ok(())
        }
        (Err(w), Err(InputError::Parse { error })) => {
            ctx.count("rejected");
            ctx.count(kind(w));
            let Some(g) = view(error) else {
                return Err(format!("expected {:?}, got {:?}", w, error));
            };
            if placeless(w) != placeless(&g) && places {
                // not for this property, but the places must still be true
                ctx.count("another error than expected");
                for (_, l) in crate::h::places(error) {
                    check_place(s, &l)?;
                }
                return Ok(());
            }
            if placeless(w) != placeless(&g) {
                return Err(format!("expected the error {:?}, got {:?}", w, g));
            }
            if !places {
                return crate::real::input_causes(got.as_ref().err().ok_or("no error")?);
            }
            check_error(ctx, s, w, &g, error)
        }
        (Ok(_), Err(_)) | (Err(_), Ok(_)) if places => {
            ctx.count("another verdict than expected");
            Ok(())
        }
        (Ok(_), Err(e)) => Err(format!("a well-formed input was refused: {:?}", e)),
        (Err(w), Ok(t)) => {
            Err(format!("accepted, although {:?}\n  output: {}", w, show(&t.to_string())))
        }
        (_, Err(e)) => Err(format!("wrong error: {:?}", e)),
    }
}

fn c03_good(ctx: &mut Ctx, src: &mut Src) -> Res {
    let sh = shape(src);
    let toks = doc_toks(src, sh);
    let s = spell(src, &toks, true);
    ctx.nontrivial(s.as_bytes());
    verdict(ctx, &s, false)
}

fn c03_mutated(ctx: &mut Ctx, src: &mut Src) -> Res {
    let s = mutant(src, 1);
    if s.contains('<') {
        ctx.nontrivial(s.as_bytes());
    }
    ctx.sample(|| s.clone());
    verdict(ctx, &s, false)
}

fn c03_soup(ctx: &mut Ctx, src: &mut Src) -> Res {
    let s = soup(src);
    if s.contains('<') {
        ctx.nontrivial(s.as_bytes());
    }
    ctx.sample(|| s.clone());
    verdict(ctx, &s, false)
}

/// All strings over a few alphabets in order of length, each put behind a prefix.
pub fn short(index: u64, seed: u64) -> String {
    // symbols are whole pieces, so that short strings say more
    const ALPHA: &[&[&str]] = &[
        &["<", ">", "/", "a", " ", "=", "\"", "!", "-", "é"],
        &["<a>", "</a>", "<b>", "</b>", "<a/>", "x", "<!--", "-->", "</A>", "<br>"],
        &["<title>", "</title>", "<", "/", "title", ">", " ", "<b>", "</", "é"],
        &["<a", " ", "b", "=", "\"", ">", "/", "'", "&", "</a>"],
        &["<!", "doctype", " ", "html", ">", "<!--", "--", "-->", "-", "a"],
    ];
    let set = ALPHA[(index % ALPHA.len() as u64) as usize];
    let mut i = index / ALPHA.len() as u64;
    // first all strings of up to four symbols, then longer ones at random places of the order
    let n = set.len() as u64;
    let full = 1 + n + n * n + n * n * n + n * n * n * n;
    if i >= full {
        i = full + crate::choice::mix(seed ^ i) % (n.pow(5) + n.pow(6) + n.pow(7));
    }
    let mut len = 0;
    let mut block = 1u64;
    while i >= block {
        i -= block;
        block *= n;
        len += 1;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(set[(i % n) as usize]);
        i /= n;
    }
    s
}

fn c03_short(ctx: &mut Ctx, _src: &mut Src) -> Res {
    let s = short(ctx.index, ctx.seed);
    if s.contains('<') {
        ctx.nontrivial(s.as_bytes());
    }
    verdict(ctx, &s, false)
}

fn c03_deep(ctx: &mut Ctx, src: &mut Src) -> Res {
    let max = 1 << 18;
    let mut toks = large(src, max);
    match src.below(4) {
        _ if toks.is_empty() => {}
        0 => {
            let at = src.below(toks.len());
            toks.remove(at);
        }
        1 => {
            let at = src.below(toks.len());
            let t = toks[at].clone();
            toks.insert(at, t);
        }
        _ => {}
    }
    let s = spell(src, &toks, false);
    ctx.nontrivial(s.as_bytes());
    verdict(ctx, &s, false)
}

// ---- C04

fn numbers(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|p| p.parse().ok()).collect()
}

fn check_error(
    ctx: &mut Ctx,
    s: &str,
    want: &RErr,
    got: &RErr,
    error: &html5_fuser::parse::Error,
) -> Res {
    ctx.nontrivial(s.as_bytes());
    let mut w = want.clone();
    if let RErr::Missing(ref mut v) = w {
        v[1..].sort_by(|a, b| b.1.cmp(&a.1));
    }
    if w != *got {
        return Err(format!("expected the error {:?}, got {:?}", w, got));
    }
    let msg = error.to_string();
    let mut nameless = msg.clone();
    for (n, _) in places(error) {
        if let Some(n) = n {
            nameless = nameless.replace(&format!("'{}'", n), " ");
        }
    }
    for (i, (name, l)) in places(error).iter().enumerate() {
        check_place(s, l)?;
        ctx.count("locations checked");
        if l.line() > 1 {
            ctx.count("locations after the first line");
        }
        if let Some(n) = name {
            if !msg.contains(&n[..]) {
                return Err(format!("the message does not tell the name {:?}: {}", n, msg));
            }
        }
        if i == 0 || matches!(want, RErr::Mismatch { .. }) {
            // line and column follow each other among the numbers, after the names were cut out
            let all = numbers(&nameless);
            if !all.windows(2).any(|p| p[0] == l.line() && p[1] == l.column()) {
                return Err(format!(
                    "the message does not tell line {} column {}: {}",
                    l.line(),
                    l.column(),
                    msg
                ));
            }
        }
        let shown = l.to_string();
        let n = numbers(&shown);
        if !(n.contains(&l.line()) && n.contains(&l.column())) {
            return Err(format!("location {:?} is shown as {:?}", l, shown));
        }
    }
    match want {
        RErr::Mismatch { open, close } => paired(&msg, s, open, close)?,
        RErr::UnfinishedOpen { .. } | RErr::OpenNameMissing { .. } | RErr::OpenNameBad { .. } => {
            if nameless.to_lowercase().contains("closing") {
                return Err(format!("the message is about a closing tag: {}", msg));
            }
        }
        RErr::UnfinishedClose { .. } | RErr::CloseNameMissing { .. } | RErr::CloseNameBad { .. } => {
            if nameless.to_lowercase().contains("opening") {
                return Err(format!("the message is about an opening tag: {}", msg));
            }
        }
        _ => {}
    }
    if let RErr::ValueUnquoted { attr, .. } | RErr::ValueUnclosed { attr, .. } = want {
        if !msg.contains(&attr[..]) {
            return Err(format!("the message does not tell the attribute {:?}: {}", attr, msg));
        }
    }
    if let RErr::Limit { limit, .. } = want {
        if !numbers(&msg).contains(limit) {
            return Err(format!("the message does not tell the limit: {}", msg));
        }
    }
    Ok(())
}

/// In a message about two tags, each name is followed by its own place, closing and opening
/// told apart.
fn paired(msg: &str, s: &str, open: &(String, usize), close: &(String, usize)) -> Res {
    let marked =
        msg.replace(&format!("'{}'", close.0), "\u{1}").replace(&format!("'{}'", open.0), "\u{2}");
    let at = |word: &str| marked.to_lowercase().find(word);
    let seg = |from: usize, to: usize| marked.get(from..to).unwrap_or("").to_string();
    let (Some(c), Some(o)) = (at("closing"), at("opening")) else { return Ok(()) };
    let (cs, os) =
        if c < o { (seg(c, o), seg(o, marked.len())) } else { (seg(c, marked.len()), seg(o, c)) };
    for (text, t, mark, what) in [(&cs, close, '\u{1}', "closing"), (&os, open, '\u{2}', "opening")] {
        let (l, col) = refparse::line_col(s, t.1);
        if !text.contains(mark) || !numbers(text).windows(2).any(|p| p == [l, col]) {
            return Err(format!(
                "the message does not pair the {} tag {:?} with line {} column {}: {}",
                what, t.0, l, col, msg
            ));
        }
    }
    Ok(())
}

fn lines(src: &mut Src, s: String) -> String {
    // line breaks and wide characters in front
    if src.chance(2, 3) {
        let mut p = String::new();
        for _ in 0..src.below(6) {
            p.push_str(*src.pick(&["\n", "ä", "日本\n", "\r\n", "🙂", "x", "<!-- é\n -->", "<br\n>", "\u{2028}", "\r", "\u{b}", "\u{c}", "\u{85}", "<p title=\"é\n\n\">é</p>", "\t"]));
        }
        return p + &s;
    }
    s
}

fn c04_mutated(ctx: &mut Ctx, src: &mut Src) -> Res {
    let s = mutant(src, 1);
    let s = lines(src, s);
    ctx.sample(|| s.clone());
    verdict(ctx, &s, true)
}

fn c04_soup(ctx: &mut Ctx, src: &mut Src) -> Res {
    let s = soup(src);
    let s = lines(src, s);
    verdict(ctx, &s, true)
}

/// A well-formed beginning, then one offending part, then anything.
fn c04_planted(ctx: &mut Ctx, src: &mut Src) -> Res {
    const BAD: &[&str] = &[
        "<!doctype x>", "<!doctype", "<!--", "<a ", "<a b=\"x\" ", "</a ", "<>", "<é>", "</>", "</é>",
        "<a é=\"\">", "<a b=c>", "<a b=\"c>", "<a>", "</q>", "<a></b>", "<a\n b=\n\"x\"\n\n/ x>", "< ", "<\n/\n>",
        "<a\nbc\n,=\"\">", "<a b\n=\n'c'>", "<a b\n=\n\"c>", "</a\n\n<", "<a><b></a></b>", "<A\n>\n</\nb\n>", "<\n\n!a>", "<\n\"", "<a <b>",
        "<!doctype\nhtml\nx\n>", "<!\ndoctype\n", "<!--\n--", "</\n\né>", "<\né>", "<p\n\"x\">", "<a\n=\"x\">", "</a =", "<title>x</title><script>\n", "<a href=x/>", "<a b=\"\"c=d>",
    ];
    let sh = Shape { nodes: 6, ..SMALL };
    let mut toks = doc_toks(src, sh);
    // cut so that some elements stay open
    let keep = src.below(toks.len() + 1);
    toks.truncate(keep);
    let s = spell(src, &toks, true);
    let mut s = lines(src, s);
    let bad = match src.below(3) {
        0 => {
            let n = elem_name(src);
            let m = elem_name(src);
            match src.below(4) {
                0 => format!("<{}>\n<{} ", n, m),
                1 => format!("<{}>é</{}>", n, m),
                2 => format!("</{}>", n),
                _ => format!("<{}\n>日\n<{}>", n, m),
            }
        }
        _ => src.pick(BAD).to_string(),
    };
    s.push_str(&bad);
    if src.chance(1, 2) {
        s.push_str(&soup(src));
    }
    verdict(ctx, &s, true)
}

// ---- C05

fn any_markup(src: &mut Src) -> String {
    if src.chance(1, 5) {
        return mutant(src, 1);
    }
    let sh = shape(src);
    let toks = doc_toks(src, sh);
    let noise = src.chance(1, 2);
    spell(src, &toks, noise)
}

pub fn near(src: &mut Src, n: usize) -> usize {
    match src.below(10) {
        0 => 0,
        1 => usize::MAX,
        2 => 1,
        3 => n.saturating_sub(1),
        4 | 5 => n,
        6 => n + 1,
        7 => src.below(2 * n + 2),
        8 => usize::MAX - 1 - src.below(3),
        _ => src.below(12),
    }
}

pub fn with_limits(src: &mut Src, depth: Option<usize>, len: Option<usize>) -> ParseOptions {
    let mut o = match src.below(3) {
        0 => return ParseOptions { max_stack_depth: depth, max_input_len: len },
        1 => ParseOptions::default(),
        _ => ParseOptions { max_stack_depth: Some(src.below(5)), max_input_len: Some(src.below(50)) },
    };
    let a = |o: ParseOptions| match depth {
        Some(d) => o.max_stack_depth(d),
        None => o.no_max_stack_depth(),
    };
    let b = |o: ParseOptions| match len {
        Some(d) => o.max_input_len(d),
        None => o.no_max_input_len(),
    };
    if src.chance(1, 2) {
        o = b(a(o));
    } else {
        o = a(b(o));
    }
    if src.chance(1, 4) {
        o = b(a(o));
    }
    o
}

fn open_depth(toks: &[Tok]) -> usize {
    let (mut d, mut m) = (0usize, 0);
    for t in toks {
        match t {
            Tok::Open(..) => {
                d += 1;
                m = m.max(d);
            }
            Tok::Close(_) => d -= 1,
            _ => {}
        }
    }
    m
}

pub fn limited(
    ctx: &mut Ctx,
    s: &str,
    depth: Option<usize>,
    len: Option<usize>,
    got: &Result<Template, InputError>,
) -> Res {
    if let Some(limit) = len {
        if s.len() > limit {
            ctx.count("refused for length");
            return match got {
                Err(e @ InputError::LengthLimitExceeded { limit: l }) if *l == limit => {
                    if !numbers(&e.to_string()).contains(&limit) {
                        return Err(format!("the message does not tell the limit: {}", e));
                    }
                    Ok(())
                }
                other => Err(format!(
                    "{} bytes with a limit of {}: expected to be refused for its length, got {:?}",
                    s.len(),
                    limit,
                    other.as_ref().map(|t| t.to_string())
                )),
            };
        }
    }
    if let Err(InputError::LengthLimitExceeded { limit }) = got {
        return Err(format!("{} bytes refused for exceeding {}, set: {:?}", s.len(), limit, len));
    }
    let want = refparse::parse(s, depth);
    if let Err(RErr::Limit { tag, at, limit }) = want {
        ctx.count("refused for depth");
        let Err(InputError::Parse { error: e @ html5_fuser::parse::Error::StackLimitExceeded { tag: t, location, limit: l } }) = got
        else {
            return Err(format!(
                "expected to be refused at {:?} (byte {}) for the depth limit {}, got {:?}",
                tag, at, limit, got.as_ref().map(|t| t.to_string())
            ));
        };
        if (t, location.offset(), l) != (&tag, at, &limit) {
            return Err(format!(
                "expected to be refused at {:?} (byte {}) for the depth limit {}, got {:?}",
                tag, at, limit, e
            ));
        }
        check_place(s, location)?;
        if !numbers(&e.to_string()).contains(&limit) {
            return Err(format!("the message does not tell the limit: {}", e));
        }
        return Ok(());
    }
    let free = Template::from_str(s, ParseOptions::default());
    match (&free, got) {
        (Ok(a), Ok(b)) => {
            ctx.count("within limits");
            if a != b || a.to_string() != b.to_string() {
                return Err("loads differently with limits than without".into());
            }
        }
        (a, b) => {
            ctx.count("malformed within limits");
            let show = |r: &Result<Template, InputError>| match r {
                Ok(t) => format!("output {:?}", t.to_string()),
                Err(e) => format!("{:?}", e),
            };
            if show(a) != show(b) {
                return Err(format!("without limits: {}; within limits: {}", show(a), show(b)));
            }
        }
    }
    Ok(())
}

fn c05_len(ctx: &mut Ctx, src: &mut Src) -> Res {
    let s = any_markup(src);
    let l = near(src, s.len());
    if l.abs_diff(s.len()) <= 1 {
        ctx.nontrivial(format!("{} {}", l, s).as_bytes());
    }
    ctx.about(format!("length limit {} on {} bytes: {}", l, s.len(), show(&s)));
    ctx.sample(|| format!("limit {} on {} bytes", l, s.len()));
    let o = with_limits(src, None, Some(l));
    limited(ctx, &s, None, Some(l), &Template::from_str(&s, o))
}

fn c05_depth(ctx: &mut Ctx, src: &mut Src) -> Res {
    let mut s = any_markup(src);
    if src.chance(1, 6) {
        let n = src.below(40);
        s = format!("{}{}{}{}", s, "<a>".repeat(n), s, "</a>".repeat(n));
    }
    let own = refparse::parse(&s, None).map(|t| open_depth(&t)).unwrap_or(3);
    let d = near(src, own);
    if d.abs_diff(own) <= 1 {
        ctx.nontrivial(format!("{} {}", d, s).as_bytes());
    }
    ctx.about(format!("depth limit {} on depth {}: {}", d, own, show(&s)));
    ctx.sample(|| format!("depth limit {} on {}", d, s));
    let l = if src.chance(1, 5) { Some(near(src, s.len())) } else { None };
    let o = with_limits(src, Some(d), l);
    limited(ctx, &s, Some(d), l, &Template::from_str(&s, o))
}

fn c05_file(ctx: &mut Ctx, src: &mut Src) -> Res {
    let mut s = any_markup(src);
    if src.chance(1, 3) {
        let n = size(src, 40_000);
        let unit = src.pick(&["x", "ä", "日", "\n"]).to_string();
        s.push_str(&unit.repeat(n / unit.len()));
    }
    let l = if src.chance(4, 5) { Some(near(src, s.len())) } else { None };
    let d = if src.chance(1, 3) { Some(near(src, 3)) } else { None };
    if l.map_or(false, |l| l.abs_diff(s.len()) <= 1) {
        ctx.nontrivial(format!("{:?} {}", l, s).as_bytes());
    }
    ctx.about(format!("limits {:?} {:?} on a file of {} bytes: {}", l, d, s.len(), show(&s)));
    file_limited(ctx, src, &s, d, l)
}

pub fn file_limited(ctx: &mut Ctx, src: &mut Src, s: &str, d: Option<usize>, l: Option<usize>) -> Res {
    let path = scratch_file();
    std::fs::write(&path, s).unwrap_or_else(|e| panic!("scratch file: {}", e));
    let o = with_limits(src, d, l);
    let got = Template::from_file(&path, o);
    let _ = std::fs::remove_file(&path);
    match got {
        Ok(t) => limited(ctx, s, d, l, &Ok(t)),
        Err(FileError::Input { error, path: p }) => {
            if p != path {
                return Err(format!("the error names the path {:?}", p));
            }
            limited(ctx, s, d, l, &Err(error))
        }
        Err(e) => Err(format!("unexpected file error {:?}", e)),
    }
}

pub fn scratch_file() -> std::path::PathBuf {
    let dir = std::path::PathBuf::from("/verif/scratch");
    let _ = std::fs::create_dir_all(&dir);
    dir.join(format!("f{}-{:?}.html", std::process::id(), std::thread::current().id()))
}

fn c05_options(ctx: &mut Ctx, src: &mut Src) -> Res {
    let d = ParseOptions::default();
    if d.max_stack_depth.is_some() || d.max_input_len.is_some() {
        return Err(format!("limits are set by default: {:?}", d));
    }
    // a sequence of builder calls against a record of what was set
    let mut o = d;
    let (mut depth, mut len) = (None, None);
    let mut log = String::new();
    for _ in 0..src.below(8) {
        let n = near(src, 100);
        match src.below(4) {
            0 => {
                o = o.max_stack_depth(n);
                depth = Some(n);
            }
            1 => {
                o = o.no_max_stack_depth();
                depth = None;
            }
            2 => {
                o = o.max_input_len(n);
                len = Some(n);
            }
            _ => {
                o = o.no_max_input_len();
                len = None;
            }
        }
        log.push_str(&format!("{:?}/{:?} ", depth, len));
        if (o.max_stack_depth, o.max_input_len) != (depth, len) {
            return Err(format!("options {:?} after setting {}", o, log));
        }
    }
    ctx.nontrivial(log.as_bytes());
    let s = any_markup(src);
    ctx.about(format!("limits {:?} {:?} on {}", depth, len, show(&s)));
    limited(ctx, &s, depth, len, &Template::from_str(&s, o))
}
