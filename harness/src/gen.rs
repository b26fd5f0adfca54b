//! Generators of strings, names, documents and their spellings.

use crate::choice::Src;
use crate::tree::*;
use std::collections::BTreeSet;
use std::sync::OnceLock;

/// Words and numbers that occur as literals in the library's source.
pub struct Dict {
    pub words: Vec<String>,
    pub texts: Vec<String>,
    pub ints: Vec<usize>,
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(load_dict)
}

fn rs_files(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        let mut entries: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        entries.sort();
        for p in entries {
            if p.is_dir() {
                rs_files(&p, out);
            } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
                out.push(p);
            }
        }
    }
}

fn load_dict() -> Dict {
    let mut files = Vec::new();
    if !cfg!(miri) {
        rs_files(std::path::Path::new("/repo/src"), &mut files);
    }
    let mut texts = BTreeSet::new();
    let mut ints = BTreeSet::new();
    for f in files {
        let Ok(all) = std::fs::read_to_string(&f) else { continue };
        // test modules come last in a file; what they hold is of no interest
        let all = match all.find("#[cfg(test)]\nmod ") {
            Some(i) => &all[..i],
            None => &all[..],
        };
        for line in all.lines() {
            let line = line.trim();
            if line.starts_with("//") {
                continue;
            }
            let cs: Vec<char> = line.chars().collect();
            let mut i = 0;
            while i < cs.len() {
                if cs[i] == '/' && cs.get(i + 1) == Some(&'/') {
                    break;
                }
                if cs[i] == '"' {
                    let mut s = String::new();
                    let mut j = i + 1;
                    while j < cs.len() && cs[j] != '"' {
                        if cs[j] == '\\' && j + 1 < cs.len() {
                            j += 1;
                            s.push(match cs[j] {
                                'n' => '\n',
                                't' => '\t',
                                'r' => '\r',
                                '0' => '\0',
                                c => c,
                            });
                        } else {
                            s.push(cs[j]);
                        }
                        j += 1;
                    }
                    if !s.is_empty() && s.len() <= 24 {
                        texts.insert(s);
                    }
                    i = j + 1;
                    continue;
                }
                if cs[i] == '\'' && i + 2 < cs.len() && cs[i + 2] == '\'' {
                    texts.insert(cs[i + 1].to_string());
                    i += 3;
                    continue;
                }
                if cs[i].is_ascii_digit() && (i == 0 || !(cs[i - 1].is_alphanumeric() || cs[i - 1] == '_')) {
                    let radix = match (cs[i], cs.get(i + 1)) {
                        ('0', Some('x')) => 16,
                        ('0', Some('b')) => 2,
                        ('0', Some('o')) => 8,
                        _ => 10,
                    };
                    let mut v: usize = 0;
                    let mut j = if radix == 10 { i } else { i + 2 };
                    while j < cs.len() && (cs[j].is_digit(radix) || cs[j] == '_') {
                        if let Some(d) = cs[j].to_digit(radix) {
                            v = v.saturating_mul(radix as usize).saturating_add(d as usize);
                        }
                        j += 1;
                    }
                    if v >= 2 && v <= 1_000_000 {
                        ints.insert(v);
                    }
                    i = j;
                    continue;
                }
                i += 1;
            }
        }
    }
    let words: Vec<String> = texts
        .iter()
        .filter(|s| crate::refparse::element_name_rule(s).is_ok() && !s.contains('{'))
        .cloned()
        .collect();
    let words = if words.is_empty() { vec!["class".into(), "id".into()] } else { words };
    let mut texts: Vec<String> = texts.into_iter().filter(|s| !s.contains('{')).collect();
    if texts.is_empty() {
        texts.push("html".into());
    }
    let mut ints: Vec<usize> = ints.into_iter().collect();
    if ints.is_empty() {
        ints.push(16);
    }
    Dict { words, texts, ints }
}

pub fn flip_case(src: &mut Src, s: &str) -> String {
    match src.below(4) {
        0 | 1 => s.to_string(),
        2 => s.to_ascii_uppercase(),
        _ => s
            .chars()
            .map(|c| if src.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
            .collect(),
    }
}

const ELEMS: &[&str] = &["a", "b", "p", "div", "ul", "li", "span", "td", "x-y", "h1"];
const ODD: &[&str] = &[
    "x:y", "_", "a-", "-a", "--", "a!b", "a!--", "1", "9a", "a.b", "#a", "a#b", "*", "(a)", "[a]",
    "`", "|", "$x", "a$", "%", "~", "^a", "{a}", "@a", "a?", "\\", "a\u{1}b", "\u{7f}", "\0", "a+b",
    "doctype", "html", "head", "body", "cdata", "xml", "svg",
];
const NEAR: &[&str] = &[
    "scripts", "scrip", "script-x", "xscript", "styles", "styl", "titles", "titl", "textareas",
    "text", "textare", "brr", "b", "im", "imgs", "inputs", "links", "met", "metas", "hrs", "h",
    "cols", "co", "col-x", "arena", "bas", "bases", "wbrs", "params", "sources", "tracks",
];

pub fn elem_name(src: &mut Src) -> String {
    let s = match src.weighted(&[10, 3, 2, 2, 2, 1, 1]) {
        0 => src.pick(ELEMS).to_string(),
        1 => src.pick(VOID).to_string(),
        2 => src.pick(RAW).to_string(),
        3 => src.pick(NEAR).to_string(),
        4 => src.pick(&dict().words).clone(),
        5 => src.pick(ODD).to_string(),
        _ => random_name(src),
    };
    if src.chance(1, 6) {
        flip_case(src, &s)
    } else {
        s
    }
}

/// Names for elements that have contents.
pub fn plain_elem_name(src: &mut Src) -> String {
    loop_name(src, |n| !is_void(n) && !is_raw(n))
}

fn loop_name(src: &mut Src, ok: impl Fn(&str) -> bool) -> String {
    for _ in 0..8 {
        let n = elem_name(src);
        if ok(&n) {
            return n;
        }
    }
    "p".into()
}

pub fn random_name(src: &mut Src) -> String {
    if src.chance(1, 16) {
        return long_name(src);
    }
    loop {
        let n = src.range(1, 12);
        let mut s = String::new();
        for i in 0..n {
            let c = match src.below(8) {
                0 => *src.pick(&['-', '_', '.', ':', '#', '!', '+', '|', '^', '@', '\u{1}', '\u{7f}']),
                1 => *src.pick(&['0', '1', '9']),
                _ => (b'a' + src.below(26) as u8) as char,
            };
            if i == 0 && c == '!' {
                s.push('q');
            } else {
                s.push(c);
            }
        }
        if crate::refparse::element_name_rule(&s).is_ok() {
            return s;
        }
    }
}

const ATTRS: &[&str] = &["class", "id", "href", "x", "y", "data-k"];
const NEAR_ATTRS: &[&str] = &["classes", "clas", "xclass", "class-", "ids", "i", "idx", "xid", "id-"];

pub fn attr_name(src: &mut Src) -> String {
    let s = match src.weighted(&[10, 2, 2, 1, 1]) {
        0 => src.pick(ATTRS).to_string(),
        1 => src.pick(NEAR_ATTRS).to_string(),
        2 => src.pick(&dict().words).clone(),
        3 => src.pick(ODD).to_string(),
        _ => random_name(src),
    };
    if src.chance(1, 6) {
        flip_case(src, &s)
    } else {
        s
    }
}

const WS: &[&str] = &[" ", "\n", "\t", "\r", "\r\n", "  ", " \n ", "\u{c}", "\u{b}"];

pub fn ws(src: &mut Src, min: usize) -> String {
    let mut s = String::new();
    let n = if src.chance(1, 4) { src.range(min, min + 3) } else { min };
    for _ in 0..n {
        if src.chance(1, 3) {
            // never straight after a name: only ASCII separators end one
            s.push_str(if s.is_empty() { *src.pick(&WS[..7]) } else { *src.pick(WS) });
        } else {
            s.push(' ');
        }
    }
    s
}

const BITS: &[&str] = &[
    "foo", "bar", "x", "1", " ", "  ", "\n", "\t", "\r\n", ">", "&", "&amp;", "&lt;", "&#39;", "'",
    "/", "/>", "-->", "--", "-", "!", "]]>", "=", ";", ",", "{{", "ä", "ß", "é", "日本", "𝒳", "🙂",
    "e\u{301}", "\u{a0}", "\u{2028}", "\u{feff}", "\0", "\u{1}", "\u{85}", "\u{200d}", "\u{fffd}",
    "&quot;", "&gt", "K", "İ", "#", "%",
];

/// A text whose length is about one that code might treat specially, with wide characters anywhere.
pub fn long_text(src: &mut Src) -> String {
    const ABOUT: &[usize] = &[8, 16, 20, 24, 32, 40, 48, 50, 60, 64, 72, 80, 100, 120, 128, 200, 250, 256, 300, 500, 512];
    let about = if src.chance(1, 4) { *src.pick(&dict().ints) % 600 } else { *src.pick(ABOUT) };
    let n = (about + src.below(9)).saturating_sub(4);
    let wide = *src.pick(&['é', '日', '🙂', 'x', ' ']);
    let plain = *src.pick(&['x', 'a', ' ', '1', '-', '&']);
    let mut s = String::new();
    match src.below(3) {
        // wide from somewhere on
        0 => {
            let from = src.below(n + 1);
            while s.len() < n {
                s.push(if s.len() < from { plain } else { wide });
            }
        }
        // in turns
        1 => {
            let k = src.range(1, 9);
            let mut i = 0;
            while s.len() < n {
                s.push(if i % k == 0 { wide } else { plain });
                i += 1;
            }
        }
        // anything
        _ => {
            while s.len() < n {
                s.push_str(src.pick(BITS));
            }
        }
    }
    s
}

/// A valid name of such a length.
pub fn long_name(src: &mut Src) -> String {
    let n = long_text(src).len().max(1);
    let c = *src.pick(&["a", "x", "ab-", "class"]);
    c.repeat(n / c.len() + 1)[..n].to_string()
}

/// Any text made of typical and odd pieces, without the given characters.
pub fn text_without(src: &mut Src, bad: &str, max: usize) -> String {
    if src.chance(1, 100) {
        let mut s = long_text(src);
        s.retain(|c| !bad.contains(c));
        return s;
    }
    let n = src.len(max);
    let mut s = String::new();
    for _ in 0..n {
        match src.weighted(&[6, 3, 1, 1]) {
            0 => s.push_str(src.pick(BITS)),
            1 => s.push((b'a' + src.below(26) as u8) as char),
            2 => s.push_str(src.pick(&dict().texts)),
            _ => {
                let c = match src.below(4) {
                    0 => src.below(0x80) as u32,
                    1 => 0x80 + src.below(0x780) as u32,
                    2 => 0x800 + src.below(0xd000) as u32,
                    _ => 0x1_0000 + src.below(0x10_0000) as u32,
                };
                s.push(char::from_u32(c).unwrap_or('?'));
            }
        }
    }
    if !bad.is_empty() {
        s.retain(|c| !bad.contains(c));
    }
    s
}

/// Any Unicode text, with characters that need encoding.
pub fn hostile_text(src: &mut Src) -> String {
    const H: &[&str] = &[
        "<", ">", "&", "\"", "'", "<b>", "</b>", "</a>", "<!--", "-->", "&amp;", "&lt;", "&#60;",
        "&", "\"><script>", "<script>", "</script>", "</title>", "a=\"b\"", "/>", "<br>", "&quot;",
        "<!doctype html>", "&amp;amp;", "]]>", "<![CDATA[", "&copy", "&notit;",
    ];
    let mut s = String::new();
    for _ in 0..src.len(12) {
        if src.chance(1, 2) {
            s.push_str(src.pick(H));
        } else {
            let t = text_without(src, "", 2);
            s.push_str(&t);
        }
    }
    if src.chance(1, 60) {
        let times = *src.pick(&[9usize, 40, 700, 4000]);
        s = s.repeat(times.min(40_000 / (s.len() + 1)));
    }
    s
}

/// Text for a raw element: never holds the closing tag of `name`.
pub fn raw_text(src: &mut Src, name: &str) -> String {
    let n = src.len(10);
    let mut s = String::new();
    for _ in 0..n {
        let piece = match src.below(6) {
            0 => "<".to_string(),
            1 => {
                let other = *src.pick(RAW);
                if ci(other, name) { "</".into() } else { format!("</{}>", flip_case(src, other)) }
            }
            2 => {
                let cut = src.range(1, name.len());
                let variants = [
                    format!("</{}", name),
                    format!("</{}>", &name[..cut.min(name.len() - 1).max(1)]),
                    format!("</{}x>", name),
                    format!("</ {} x>", name),
                    format!("< /{}/>", name),
                    format!("<{}>", name),
                    format!("</{}=", name),
                    format!("</{}\">", name),
                    format!("</{},>", name),
                    format!("</é{}>", name),
                    "</>".into(),
                    "< / >".into(),
                    "</b>".into(),
                ];
                src.pick(&variants).clone()
            }
            3 => src.pick(&["<!--", "-->", "<b a=\"1\">", "if (a<b && c>d) \"x\"", "<!doctype x>"]).to_string(),
            _ => text_without(src, "", 3),
        };
        s.push_str(&piece);
    }
    // drop whatever would end it, also together with what follows
    let whole = format!("<{}>{}</{}>", name, s, name);
    match crate::refparse::parse(&whole, None) {
        Ok(ref t) if t.len() == 3 && matches!(t[1], Tok::Raw(ref r) if *r == s) => s,
        _ => s.replace('<', ""),
    }
}

pub fn comment_text(src: &mut Src) -> String {
    let mut s = text_without(src, "", 8);
    if src.chance(1, 4) {
        s.push_str(*src.pick(&["-", "--", "--!", "<!--", "<", "->", "- ->", "\"", "<b>", "</b>"]));
    }
    if src.chance(1, 6) {
        s.insert_str(0, *src.pick(&["-", "->", ">", "--", "!"]));
    }
    loop {
        match s.find("-->") {
            Some(i) => s.replace_range(i..i + 3, "."),
            None => return s,
        }
    }
}

const CLASSES: &[&str] = &["x", "y", "z", "item", "it", "items", "k-1"];

pub fn class_word(src: &mut Src) -> String {
    let s = match src.below(8) {
        0 => src.pick(&dict().words).clone(),
        1 => src.pick(ODD).to_string(),
        _ => src.pick(CLASSES).to_string(),
    };
    if src.chance(1, 8) {
        flip_case(src, &s)
    } else {
        s
    }
}

pub fn attr_value(src: &mut Src, name: &str) -> Option<String> {
    if src.chance(1, 8) {
        return None;
    }
    if ci(name, "class") {
        let mut s = String::new();
        for i in 0..src.len(6) {
            if i > 0 || src.chance(1, 6) {
                s.push_str(*src.pick(&[" ", " ", "  ", "\t", "\n", " \t ", "\r\n"]));
            }
            s.push_str(&class_word(src));
        }
        if src.chance(1, 8) {
            s.push_str(*src.pick(&[" ", "\n", "  "]));
        }
        if src.chance(1, 20) {
            s.push_str(&text_without(src, "\"\u{b}\u{85}\u{a0}\u{2028}", 4));
        }
        return Some(s.replace('"', ""));
    }
    if ci(name, "id") && src.chance(7, 8) {
        return Some(class_word(src).replace('"', ""));
    }
    Some(text_without(src, "\"", 6))
}

pub fn attrs(src: &mut Src, max: usize) -> Vec<Attr> {
    let mut v: Vec<Attr> = Vec::new();
    for _ in 0..src.len(max) {
        let name = if !v.is_empty() && src.chance(1, 8) {
            let i = src.below(v.len());
            let n = v[i].name.clone();
            flip_case(src, &n)
        } else {
            attr_name(src)
        };
        let value = attr_value(src, &name);
        v.push(Attr { name, value });
    }
    v
}

#[derive(Clone, Copy, Debug)]
pub struct Shape {
    pub nodes: usize,
    pub depth: usize,
    pub attrs: usize,
    pub raw: bool,
    pub doctype: bool,
    /// Few names, so that elements of the same name nest often.
    pub narrow: bool,
    /// Only texts that read the same encoded and not.
    pub tame: bool,
}

pub const SMALL: Shape =
    Shape { nodes: 14, depth: 6, attrs: 5, raw: true, doctype: true, narrow: false, tame: false };

pub fn doc(src: &mut Src, shape: Shape) -> Vec<Node> {
    let mut budget = if src.chance(1, 12) { shape.nodes * 6 } else { 1 + src.below(shape.nodes) };
    let mut out = Vec::new();
    if shape.doctype && src.chance(1, 6) {
        out.push(Node::Doctype(flip_case(src, "html")));
    }
    forest(src, shape, &mut budget, 0, &mut out);
    out
}

const NARROW: &[&str] = &["a", "b", "p"];

fn forest(src: &mut Src, shape: Shape, budget: &mut usize, depth: usize, out: &mut Vec<Node>) {
    let n = 1 + src.below(5);
    for _ in 0..n {
        if *budget == 0 {
            break;
        }
        *budget -= 1;
        match src.weighted(&[10, 4, if shape.raw { 1 } else { 0 }, if shape.doctype { 1 } else { 0 }]) {
            0 => {
                let name = if shape.narrow && src.chance(4, 5) {
                    let n = src.pick(NARROW).to_string();
                    if src.chance(1, 8) { n.to_uppercase() } else { n }
                } else {
                    let n = elem_name(src);
                    if is_raw(&n) && !shape.raw { "p".into() } else { n }
                };
                let attrs = attrs(src, shape.attrs);
                let kind = if is_void(&name) {
                    Kind::Void
                } else if src.chance(1, 6) {
                    Kind::SelfClosed
                } else {
                    let close = if src.chance(1, 8) { flip_case(src, &name) } else { name.clone() };
                    let mut children = Vec::new();
                    if is_raw(&name) {
                        children.push(Node::Raw(raw_text(src, &name)));
                    } else if depth < shape.depth && src.chance(5, 6) {
                        forest(src, shape, budget, depth + 1, &mut children);
                    }
                    Kind::Normal { close, children }
                };
                out.push(Node::Elem(Elem { name, attrs, kind }));
            }
            1 => {
                if matches!(out.last(), Some(Node::Text(_))) {
                    continue;
                }
                let mut t = if shape.tame {
                    src.pick(&["t", "u", "some text", "\n  ", "42"]).to_string()
                } else {
                    text_without(src, "<", 6)
                };
                if t.is_empty() {
                    t.push('.');
                }
                out.push(Node::Text(t));
            }
            2 => out.push(Node::Comment(comment_text(src))),
            _ => out.push(if src.chance(1, 3) {
                Node::Doctype(flip_case(src, "html"))
            } else {
                Node::Comment(comment_text(src))
            }),
        }
    }
}

/// Write tokens with arbitrary spelling of what carries no information.
pub fn spell(src: &mut Src, toks: &[Tok], noise: bool) -> String {
    let mut s = String::new();
    for t in toks {
        if !noise {
            render_tok(t, &mut s);
            continue;
        }
        match t {
            Tok::Doctype(c) => {
                s.push_str("<!");
                s.push_str(&ws(src, 0));
                s.push_str(&flip_case(src, "doctype"));
                s.push_str(&ws(src, 1));
                s.push_str(c);
                s.push_str(&ws(src, 0));
                s.push('>');
            }
            Tok::Comment(_) | Tok::Text(_) | Tok::Raw(_) => render_tok(t, &mut s),
            Tok::Open(n, a) | Tok::Void(n, a) | Tok::SelfClosed(n, a) => {
                s.push('<');
                s.push_str(&ws(src, 0));
                s.push_str(n);
                let mut need = true;
                for at in a {
                    let min = if need || src.chance(1, 2) { 1 } else { 0 };
                    let w = ws(src, min);
                    s.push_str(&w);
                    s.push_str(&at.name);
                    need = true;
                    if let Some(ref v) = at.value {
                        s.push_str(&ws(src, 0));
                        s.push('=');
                        s.push_str(&ws(src, 0));
                        s.push('"');
                        s.push_str(v);
                        s.push('"');
                        need = false;
                    }
                }
                s.push_str(&ws(src, 0));
                let slash = match t {
                    Tok::SelfClosed(..) => true,
                    Tok::Void(..) => src.chance(1, 3),
                    _ => false,
                };
                if slash {
                    s.push('/');
                    s.push_str(&ws(src, 0));
                }
                s.push('>');
            }
            Tok::Close(n) => {
                s.push('<');
                s.push_str(&ws(src, 0));
                s.push('/');
                s.push_str(&ws(src, 0));
                s.push_str(n);
                s.push_str(&ws(src, 0));
                s.push('>');
            }
        }
    }
    s
}

/// A whole document as tokens.
pub fn doc_toks(src: &mut Src, shape: Shape) -> Vec<Tok> {
    let nodes = doc(src, shape);
    let mut t = Vec::new();
    flatten(&nodes, &mut t);
    t
}

/// Sizes around powers of two, buffer sizes and the numbers in the source.
pub fn size(src: &mut Src, max: usize) -> usize {
    let base = match src.below(4) {
        0 => 1usize << src.below(17),
        1 => *src.pick(&dict().ints),
        2 => 8192 * (1 + src.below(8)),
        _ => src.below(max + 1),
    };
    let d = src.below(5);
    (base + d).saturating_sub(2).min(max)
}

/// Markup for these nodes: rendered, or spelled in another way. The same nodes are always spelled
/// the same way.
pub fn spelled(nodes: &[Node]) -> String {
    let plain = render(nodes);
    let h = crate::choice::hash_bytes(plain.as_bytes());
    if h % 2 == 0 || plain.len() > 20_000 {
        return plain;
    }
    let mut toks = Vec::new();
    flatten(nodes, &mut toks);
    spell(&mut Src::seeded(h), &toks, true)
}
