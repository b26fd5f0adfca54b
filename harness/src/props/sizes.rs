//! One thing of an exact size at a time: texts, names, values, white space, attributes, classes,
//! levels, siblings, items, copies. All sizes of a list are combined with all shapes; the list has
//! what lies around powers of two and of ten, around multiples of the size readers use, and
//! around the numbers in the library's source.

use crate::choice::Src;
use crate::gen::*;
use crate::h::*;
use crate::prog::*;
use crate::progen::*;
use crate::props::docs;
use crate::props::parsing::*;
use crate::props::progs::{agree_within, key, Case};
use crate::props::texts::{self, nm};
use crate::props::users;
use crate::real::{self, err_text, intern, RealEnv};
use crate::refparse;
use crate::run::{Ctx, Family, Res};
use crate::tree::*;
use html5_fuser::{ParseOptions, Template};
use std::collections::BTreeSet;
use std::rc::Rc;
use std::sync::OnceLock;

const FULL: usize = 1 << 20;

fn all_sizes() -> &'static Vec<usize> {
    static S: OnceLock<Vec<usize>> = OnceLock::new();
    S.get_or_init(|| {
        let mut s: BTreeSet<usize> = (0..36).collect();
        let mut around = |n: usize, up: usize| {
            for i in 0..=up + 1 {
                s.insert((n + i).saturating_sub(1));
            }
        };
        let mut n = 32;
        while n <= FULL {
            around(n, 1);
            n *= 2;
        }
        let mut n = 100;
        while n <= FULL {
            around(n, 1);
            n *= 10;
        }
        for k in 1..8 {
            around(8192 * k, 1);
        }
        for i in &dict().ints {
            around(*i, 2);
        }
        s.into_iter().filter(|n| *n <= FULL + 1).collect()
    })
}

/// The sizes up to `max`.
fn sizes(max: usize) -> &'static [usize] {
    let all = all_sizes();
    let end = all.iter().position(|n| *n > max).unwrap_or(all.len());
    &all[..end]
}

/// Size and shape of this case.
fn pick(ctx: &mut Ctx, max: usize, shapes: usize) -> (usize, usize) {
    let list = sizes(max);
    let total = (list.len() * shapes) as u64;
    // scattered, so that cutting a run short leaves no range out
    let i = (ctx.index.wrapping_mul(1_000_003).wrapping_add(ctx.seed * 7919) % total) as usize;
    let n = list[i / shapes];
    ctx.count("exact sizes");
    let most = ctx.counters.entry("largest exact size".into()).or_insert(0);
    *most = (*most).max(n as u64);
    (n, i % shapes)
}

/// A place among n.
fn place(src: &mut Src, n: usize) -> usize {
    match src.below(7) {
        0 => 0,
        1 | 2 => n.saturating_sub(1),
        3 => n.saturating_sub(2),
        4 => n / 2,
        5 => 1.min(n.saturating_sub(1)),
        _ => src.below(n.max(1)),
    }
}

/// A family over all sizes up to the given one.
fn over(name: &'static str, run: fn(&mut Ctx, &mut Src) -> Res, max: (usize, usize), shapes: usize, rounds: (u64, u64)) -> Family {
    let cases = |max: usize, rounds: u64| (sizes(max).len() * shapes) as u64 * rounds;
    Family { name, run, cases: (cases(max.0, rounds.0), cases(max.1, rounds.1)), shrink: true, together: true }
}

fn up_to(ctx: &Ctx, max: (usize, usize)) -> usize {
    if ctx.thorough { max.1 } else { max.0 }
}

// ---- documents

const BYTES: usize = 30;
const PARTS: usize = 17;
const B_MAX: (usize, usize) = (131_074, 1 << 20);
const P_MAX: (usize, usize) = (5_000, 33_000);

fn fill(unit: &str, n: usize) -> String {
    // exactly n bytes
    let k = n % unit.len();
    let mut s = "x".repeat(k);
    s.push_str(&unit.repeat(n / unit.len()));
    s
}

/// Markup with one thing of n bytes.
fn long_thing(src: &mut Src, k: usize, n: usize) -> String {
    let x = |n: usize| fill("x", n);
    let ws = |src: &mut Src, n: usize| -> String {
        let u = *src.pick(&[" ", " ", "\n", "\t", "\r\n", "\u{a0}", "\u{3000}"]);
        if n % u.len() == 0 { u.repeat(n / u.len()) } else { " ".repeat(n) }
    };
    match k {
        0 => format!("<p>{}</p>", x(n)),
        1 => format!("<p>{}\n</p>", x(n.saturating_sub(1))),
        2 => "\n".repeat(n),
        3 => {
            let u = *src.pick(&["é", "日", "🙂"]);
            format!("<p>{}</p>", fill(u, n))
        }
        4 => format!("<p title=\"{}\" b>t</p>", x(n)),
        5 => {
            let u = *src.pick(&["é", "日", "🙂", "\n", "' ", "<"]);
            format!("<br title=\"{}\">", fill(u, n))
        }
        6 => format!("<!--{}-->", x(n)),
        7 => format!("a<!--{}-->b", fill(*src.pick(&["- ", "é", "\n", "->", "-", "<!--"]), n)),
        8 => {
            let mut s = x(n).into_bytes();
            for _ in 0..3 {
                let at = place(src, n);
                if at < s.len() {
                    s[at] = *src.pick(&[b'<', b'/', b'&', b'>', b'\n']);
                }
            }
            format!("<script>{}</script>", String::from_utf8_lossy(&s))
        }
        9 => format!("<title>{}</title>", fill(*src.pick(&["</p>", "<b>", "日", "&amp;", "</titl"]), n)),
        10 => format!("<textarea>{}</textarea>", ws(src, n)),
        11 => format!("<p{} b=\"c\">t</p>", ws(src, n)),
        12 => format!("<p b{}=\"c\">t</p>", ws(src, n)),
        13 => format!("<p b={}\"c\">t</p>", ws(src, n)),
        14 => format!("<p b=\"c\"{}>t</p>", ws(src, n)),
        15 => format!("<p>t</p{}>", ws(src, n)),
        16 => format!("<!doctype {}html{}>", ws(src, n), ws(src, 1)),
        17 => ws(src, n),
        18 => format!("<a{}>t</a{}>", x(n), if src.chance(1, 2) { x(n) } else { x(n).to_uppercase() }),
        19 => format!("<p a{}=\"b\">t</p>", x(n)),
        20 => format!("<br{}>", ws(src, n)),
        21 => format!("<p b=\"c\"{}/>", ws(src, n)),
        22 => format!("<script>x</script{}>", ws(src, n)),
        23 => format!("<style b=\"{}\">x</style>", x(n)),
        24 => fill(*src.pick(&["&amp;", "&lt;", "&#48;"]), n),
        25 => format!("<p{}b{}c/>", ws(src, n.max(1)), ws(src, n.max(1))),
        26 => format!("<!doctype html{}>", ws(src, n)),
        27 => x(n),
        28 => fill(*src.pick(&["é", "日", "🙂"]), n),
        _ => format!("<p b=\"{}\" c=\"{}\" d>{}</p>", x(n), x(n), x(n)),
    }
}

/// Markup with one thing occurring n times.
fn many_things(src: &mut Src, k: usize, n: usize) -> String {
    let mut s = String::new();
    let rep = |u: &str| u.repeat(n);
    match k {
        0 => rep("<a></a>"),
        1 => rep("<br>"),
        2 => rep("<x/>"),
        3 => rep("<a>") + &rep("</a>"),
        4 | 13 => {
            for i in 0..n {
                s.push_str(["<a>", "<b c=\"d\">", "<p>"][i % 3]);
            }
            for i in (0..n).rev() {
                s.push_str(["</a>", "</B>", "</p>"][i % 3]);
                if k == 13 {
                    s.push('t');
                }
            }
            s
        }
        5 => {
            s.push_str("<p");
            for i in 0..n {
                s.push_str(&format!(" a{}=\"{}\"", i, i));
            }
            s + ">t</p>"
        }
        6 => format!("<img{}>", rep(" a=\"b\"")),
        7 => rep("<!--c-->"),
        8 => rep("<!doctype html>"),
        9 => rep("<script></script>"),
        10 => rep("<b>t</b>\n"),
        11 => rep("t<br>"),
        12 => {
            s.push_str("<p");
            for i in 0..n {
                s.push_str(&format!(" a{}", i));
            }
            s + "/>"
        }
        14 => rep("<title>a</title>"),
        15 => {
            s.push_str("<p class=\"");
            for i in 0..n {
                s.push_str(&format!("c{} ", i));
            }
            s + "\">t</p>"
        }
        _ => {
            let u = *src.pick(&["<a>", "<a></a><b>", "t<a>", "<a>\n"]);
            let v = if u.contains("<b>") { "</b>" } else { "</a>" };
            format!("{}{}", u.repeat(n), v.repeat(n))
        }
    }
}

fn with_rest(src: &mut Src, body: String) -> String {
    if src.chance(1, 2) {
        return body;
    }
    let rest = |src: &mut Src| {
        if src.chance(1, 3) {
            return String::new();
        }
        let t = doc_toks(src, Shape { nodes: 3, ..SMALL });
        spell(src, &t, true)
    };
    let a = rest(src);
    let b = rest(src);
    format!("{}{}{}", a, body, b)
}

/// The shapes of bytes come first, then those of parts.
fn sized_markup(ctx: &mut Ctx, src: &mut Src, parts: bool) -> String {
    let body = if parts {
        let max = up_to(ctx, P_MAX);
        let (n, k) = pick(ctx, max, PARTS);
        many_things(src, k, n)
    } else {
        let max = up_to(ctx, B_MAX);
        let (n, k) = pick(ctx, max, BYTES);
        long_thing(src, k, n)
    };
    with_rest(src, body)
}

fn good(ctx: &mut Ctx, src: &mut Src, parts: bool, f: fn(&mut Ctx, &mut Src, &str, &[Tok]) -> Res) -> Res {
    let s = sized_markup(ctx, src, parts);
    ctx.about(format!("markup: {}", show(&s)));
    let Ok(toks) = refparse::parse(&s, None) else {
        ctx.count("sized, but not well-formed");
        return Ok(());
    };
    ctx.add("bytes of sized markup", s.len() as u64);
    f(ctx, src, &s, &toks)
}

fn c01_bytes(ctx: &mut Ctx, src: &mut Src) -> Res {
    good(ctx, src, false, |ctx, _, s, t| roundtrip(ctx, s, t))
}
fn c01_parts(ctx: &mut Ctx, src: &mut Src) -> Res {
    good(ctx, src, true, |ctx, _, s, t| roundtrip(ctx, s, t))
}
fn c02_bytes(ctx: &mut Ctx, src: &mut Src) -> Res {
    good(ctx, src, false, |ctx, _, s, _| docs::again(ctx, &load(s)?, true).map(|_| ()))
}
fn c02_parts(ctx: &mut Ctx, src: &mut Src) -> Res {
    good(ctx, src, true, |ctx, _, s, _| docs::again(ctx, &load(s)?, true).map(|_| ()))
}

/// Something wrong with it, maybe.
fn damage(src: &mut Src, s: String) -> String {
    let mut s = s;
    const BAD: &[&str] = &["</q>", "<a", "<!--x", "<!doctype x>", "<>", "</>", "<é>", "<a b=c>", "<a b=\"", "<a>", "</a><", "<p é>", "\n</p\n", "<p>日</b>"];
    match src.below(6) {
        0 => s,
        1 => {
            let mut n = s.len().saturating_sub(1 + src.below(8));
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s.truncate(n);
            s
        }
        2 => format!("{}{}", src.pick(BAD), s),
        3 => {
            // somewhere inside
            let mut n = place(src, s.len());
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            let b: &str = src.pick(BAD);
            s.insert_str(n, b);
            s
        }
        _ => format!("{}{}", s, src.pick(BAD)),
    }
}

fn c03_bytes(ctx: &mut Ctx, src: &mut Src) -> Res {
    let s = sized_markup(ctx, src, false);
    let s = damage(src, s);
    ctx.nontrivial(s.as_bytes());
    verdict(ctx, &s, false)
}
fn c03_parts(ctx: &mut Ctx, src: &mut Src) -> Res {
    let s = sized_markup(ctx, src, true);
    let s = damage(src, s);
    ctx.nontrivial(s.as_bytes());
    verdict(ctx, &s, false)
}
fn c04_bytes(ctx: &mut Ctx, src: &mut Src) -> Res {
    let s = sized_markup(ctx, src, false);
    let s = damage(src, s);
    verdict(ctx, &s, true)
}
fn c04_parts(ctx: &mut Ctx, src: &mut Src) -> Res {
    let s = sized_markup(ctx, src, true);
    let s = damage(src, s);
    verdict(ctx, &s, true)
}

fn c05_bytes(ctx: &mut Ctx, src: &mut Src) -> Res {
    let max = up_to(ctx, B_MAX);
    let (n, k) = pick(ctx, max, 8);
    let s = match k {
        0 | 1 => long_thing(src, 27 + k, n),
        2 => format!("<p>{}</p>", fill("x", n.saturating_sub(7))),
        3 => format!("<p>{}", fill("é", n.saturating_sub(3))),
        _ => long_thing(src, src.record.len() % BYTES, n),
    };
    let l = match src.below(4) {
        0 => s.len().saturating_sub(1),
        1 => s.len(),
        2 => s.len() + 1,
        _ => near(src, n),
    };
    ctx.about(format!("length limit {} on {} bytes: {}", l, s.len(), show(&s)));
    ctx.nontrivial(format!("{} {}", l, s.len()).as_bytes());
    if k % 2 == 1 || src.chance(1, 2) {
        let o = with_limits(src, None, Some(l));
        return limited(ctx, &s, None, Some(l), &Template::from_str(&s, o));
    }
    file_limited(ctx, src, &s, None, Some(l))
}

fn c05_parts(ctx: &mut Ctx, src: &mut Src) -> Res {
    let max = up_to(ctx, P_MAX);
    let (n, k) = pick(ctx, max, 5);
    let s = many_things(src, [3, 4, 13, 16, 10][k], n);
    let s = if src.chance(1, 3) { with_rest(src, s) } else { s };
    let s = if src.chance(1, 4) { damage(src, s) } else { s };
    let d = match src.below(6) {
        0 => n.saturating_sub(1),
        1 => n,
        2 => n + 1,
        3 => *src.pick(sizes(n.max(2))),
        4 => n + *src.pick(sizes(n.max(2))),
        _ => near(src, n),
    };
    ctx.about(format!("depth limit {} on depth {}: {}", d, n, show(&s)));
    ctx.nontrivial(format!("{} {} {}", d, n, k).as_bytes());
    let l = if src.chance(1, 5) { Some(near(src, s.len())) } else { None };
    let o = with_limits(src, Some(d), l);
    limited(ctx, &s, Some(d), l, &Template::from_str(&s, o))
}

fn c06_sizes(ctx: &mut Ctx, src: &mut Src) -> Res {
    let max = up_to(ctx, B_MAX);
    let (n, k) = pick(ctx, max, 6);
    let s = match k {
        0 => long_thing(src, 27, n),
        1 => long_thing(src, 28, n),
        2 => format!("<p>{}</p>", fill(*src.pick(&["x", "é", "日", "🙂"]), n.saturating_sub(7))),
        3 => fill(*src.pick(&["<b>é</b>", "日本\n"]), n),
        _ => {
            let at = src.below(BYTES);
            long_thing(src, at, n)
        }
    };
    let mut bytes = s.into_bytes();
    if k == 5 && !bytes.is_empty() && src.chance(1, 2) {
        let at = place(src, bytes.len());
        bytes[at] = *src.pick(&[0xff, 0xc3, 0x80, 0xe2, 0xf0]);
    }
    ctx.about(format!("{} bytes: {}", bytes.len(), show(&String::from_utf8_lossy(&bytes))));
    docs::of_file(ctx, src, &bytes)
}

// ---- texts, names, selectors, equality

fn c07_sizes(ctx: &mut Ctx, src: &mut Src) -> Res {
    let max = if ctx.thorough { 262_145 } else { 66_000 };
    let (n, k) = pick(ctx, max, 8);
    let unit = *src.pick(&["x", "x", "é", "日", "a ", "&", "<"]);
    let mut cs: Vec<char> = if k < 6 { fill(unit, n) } else { unit.repeat(n) }.chars().collect();
    // specials at a few places
    for _ in 0..src.below(4) {
        let at = place(src, cs.len());
        if at < cs.len() {
            cs[at] = *src.pick(&['&', '<', '>', '"', '\'', '\n', 'é', ';', '\u{a0}']);
        }
    }
    let text: String = cs.into_iter().collect();
    let t = load("<x>1<p>2</p>3</x>")?;
    let env = Rc::new(RealEnv::new(vec![]));
    let op = match k {
        0 => Op::AppendC(Content::Text(text.clone(), *src.pick(WAYS))),
        1 => Op::PrependC(Content::Text(text.clone(), *src.pick(WAYS))),
        2 => Op::ReplaceC(Content::Text(text.clone(), *src.pick(WAYS))),
        3 => Op::SetAttr(nm("title"), Some(Val::Text(text.clone(), *src.pick(VWAYS)))),
        4 => Op::AddTo(nm("title"), Val::Text(text.clone(), *src.pick(VWAYS)), Val::Text("".into(), VWay::Str)),
        5 => Op::AddAttrV(nm("title"), Val::Text(text.clone(), *src.pick(VWAYS))),
        6 => Op::Append(Content::Text(text.clone(), *src.pick(WAYS))),
        _ => Op::ReplaceIf(nm("class"), Val::Text(text.clone(), *src.pick(VWAYS))),
    };
    let ops = if k == 7 {
        vec![Op::AddEmpty(nm("class")), op]
    } else {
        vec![op]
    };
    ctx.about(format!("text of {} bytes {} by {:?}", text.len(), show(&text), k));
    let out = texts::run_one(&t, &texts::on_p(ops), &env)?;
    let got = match k {
        0 => texts::cut(&out, "<x>1<p>2", "</p>3</x>").and_then(texts::decode_text),
        1 => texts::cut(&out, "<x>1<p>", "2</p>3</x>").and_then(texts::decode_text),
        2 => texts::cut(&out, "<x>1<p>", "</p>3</x>").and_then(texts::decode_text),
        6 => texts::cut(&out, "<x>1<p>2</p>", "3</x>").and_then(texts::decode_text),
        7 => texts::cut(&out, "<x>1<p class=\"", "\">2</p>3</x>").and_then(texts::decode_value),
        _ => texts::cut(&out, "<x>1<p title=\"", "\">2</p>3</x>").and_then(texts::decode_value),
    };
    ctx.add("bytes of long texts", text.len() as u64);
    texts::means(ctx, "a text", if k < 3 || k == 6 { "texts" } else { "values" }, got, &text, &text)
}

fn c08_sizes(ctx: &mut Ctx, src: &mut Src) -> Res {
    let max = if ctx.thorough { 66_000 } else { 17_000 };
    let (n, k) = pick(ctx, max, 4);
    let mut s = fill(*src.pick(&["x", "ab-", "N", "z1"]), n).into_bytes();
    if k > 1 && n > 0 {
        let at = place(src, n);
        s[at] = *src.pick(&[b'=', b'"', b'\'', b'/', b'>', b'<', b'&', b',', b';', b' ', b'\n', b'!', b'.', 0x0b, 0x0c, 0x7f]);
    }
    let mut s = String::from_utf8(s).expect("ascii");
    if k == 3 && src.chance(1, 2) {
        let at = place(src, s.len());
        let at = at.min(s.len());
        s.insert(at, *src.pick(&['é', '日', '\u{a0}', '\u{85}', '🙂']));
    }
    texts::one_name(ctx, &s)
}

/// Two names of one length, apart at one place or not at all.
fn c08_pair(ctx: &mut Ctx, src: &mut Src) -> Res {
    let (n, k) = pick(ctx, 66_000, 3);
    let a = fill(*src.pick(&["x", "ab-", "N"]), n.max(1));
    let mut b = a.clone().into_bytes();
    let at = place(src, b.len());
    match k {
        0 => {}
        1 => b[at] = if b[at] == b'y' { b'z' } else { b'y' },
        _ => b[at] ^= 32,
    }
    let b = String::from_utf8(b).expect("ascii");
    let flip = b[at..at + 1].as_bytes()[0];
    if name_bad(&b) || flip < 33 {
        return Ok(());
    }
    ctx.about(format!("names {} and {}", show(&a), show(&b)));
    ctx.nontrivial(format!("{}{}", n, at).as_bytes());
    let differ = !ci(&a, &b);
    // as tags, attributes, ids and classes
    let markup = format!("<{0} {0}=\"1\" id=\"{0}\"></{0}><p class=\"{0}\"></p>", format!("a{}", a));
    let a = format!("a{}", a);
    let b = format!("a{}", b);
    let closed = format!("<{}></{}>", a, b);
    if Template::from_str(&closed, ParseOptions::default()).is_ok() == differ {
        return Err(format!("a closing tag of another name, {}: accepted is {}", differ, !differ));
    }
    let env = Rc::new(RealEnv::new(vec![]));
    let t = load(&markup)?;
    let nodes = tree(&refparse::parse(&markup, None).map_err(|e| format!("{:?}", e))?).ok_or("no tree")?;
    let list = vec![
        Op::SetAttr(nm(&b), Some(Val::Num(2, Int::U8))),
        Op::RemoveClass(nm(&b)),
        Op::AddTo(nm(&b), Val::Num(3, Int::U8), Val::Num(4, Int::U8)),
    ];
    let ops: Vec<Op> = [Sel::Tag(b.clone()), Sel::Id(b.clone()), Sel::Class(b.clone())]
        .into_iter()
        .map(|s| {
            let at = src.below(list.len());
            Op::Select(Scope::Any, s, Rc::new(Body { site: 1, variants: vec![vec![list[at].clone()]], elem: true }))
        })
        .collect();
    let mut m = Model::new(&[], usize::MAX);
    let want = m.ops(&ops, &Env::default(), nodes).expect("model");
    let got = real::run(&t, &ops, &env).map_err(|e| err_text(&e))?;
    ctx.count("pairs of names compared");
    same_output(&render(&want), &got.to_string())
}

fn name_bad(s: &str) -> bool {
    refparse::name_rule(s).is_err()
}

fn c09_sizes(ctx: &mut Ctx, src: &mut Src) -> Res {
    let max = if ctx.thorough { 5_000 } else { 1_100 };
    let (n, k) = pick(ctx, max, 9);
    let p = place(src, n);
    let at = |name: &str, v: &str| Attr { name: name.into(), value: Some(v.into()) };
    let words = |n: usize, sep: &str| -> String {
        (0..n).map(|i| format!("c{}", i)).collect::<Vec<_>>().join(sep)
    };
    let hit = if src.chance(2, 3) { format!("c{}", p) } else { format!("c{}x", p) };
    let sep = *src.pick(&[" ", "  ", "\n", " \t ", "\u{a0}", "\u{2003}"]);
    let (attrs, sel) = match k {
        0 => (vec![at("class", &words(n, sep))], Sel::Class(hit.clone())),
        1 => (vec![at("class", &words(n, sep))], Sel::Static(format!(".{}", hit))),
        2 => {
            // a selector of n classes, perhaps one of them not there
            let mut v: Vec<String> = (0..n).map(|i| format!("c{}", i)).collect();
            if p < v.len() {
                v[p] = hit.clone();
            }
            (vec![at("class", &words(n, sep))], Sel::Classes(v))
        }
        3 => {
            let mut v: Vec<String> = (0..n).map(|i| format!("c{}", i)).collect();
            if p < v.len() {
                v[p] = hit.clone();
            }
            let tag = *src.pick(&["", "p", "P#i", "#i"]);
            let s = format!("{}{}", tag, v.iter().map(|c| format!(".{}", c)).collect::<String>());
            (vec![at("id", "i"), at("class", &words(n, sep))], Sel::Static(s))
        }
        4 => {
            // n attributes, the class among them
            let mut v: Vec<Attr> = (0..n).map(|i| at(&format!("a{}", i), "c0")).collect();
            v.insert(p.min(v.len()), at(src.pick(&["class", "Class"]), &hit));
            (v, Sel::Class(format!("c{}", p)))
        }
        5 => {
            let mut v: Vec<Attr> = (0..n).map(|i| at("class", &format!("c{}", i))).collect();
            v.push(at("id", "c"));
            (v, Sel::Class(hit.clone()))
        }
        6 => ((0..n).map(|i| at("id", &format!("c{}", i))).collect(), Sel::Id(hit.clone())),
        7 => {
            let w = fill("x", n);
            let v = format!("{}{}{}", *src.pick(&["", "a "]), w, *src.pick(&["", " b", "y"]));
            (vec![at("class", &v), at("id", &w)], if src.chance(1, 2) { Sel::Class(fill("x", n.max(1))) } else { Sel::Id(fill("X", n.max(1))) })
        }
        _ => {
            let w = sep.repeat(n);
            (vec![at("class", &format!("{}c0{}c1{}", w, w, w))], Sel::Class(src.pick(&["c0", "c1", "c"]).to_string()))
        }
    };
    let doc = vec![
        Node::Elem(Elem { name: "p".into(), attrs, kind: Kind::SelfClosed }),
        texts::el("p", &[("class", "c0 c1"), ("id", "c0")], vec![]),
    ];
    if let Err(f) = sel_check(&sel) {
        let env = Rc::new(RealEnv::new(vec![]));
        return match real::dyn_sel(&sel, &env) {
            Err(e) if err_text(&e) == err_text(&real::make_err(&f)) => Ok(()),
            Err(e) => Err(format!("expected {:?}, got {}", f, err_text(&e))),
            Ok(_) => Err(format!("accepted, although {:?}", f)),
        };
    }
    texts::matching(ctx, &doc, sel)
}

/// A selector of n parts, bad at one.
fn c09_bad(ctx: &mut Ctx, src: &mut Src) -> Res {
    let (n, k) = pick(ctx, 1_100, 2);
    let n = n.max(1);
    let p = place(src, n);
    let mut v: Vec<String> = (0..n).map(|i| format!("c{}", i)).collect();
    v[p] = bad_name(src);
    if src.chance(1, 3) {
        let q = place(src, n);
        v[q] = bad_name(src);
    }
    let sel = if k == 0 { Sel::Classes(v) } else { Sel::Static(format!("p.{}", v.join("."))) };
    if sel_check(&sel).is_ok() {
        return Ok(());
    }
    texts::bad_selector(ctx, sel)
}

/// Two templates of n parts, apart at one or the same.
fn c18_sizes(ctx: &mut Ctx, src: &mut Src) -> Res {
    let max = up_to(ctx, (5_000, 40_000));
    let (n, k) = pick(ctx, max, 9);
    let p = place(src, n);
    let differ = n > 0 && src.chance(2, 3);
    let make = |change: bool| -> String {
        let other = |i: usize| change && i == p;
        let mut s = String::new();
        match k {
            0 => (0..n).for_each(|i| s.push_str(if other(i) { "<hr>" } else { "<br>" })),
            1 => (0..n).for_each(|i| s.push_str(if other(i) { "<br>u" } else { "<br>t" })),
            2 => {
                s.push_str("<p");
                (0..n).for_each(|i| s.push_str(if other(i) { " b=\"2\"" } else { " b=\"1\"" }));
                s.push_str("></p>");
            }
            3 => (0..n).for_each(|i| s.push_str(if other(i) { "y" } else { "x" })),
            4 => {
                s.push_str("<p b=\"");
                (0..n).for_each(|i| s.push_str(if other(i) { "y" } else { "x" }));
                s.push_str("\">");
                s.push_str("</p>");
            }
            5 => {
                s.push_str("<!--");
                (0..n).for_each(|i| s.push_str(if other(i) { "y" } else { "x" }));
                s.push_str("-->");
            }
            6 => {
                (0..n).for_each(|i| s.push_str(if other(i) { "<b>" } else { "<a>" }));
                (0..n).rev().for_each(|i| s.push_str(if other(i) { "</b>" } else { "</a>" }));
            }
            7 => {
                s.push_str("<script>");
                (0..n).for_each(|i| s.push_str(if other(i) { "y" } else { "x" }));
                s.push_str("</script>");
            }
            _ => (0..n).for_each(|i| s.push_str(if other(i) { "<i a></i>" } else { "<i></i>" })),
        }
        s
    };
    let a = make(false);
    let b = if k == 3 && differ && src.chance(1, 3) {
        // one longer
        let mut b = make(false);
        b.push('x');
        b
    } else {
        make(differ)
    };
    ctx.about(format!("{} and {}", show(&a), show(&b)));
    let same = a == b;
    let (ta, tb) = (load(&a)?, load(&b)?);
    // or made in another way
    let tb = match src.below(3) {
        0 => tb,
        1 => load("<x></x>")?.transform(|h| h.replace(&tb)).map_err(|e| err_text(&e))?,
        _ => {
            let ev = real::drain((&tb).into_stream()).map_err(|e| err_text(&e))?;
            load("")?.transform(|h| h.append(texts::Events(ev.into_iter()))).map_err(|e| err_text(&e))?
        }
    };
    ctx.count(if same { "equal templates" } else { "different templates" });
    if (ta == tb) != same || (tb == ta) != same || (ta != tb) == same {
        return Err(format!("== gives {}", ta == tb));
    }
    let ea = real::drain((&ta).into_stream()).map_err(|e| err_text(&e))?;
    let eb = real::drain((&tb).into_stream()).map_err(|e| err_text(&e))?;
    if (ea == eb) != same {
        return Err(format!("== of the events gives {}", ea == eb));
    }
    if k == 3 || k == 4 {
        use html5_fuser::text::{Data, Value};
        let d = [Data::from_unencoded_str(&a), Data::from_unencoded_static_str(intern(&b))];
        let v = [Value::from_unencoded_str(&a), Value::from_unencoded_static_str(intern(&b))];
        if (d[0] == d[1]) != same || (v[0] == v[1]) != same {
            return Err(format!("== of texts gives {} and {}", d[0] == d[1], v[0] == v[1]));
        }
    }
    ctx.nontrivial(format!("{} {} {} {}", n, k, p, same).as_bytes());
    Ok(())
}

use html5_fuser::event::IntoStream;

// ---- programs

fn one(list: Vec<Op>, site: usize) -> Rc<Body> {
    let elem = ends_elem(&list, true);
    Rc::new(Body { site, variants: vec![list], elem })
}
fn sel(scope: Scope, s: Sel, list: Vec<Op>) -> Op {
    Op::Select(scope, s, one(list, 1))
}

/// n siblings; the one at p has a class and an id of its own.
fn flat(n: usize, p: usize, every: usize) -> Vec<Node> {
    let mut v = Vec::new();
    for i in 0..n {
        let attrs: &[(&str, &str)] = if i == p { &[("class", "t"), ("id", "t")] } else { &[] };
        v.push(texts::el(if i == p && every == 1 { "b" } else { "a" }, attrs, vec![]));
        if i % 3 == 1 {
            v.push(Node::Text(format!("t{}", i)));
        }
    }
    v
}

/// n levels; the one at p is special.
fn nest(n: usize, p: usize, names: &[&str]) -> Vec<Node> {
    let mut v = vec![Node::Text("x".into())];
    for i in (0..n).rev() {
        let attrs: &[(&str, &str)] = if i == p { &[("class", "t"), ("id", "t")] } else { &[] };
        v = vec![texts::el(names[i % names.len()], attrs, v)];
        if i % 4 == 1 {
            v.push(Node::Text("y".into()));
        }
    }
    v
}

fn small(src: &mut Src) -> Vec<Node> {
    doc(src, Shape { nodes: 4, depth: 2, raw: false, ..SMALL })
}

fn mark(src: &mut Src) -> Vec<Op> {
    match src.below(6) {
        0 => vec![Op::AddClass(nm("m"))],
        1 => vec![Op::Look(2)],
        2 => vec![Op::Prepend(Content::Text("[".into(), Way::Str)), Op::Append(Content::Text("]".into(), Way::Str))],
        3 => vec![Op::Remove],
        4 => vec![Op::AppendC(Content::Num(1, Int::U8))],
        _ => vec![Op::ReplaceC(Content::NewElem("q".into(), None))],
    }
}

const C10: usize = 14;
fn c10_case(src: &mut Src, k: usize, n: usize) -> Case {
    let p = place(src, n);
    let scope = *src.pick(SCOPES);
    let list = mark(src);
    let t = if src.chance(1, 2) { Sel::Class("t".into()) } else { Sel::Static(src.pick(&["#t", ".t", "#t.t"]).to_string()) };
    let every = src.below(2);
    let wrap = |v: Vec<Node>| vec![Node::Text("u".into()), texts::el("d", &[], v), texts::el("a", &[("class", "t")], vec![])];
    let (doc, ops) = match k {
        0 => (flat(n, p, every), vec![sel(scope, t, list)]),
        1 => {
            let b = Rc::new(Body { site: 1, variants: vec![mark(src), list], elem: false });
            (flat(n, p, 0), vec![Op::Select(scope, Sel::Tag("a".into()), b)])
        }
        2 => (wrap(flat(n, p, every)), vec![Op::Select(Scope::Once, Sel::Tag("d".into()), one(vec![Op::Subselect(scope, t, one(list, 1))], 4))]),
        3 => (nest(n, p, &["a"]), vec![sel(scope, t, list)]),
        4 => (nest(n, p, &["a"]), vec![sel(scope, Sel::Tag("a".into()), list)]),
        5 => (wrap(nest(n, p, &["a", "b"])), vec![sel(scope, Sel::Tag("b".into()), list)]),
        6 => (flat(n, p, 0), vec![Op::Select(scope, Sel::Custom(Pred::Nth(src.range(1, 4), p), 5), one(list, 1))]),
        7 => {
            // the hit behind n others, and another behind it
            let mut d = flat(n, usize::MAX, 0);
            d.push(texts::el("b", &[], vec![]));
            d.push(texts::el("b", &[], vec![Node::Text("2".into())]));
            (d, vec![sel(scope, Sel::Tag("b".into()), list)])
        }
        8 => (nest(n, p, &["a", "b"]), vec![Op::Select(Scope::DirectOnce, Sel::Tag("a".into()), one(vec![Op::Subselect(scope, t, one(list, 1))], 4)), sel(Scope::Direct, Sel::Tag("a".into()), vec![Op::AddClass(nm("n"))])]),
        9 => {
            // siblings within each of n
            let d: Vec<Node> = (0..n).map(|i| texts::el("a", &[], if i == p { vec![texts::el("b", &[], vec![]), texts::el("a", &[], vec![])] } else { vec![] })).collect();
            (d, vec![Op::Select(Scope::Any, Sel::Tag("a".into()), one(vec![Op::Subselect(scope, Sel::Tag(src.pick(&["a", "b"]).to_string()), one(list, 1))], 4))])
        }
        10 => {
            let v: Vec<Node> = (0..n).map(|_| Node::Elem(Elem { name: "br".into(), attrs: vec![], kind: Kind::Void })).chain([texts::el("a", &[], vec![])]).collect();
            (wrap(v), vec![sel(scope, Sel::Tag("a".into()), list.clone()), sel(scope, Sel::Tag("br".into()), list)])
        }
        11 => {
            let v: Vec<Node> = (0..n).map(|i| Node::Comment(i.to_string())).chain([texts::el("a", &[], vec![])]).collect();
            (wrap(v), vec![sel(scope, Sel::Tag("a".into()), list)])
        }
        12 => {
            // many selections
            let n = n.min(300);
            let names = ["a", "b", "d", "q"];
            let ops = (0..n).map(|i| sel(SCOPES[i % 4], Sel::Tag(names[i % 4].into()), if i == p { list.clone() } else { vec![] })).collect();
            (wrap(nest(3, 1, &["a", "b"])), ops)
        }
        _ => (nest(n, p, &["a"]).into_iter().chain(nest(3, 1, &["a"])).collect(), vec![Op::Select(Scope::Direct, Sel::Tag("a".into()), one(vec![Op::SubContents(Rc::new(Body { site: 1, variants: vec![mark_any(src)], elem: false })), Op::AddClass(nm("o"))], 4))]),
    };
    Case { pool: vec![vec![Node::Text("pool".into())]], doc, ops }
}

const C11: usize = 12;
fn c11_case(src: &mut Src, k: usize, n: usize) -> Case {
    let p = place(src, n);
    let mut pool = vec![small(src)];
    let c = match k {
        3 => {
            pool[0] = flat(n, p, 1);
            Content::Tpl(0, *src.pick(TPL_WAYS))
        }
        4 => {
            pool[0] = nest(n, p, &["p", "a"]);
            Content::Tpl(0, *src.pick(TPL_WAYS))
        }
        5 => {
            pool[0] = flat(n, p, 1);
            Content::User { tpl: 0, site: 1 + src.below(6), fail_after: None, way: *src.pick(&[UWay::Own, UWay::Boxed, UWay::Cell, UWay::Ok]) }
        }
        6 => Content::Text(fill(*src.pick(&["x", "é", "&", "\n"]), n), *src.pick(WAYS)),
        7 => {
            pool[0] = flat(n, p, 1);
            Content::Transformed(0, Rc::new(Body { site: 7, variants: vec![vec![sel(Scope::Any, Sel::Tag("b".into()), mark(src))]], elem: false }))
        }
        _ => match src.below(3) {
            0 => Content::Text("new".into(), *src.pick(WAYS)),
            1 => Content::Tpl(0, *src.pick(TPL_WAYS)),
            _ => Content::NewElem("q".into(), None),
        },
    };
    let inner = |src: &mut Src, c: Content| match src.below(4) {
        0 => Op::AppendC(c),
        1 => Op::PrependC(c),
        2 => Op::ReplaceC(c),
        _ => Op::AppendC(c),
    };
    let outer = |src: &mut Src, c: Content| match src.below(3) {
        0 => Op::Append(c),
        1 => Op::Prepend(c),
        _ => Op::Replace(c),
    };
    let around = |v: Vec<Node>| vec![Node::Text("u".into()), texts::el("p", &[], v), Node::Text("v".into()), texts::el("p", &[], vec![])];
    let mut list = vec![];
    if src.chance(1, 8) {
        list.push(Op::RemoveC);
    } else {
        list.push(inner(src, c.clone()));
    }
    if src.chance(1, 2) {
        list.push(outer(src, c.clone()));
    }
    let scope = *src.pick(SCOPES);
    let (doc, ops) = match k {
        0 => (around(flat(n, p, 1)), vec![sel(scope, Sel::Tag("p".into()), list)]),
        1 => (around(nest(n, p, &["p"])), vec![sel(scope, Sel::Tag("p".into()), list)]),
        2 => (around(nest(n, p, &["p", "b"])), vec![sel(Scope::DirectOnce, Sel::Tag("p".into()), list)]),
        3..=7 => {
            let n = src.range(1, 3);
            let d = around(small(src)).into_iter().chain(around(vec![])).take(2 + n).collect();
            if src.chance(1, 3) {
                (d, vec![outer(src, c)])
            } else {
                (d, vec![sel(scope, Sel::Tag("p".into()), list)])
            }
        }
        8 => {
            // operations in a row
            let m = n.min(600);
            let what = src.below(5);
            let ops = (0..m).map(|i| {
                let c = Content::Num(i as i128, Int::I64);
                match if what == 4 { i % 4 } else { what } {
                    0 => Op::AppendC(c),
                    1 => Op::PrependC(c),
                    2 => if i + 2 == m || i == p { Op::ReplaceC(c) } else { Op::AppendC(c) },
                    _ => if i == p { Op::RemoveC } else { Op::PrependC(c) },
                }
            }).collect();
            (around(small(src)), vec![sel(scope, Sel::Tag("p".into()), ops)])
        }
        9 => {
            let m = n.min(600);
            let ops = (0..m).map(|i| if i % 2 == 0 { Op::Append(Content::Num(i as i128, Int::I64)) } else { Op::Prepend(Content::Num(i as i128, Int::I64)) }).collect();
            (around(small(src)), ops)
        }
        10 => {
            // in front of everything
            (flat(n, p, 1), vec![match src.below(4) {
                0 => Op::Remove,
                _ => outer(src, c),
            }])
        }
        _ => {
            // many elements, each with contents
            let d: Vec<Node> = (0..n).map(|i| match i % 3 {
                0 => Node::Elem(Elem { name: "p".into(), attrs: vec![], kind: Kind::SelfClosed }),
                1 => texts::el("p", &[], vec![Node::Text("x".into())]),
                _ => Node::Elem(Elem { name: "br".into(), attrs: vec![], kind: Kind::Void }),
            }).collect();
            (d, vec![sel(Scope::Any, Sel::Custom(Pred::All, 0), list)])
        }
    };
    Case { pool, doc, ops }
}

const C12: usize = 9;
fn c12_case(src: &mut Src, k: usize, n: usize) -> Case {
    let p = place(src, n);
    let at = |name: &str, v: Option<String>| Attr { name: name.into(), value: v };
    let word = |i: usize| format!("c{}", i);
    let name = match src.below(4) {
        0 => "new".to_string(),
        1 => format!("A{}", p),
        _ => format!("a{}", p),
    };
    let big = fill(*src.pick(&["x", "é", "&amp;", "' "]), n);
    let name_op = |src: &mut Src, name: &str, v: Val| match src.below(9) {
        0 => Op::AddAttr(nm(name), Some(v)),
        1 => Op::AddAttrV(nm(name), v),
        2 => Op::AddEmpty(nm(name)),
        3 => Op::AddTo(nm(name), v, Val::Text(";".into(), VWay::Str)),
        4 => Op::ReplaceIf(nm(name), v),
        5 => Op::SetAttr(nm(name), Some(v)),
        6 => Op::SetEmpty(nm(name)),
        7 => Op::RemoveAttr(nm(name)),
        _ => Op::SetAttrV(nm(name), v),
    };
    let classes: Vec<String> = (0..n).map(word).collect();
    let c = if src.chance(3, 4) { word(p) } else { "other".into() };
    let class_op = |src: &mut Src, c: &str| match src.below(5) {
        0 => Op::AddClass(nm(c)),
        1 => Op::RemoveAttr(nm("CLASS")),
        _ => Op::RemoveClass(nm(c)),
    };
    let v = Val::Num(7, Int::U8);
    let (attrs, list): (Vec<Attr>, Vec<Op>) = match k {
        0 => ((0..n).map(|i| at(&format!("a{}", i), if i % 3 == 0 { None } else { Some(i.to_string()) })).collect(), vec![name_op(src, &name, v)]),
        1 => {
            // the same name n times, among others
            let a = (0..n).flat_map(|i| [at(if i % 2 == 0 { "x" } else { "X" }, Some(i.to_string())), at(&format!("b{}", i), None)]).collect();
            (a, vec![name_op(src, "x", v)])
        }
        2 => (vec![at("class", Some(classes.join(*src.pick(&[" ", "  ", "\n"]))))], vec![class_op(src, &c)]),
        3 => ((0..n).map(|i| at("class", Some(format!("{} k", word(i))))).collect(), vec![class_op(src, src_word(n, &c))]),
        4 => (vec![at("b", None), at("x", Some(big)), at("c", None)], vec![name_op(src, "x", v)]),
        5 => {
            let way = *src.pick(VWAYS);
            (vec![at("x", Some("old".into()))], vec![name_op(src, "x", Val::Text(big, way))])
        }
        6 => {
            let m = n.min(600);
            (vec![at("x", Some("old".into()))], (0..m).map(|i| if i == p { name_op(src, "x", Val::Num(i as i128, Int::I64)) } else { Op::AddTo(nm("x"), Val::Num(i as i128, Int::I64), Val::Text(" ".into(), VWay::Str)) }).collect())
        }
        7 => {
            let m = n.min(600);
            (vec![], (0..m).map(|i| Op::AddAttr(nm(&format!("a{}", i)), None)).chain([name_op(src, &name, v)]).collect())
        }
        _ => ((0..n).map(|i| at("id", Some(word(i)))).collect(), vec![if src.chance(1, 2) { Op::RemoveId } else { Op::SetId(nm("new")) }]),
    };
    let doc = vec![Node::Elem(Elem { name: "p".into(), attrs, kind: Kind::SelfClosed }), texts::el("p", &[("class", "c0 c1")], vec![])];
    let doc = if src.chance(1, 6) { doc.into_iter().chain(flat(n, p, 0)).collect() } else { doc };
    let s = if src.chance(1, 2) { Sel::Tag("p".into()) } else { Sel::Custom(Pred::All, 0) };
    Case { pool: vec![vec![]], doc, ops: vec![sel(*src.pick(SCOPES), s, list)] }
}

fn src_word(n: usize, c: &str) -> &str {
    if n % 2 == 0 { "k" } else { c }
}

const C13: usize = 10;
fn c13_case(src: &mut Src, k: usize, n: usize) -> Case {
    let p = place(src, n);
    let items = |m: usize, src: &mut Src| Items { site: 3 + src.below(5), items: (0..m as i64).collect() };
    let b = Rc::new(Body { site: 1, variants: vec![vec![Op::Append(Content::Item)], vec![Op::Prepend(Content::Item)], vec![]], elem: false });
    let other = Rc::new(Body { site: 2, variants: vec![vec![Op::Prepend(Content::Text("else".into(), Way::Str))]], elem: false });
    let rep = |what: usize, it: Items, b: &Rc<Body>| match what {
        0 => Op::Repeat(it, b.clone()),
        1 => Op::RepeatElse(it, b.clone(), other.clone()),
        2 => Op::RepeatC(it, b.clone()),
        _ => Op::RepeatCElse(it, b.clone(), other.clone()),
    };
    let place_it = |what: usize, op: Op, inner: Vec<Node>| -> (Vec<Node>, Vec<Op>) {
        if what < 2 {
            (inner, vec![op])
        } else {
            (vec![texts::el("p", &[], inner), texts::el("p", &[], vec![])], vec![Op::Select(Scope::Once, Sel::Tag("p".into()), one(vec![op], 9))])
        }
    };
    let (doc, ops) = match k {
        0..=3 => {
            let it = items(n, src);
            place_it(k, rep(k, it, &b), small(src))
        }
        4 | 5 => {
            // a long source
            let m = src.below(4);
            let it = items(m, src);
            let what = src.below(4);
            place_it(what, rep(what, it, &b), if k == 4 { flat(n, p, 1) } else { nest(n, p, &["p", "a"]) })
        }
        6 => {
            // the builder fails at one of them
            let variants = (0..n.max(1)).map(|i| if i == p { vec![Op::AsTplFail(Fail::User("p".into()))] } else { vec![] }).collect();
            let b = Rc::new(Body { site: 1, variants, elem: false });
            let m = if src.chance(1, 3) { p } else { n };
            let it = items(m, src);
            let what = src.below(4);
            place_it(what, rep(what, it, &b), vec![Node::Text("x".into())])
        }
        7 => {
            // a builder that does something else at one of them
            let variants = (0..n.max(1)).map(|i| if i == p { mark_any(src) } else { vec![] }).collect();
            let b = Rc::new(Body { site: 1, variants, elem: false });
            let it = items(n + 2, src);
            let what = src.below(4);
            place_it(what, rep(what, it, &b), vec![texts::el("a", &[], vec![Node::Text("x".into())])])
        }
        8 => {
            let m = 1 + n % 3;
            let it = items(n.min(1100), src);
            let inner = items(m, src);
            let inner = Rc::new(Body { site: 6, variants: vec![vec![rep(src.below(2), inner, &b)]], elem: false });
            let what = src.below(4);
            place_it(what, rep(what, it, &inner), vec![Node::Text("x".into())])
        }
        _ => {
            // one repetition for each of n elements
            let it = items(src.below(4), src);
            let what = src.below(4);
            let r = rep(what, it, &b);
            (flat(n, p, 0), vec![Op::Select(Scope::Any, Sel::Tag("a".into()), one(vec![r], 9))])
        }
    };
    Case { pool: vec![vec![]], doc, ops }
}

fn mark_any(src: &mut Src) -> Vec<Op> {
    match src.below(4) {
        0 => vec![Op::Look(2)],
        1 => vec![Op::Remove],
        2 => vec![Op::Replace(Content::Item)],
        _ => vec![Op::Append(Content::Item), Op::Prepend(Content::Item)],
    }
}

const C14: usize = 5;
fn c14_case(src: &mut Src, k: usize, n: usize) -> Case {
    let p = place(src, n);
    let m = n.min(600);
    let layer = |i: usize, b: Rc<Body>| match i % 8 {
        0 => Op::Apply(b),
        1 => Op::ApplyBoxed(b),
        2 => Op::ApplyIf(true, b),
        3 => Op::ApplyIfElse(false, Rc::new(Body { site: 8, variants: vec![vec![Op::Remove]], elem: false }), b),
        4 => Op::ApplyOpt(Some(i as i64), b, Rc::new(Body { site: 8, variants: vec![vec![Op::Remove]], elem: false })),
        5 => Op::ApplyRes(Err(i as i64), Rc::new(Body { site: 8, variants: vec![vec![Op::Remove]], elem: false }), b),
        6 => Op::AsTpl(b),
        _ => Op::ApplyIf(i == p, b),
    };
    let any = |list: Vec<Op>| Rc::new(Body { site: 1, variants: vec![list], elem: false });
    let kind = src.below(9);
    let of = |i: usize| if kind == 8 { i } else { kind };
    match k {
        0 => {
            // inside each other
            let mut list = vec![Op::Append(Content::Item)];
            for i in 0..m {
                list = vec![layer(of(i), any(list))];
            }
            Case { pool: vec![vec![]], doc: small(src), ops: list }
        }
        1 => {
            // in a row
            let ops = (0..m).map(|i| layer(of(i), any(if i == p { vec![Op::Prepend(Content::Item)] } else { vec![] }))).collect();
            Case { pool: vec![vec![]], doc: small(src), ops }
        }
        2 | 3 => {
            // over much
            let doc = if k == 2 { flat(n, p, 1) } else { nest(n, p, &["a", "b"]) };
            let i = src.below(8);
            let ops = vec![layer(i, any(vec![sel(Scope::Any, Sel::Tag("b".into()), mark(src)), Op::Append(Content::Item)])), Op::Look(3)];
            Case { pool: vec![vec![]], doc, ops }
        }
        _ => {
            let ops = (0..m).map(|i| match of(i) % 3 { 0 => Op::Box, 1 => Op::Look(3), _ => Op::Append(Content::Num(1, Int::U8)) }).collect();
            Case { pool: vec![vec![]], doc: small(src), ops }
        }
    }
}

const C17: usize = 8;
fn c17_case(src: &mut Src, k: usize, n: usize) -> Case {
    let p = place(src, n);
    let f = made_fail(src);
    let bad = |src: &mut Src| if src.chance(1, 2) { Content::Fail(f.clone()) } else { Content::User { tpl: 0, site: 4, fail_after: Some((0, f.clone())), way: UWay::Own } };
    let fill_ops = |m: usize, op: &dyn Fn(usize) -> Op, bad: Op| -> Vec<Op> { (0..m.max(1)).map(|i| if i == p.min(m.max(1) - 1) { bad.clone() } else { op(i) }).collect() };
    let mut pool = vec![vec![Node::Text("pool".into())]];
    let m = n.min(600);
    let (doc, ops) = match k {
        0 => (small(src), { let b = Op::Append(bad(src)); fill_ops(m, &|i| Op::Append(Content::Num(i as i128, Int::I64)), b) }),
        1 => {
            pool[0] = flat(n, p, 1);
            let after = place(src, n * 2);
            let c = Content::User { tpl: 0, site: 1 + src.below(5), fail_after: Some((after, f)), way: *src.pick(&[UWay::Own, UWay::Boxed, UWay::Cell, UWay::Ok]) };
            let op = match src.below(4) {
                0 => Op::Append(c),
                1 => Op::Prepend(c),
                2 => Op::Replace(c),
                _ => sel(Scope::Once, Sel::Tag("p".into()), vec![Op::AppendC(c)]),
            };
            (vec![Node::Text("x".into()), texts::el("p", &[], small(src))], vec![op])
        }
        2 => {
            let variants = (0..n.max(1)).map(|i| if i == p { vec![Op::Append(bad(src))] } else { vec![] }).collect();
            (flat(n, p, 0), vec![Op::Select(Scope::Any, Sel::Tag("a".into()), Rc::new(Body { site: 1, variants, elem: false }))])
        }
        3 => {
            let variants: Vec<Vec<Op>> = (0..n.max(1)).map(|i| if i == p { vec![match src.below(3) { 0 => Op::Append(bad(src)), 1 => Op::Prepend(bad(src)), _ => Op::AsTplFail(f.clone()) }] } else { vec![] }).collect();
            let it = Items { site: 5 + src.below(5), items: (0..n as i64).collect() };
            let b = Rc::new(Body { site: 1, variants, elem: false });
            let op = if src.chance(1, 2) { Op::Repeat(it, b) } else { Op::RepeatElse(it, b.clone(), b) };
            (vec![Node::Text("x".into())], vec![op])
        }
        4 => {
            let bad = Op::AddEmpty(Name { text: bad_name(src), way: *src.pick(NWAYS) });
            let list = fill_ops(m, &|i| Op::AddAttr(nm(&format!("a{}", i)), None), bad);
            (vec![texts::el("p", &[], vec![])], vec![sel(Scope::Any, Sel::Tag("p".into()), list)])
        }
        5 => {
            // behind n of something
            (flat(n, p, 1), vec![Op::Append(bad(src))])
        }
        6 => {
            // deep inside
            (nest(n, p, &["a"]), vec![sel(Scope::Any, Sel::Class("t".into()), vec![Op::AppendC(bad(src))])])
        }
        _ => {
            let mut list = vec![Op::Append(bad(src))];
            for _ in 0..m {
                let b = Rc::new(Body { site: 1, variants: vec![list], elem: false });
                list = vec![match src.below(3) { 0 => Op::Apply(b), 1 => Op::ApplyBoxed(b), _ => Op::AsTpl(b) }];
            }
            (small(src), list)
        }
    };
    Case { pool, doc, ops }
}

fn compared(ctx: &mut Ctx, case: &Case, what: (usize, usize)) -> Res {
    let r = agree_within(ctx, case, 4_000_000)?;
    ctx.about(format!("size {} shape {}: {}", what.0, what.1, show(&ctx.about.clone())));
    if let Some(a) = r {
        if let Some(m) = a.misuse.first() {
            return Err(m.clone());
        }
        a.asked?;
        if a.out.map_or(true, |o| o != render(&case.doc)) {
            ctx.nontrivial(key(case).as_bytes());
        }
    }
    Ok(())
}

macro_rules! programs {
    ($f:ident, $n:expr, $make:ident) => {
        fn $f(ctx: &mut Ctx, src: &mut Src) -> Res {
            let max = up_to(ctx, N_MAX);
            let (n, k) = pick(ctx, max, $n);
            let case = sites($make(src, k, n));
            compared(ctx, &case, (n, k))
        }
    };
}
const N_MAX: (usize, usize) = (1_100, 9_000);
programs!(c10_sizes, C10, c10_case);
programs!(c11_sizes, C11, c11_case);
programs!(c12_sizes, C12, c12_case);
programs!(c13_sizes, C13, c13_case);
programs!(c14_sizes, C14, c14_case);
programs!(c17_sizes, C17, c17_case);

const ALL: usize = C10 + C11 + C12 + C13 + C14;
fn any_case(src: &mut Src, k: usize, n: usize) -> Case {
    let mut k = k;
    for (m, f) in [
        (C10, c10_case as fn(&mut Src, usize, usize) -> Case),
        (C11, c11_case),
        (C12, c12_case),
        (C13, c13_case),
        (C14, c14_case),
    ] {
        if k < m {
            return f(src, k, n);
        }
        k -= m;
    }
    unreachable!()
}

/// Outputs of programs on sized things are read back.
fn c02_programs(ctx: &mut Ctx, src: &mut Src) -> Res {
    let max = up_to(ctx, (300, 5_000));
    let (n, k) = pick(ctx, max, ALL);
    let case = sites(any_case(src, k, n));
    ctx.about(case.show());
    let env = case.env()?;
    if let Ok(t) = real::run(&load(&spelled(&case.doc))?, &case.ops, &env) {
        ctx.count("transformed and loaded again");
        docs::again(ctx, &t, false)?;
    }
    Ok(())
}

/// All at once or one operation after the other.
fn c15_sizes(ctx: &mut Ctx, src: &mut Src) -> Res {
    let max = up_to(ctx, (520, 5_000));
    let (n, k) = pick(ctx, max, ALL);
    let mut case = any_case(src, k, n);
    // some more operations, before or behind
    {
        let extra: Vec<Op> = {
            let mut g = Pg::new(src, Mix { max_ops: 3, ..MIX }, case.pool.len(), &case.doc[..case.doc.len().min(20)]);
            g.ops(1, false, false)
        };
        let ops = extra;
        if src.chance(1, 2) {
            case.ops.extend(ops);
        } else {
            case.ops = ops.into_iter().chain(case.ops).collect();
        }
    }
    let case = sites(case);
    ctx.about(case.show());
    let mut m = Model::new(&case.pool, 400_000);
    match m.ops(&case.ops, &Env::default(), case.doc.clone()) {
        Err(Stop::TooBig) => {
            ctx.count("skipped as too big");
            return Ok(());
        }
        _ => {}
    }
    let t = load(&spelled(&case.doc))?;
    let e1 = case.env()?;
    let whole = real::run(&t, &case.ops, &e1);
    let e2 = case.env()?;
    let cut = if case.ops.len() > 4 { Some(src.below(case.ops.len())) } else { None };
    let steps: Vec<&[Op]> = match cut {
        Some(c) => vec![&case.ops[..c], &case.ops[c..]],
        None => case.ops.iter().map(std::slice::from_ref).collect(),
    };
    let mut cur = Ok(t.clone());
    for s in steps {
        cur = match cur {
            Ok(t) => real::run(&t, s, &e2),
            e => e,
        };
    }
    match (&whole, &cur) {
        (Ok(a), Ok(b)) => {
            if a != b || a.to_string() != b.to_string() {
                return Err(format!("in one call: {}\n  step by step: {}", show(&a.to_string()), show(&b.to_string())));
            }
        }
        (Err(a), Err(b)) if err_text(a) == err_text(b) => return Ok(()),
        (a, b) => {
            let s = |r: &Result<Template, html5_fuser::StreamError>| match r {
                Ok(t) => show(&t.to_string()),
                Err(e) => err_text(e),
            };
            return Err(format!("in one call: {}\n  step by step: {}", s(a), s(b)));
        }
    }
    crate::props::progs::same_log(&e1.log.borrow(), &e2.log.borrow())?;
    ctx.count("chains compared");
    ctx.nontrivial(key(&case).as_bytes());
    Ok(())
}

/// The same operations with a site of its own for everything that is seen by user code.
fn apart(ops: &[Op], next: &mut usize) -> Vec<Op> {
    use Op::*;
    fn fresh(next: &mut usize, like: usize, of: usize) -> usize {
        *next += 1;
        while *next % of != like % of {
            *next += 1;
        }
        *next
    }
    fn body(b: &Rc<Body>, x: &mut usize) -> Rc<Body> {
        let site = fresh(x, 0, 1);
        Rc::new(Body { site, variants: b.variants.iter().map(|v| apart(v, x)).collect(), elem: b.elem })
    }
    fn s(v: &Sel, x: &mut usize) -> Sel {
        match v {
            Sel::Custom(p, site) if *site > 0 => Sel::Custom(p.clone(), fresh(x, 0, 1)),
            v => v.clone(),
        }
    }
    fn c(v: &Content, x: &mut usize) -> Content {
        match v {
            Content::NewElem(n, Some(b)) => Content::NewElem(n.clone(), Some(body(b, x))),
            Content::Transformed(t, b) => Content::Transformed(*t, body(b, x)),
            Content::User { tpl, site, fail_after, way } => {
                Content::User { tpl: *tpl, site: fresh(x, *site, 3), fail_after: fail_after.clone(), way: *way }
            }
            v => v.clone(),
        }
    }
    fn it(v: &Items, x: &mut usize) -> Items {
        Items { site: fresh(x, v.site, 5), items: v.items.clone() }
    }
    let x = next;
    ops.iter()
        .map(|o| match o {
            Select(a, v, b) => Select(*a, s(v, x), body(b, x)),
            Subselect(a, v, b) => Subselect(*a, s(v, x), body(b, x)),
            SubContents(b) => SubContents(body(b, x)),
            Append(v) => Append(c(v, x)),
            Prepend(v) => Prepend(c(v, x)),
            Replace(v) => Replace(c(v, x)),
            AppendC(v) => AppendC(c(v, x)),
            PrependC(v) => PrependC(c(v, x)),
            ReplaceC(v) => ReplaceC(c(v, x)),
            Repeat(i, b) => Repeat(it(i, x), body(b, x)),
            RepeatElse(i, a, b) => RepeatElse(it(i, x), body(a, x), body(b, x)),
            RepeatC(i, b) => RepeatC(it(i, x), body(b, x)),
            RepeatCElse(i, a, b) => RepeatCElse(it(i, x), body(a, x), body(b, x)),
            Apply(b) => Apply(body(b, x)),
            ApplyIf(p, b) => ApplyIf(*p, body(b, x)),
            ApplyIfElse(p, a, b) => ApplyIfElse(*p, body(a, x), body(b, x)),
            ApplyOpt(p, a, b) => ApplyOpt(*p, body(a, x), body(b, x)),
            ApplyRes(p, a, b) => ApplyRes(*p, body(a, x), body(b, x)),
            ApplyBoxed(b) => ApplyBoxed(body(b, x)),
            ApplyBoxedElem(b) => ApplyBoxedElem(body(b, x)),
            AsTpl(b) => AsTpl(body(b, x)),
            Look(_) => Look(fresh(x, 0, 1)),
            o => o.clone(),
        })
        .collect()
}

fn sites(case: Case) -> Case {
    let mut next = 0;
    let ops = apart(&case.ops, &mut next);
    Case { ops, ..case }
}

/// One template in many hands.
fn c16_sizes(ctx: &mut Ctx, src: &mut Src) -> Res {
    let max = up_to(ctx, (1_100, 5_000));
    let (n, k) = pick(ctx, max, 6);
    let nodes = {
        let mut d = small(src);
        d.extend(match src.below(6) {
            0 => vec![Node::Comment("end".into())],
            1 => vec![Node::Text("end".into())],
            2 => vec![Node::Elem(Elem { name: "br".into(), attrs: vec![], kind: Kind::Void })],
            3 => vec![Node::Doctype("html".into())],
            4 => vec![texts::el("p", &[("class", "a b")], vec![])],
            _ => vec![],
        });
        d
    };
    let markup = render(&nodes);
    let t = load(&markup)?;
    ctx.about(format!("{} copies, shape {}, of {}", n, k, show(&markup)));
    let err = |e| format!("an error came out of nowhere: {}", err_text(&e));
    let events = real::drain((&t).into_stream()).map_err(err)?;
    match k {
        0 => {
            // many copies at once
            let copies: Vec<Template> = (0..n).map(|_| t.clone()).collect();
            let at = place(src, n);
            if let Some(c) = copies.get(at) {
                let r = c.transform(|h| h.append(c).prepend(&t)).map_err(err)?;
                same_output(&markup.repeat(3), &r.to_string())?;
            }
            let ev = real::drain((&t).into_stream()).map_err(err)?;
            if ev != events {
                return Err("the template gives other items with many copies".into());
            }
            for c in copies.iter().chain([&t]) {
                if *c != t || c.to_string() != markup {
                    return Err(format!("a copy has changed to {}", show(&c.to_string())));
                }
            }
        }
        1 => {
            // many streams, read in turn
            let n = n.max(1);
            let mut streams: Vec<_> = (0..n).map(|_| (&t).into_stream()).collect();
            let mut got: Vec<usize> = vec![0; n];
            let mut end = 0;
            let mut round = 0;
            while end < n {
                for i in 0..n {
                    if got[i] == usize::MAX || (round % 3 == 1 && i % 2 == 0) {
                        continue;
                    }
                    use html5_fuser::event::Stream;
                    match streams[i].next_event().map_err(err)? {
                        Some(e) => {
                            if events.get(got[i]) != Some(&e) {
                                return Err(format!("stream {} of {}: item {} is {}", i, n, got[i], e));
                            }
                            got[i] += 1;
                        }
                        None => {
                            if got[i] != events.len() {
                                return Err(format!("stream {} of {} ends after {} of {} items", i, n, got[i], events.len()));
                            }
                            got[i] = usize::MAX;
                            end += 1;
                        }
                    }
                }
                round += 1;
                if round > 3 * events.len() + 10 {
                    return Err("the streams do not end".into());
                }
            }
        }
        2 => {
            // one transformation after the other
            let mut first: Option<String> = None;
            for i in 0..n.min(600) {
                let r = t.transform(|h| h.select("p", |h| h.add_class("m").append_contents(&t)).append(&t)).map_err(err)?;
                let s = r.to_string();
                match first {
                    None => first = Some(s),
                    Some(ref f) if *f == s => {}
                    Some(ref f) => return Err(format!("time {}: {} instead of {}", i, show(&s), show(f))),
                }
            }
        }
        3 => {
            // used many times in one
            let n = n.min(600);
            let ops: Vec<Op> = (0..n).map(|i| if i % 2 == 0 { Op::Append(Content::Tpl(0, TPL_WAYS[i % TPL_WAYS.len()])) } else { Op::Prepend(Content::Tpl(0, TplWay::Ref)) }).collect();
            let case = Case { pool: vec![nodes.clone()], doc: vec![], ops };
            compared(ctx, &sites(case), (n, k))?;
        }
        4 => {
            // at n places of another
            let ops = vec![sel(Scope::Any, Sel::Tag("a".into()), vec![Op::ReplaceC(Content::Tpl(0, *src.pick(TPL_WAYS)))])];
            let case = Case { pool: vec![nodes.clone()], doc: flat(n, 0, 0), ops };
            compared(ctx, &sites(case), (n, k))?;
        }
        _ => {
            // an ever changing one does not change the first
            let mut cur = t.clone();
            for _ in 0..n.min(600) {
                cur = cur.transform(|h| h.append(1)).map_err(err)?;
            }
            same_output(&format!("{}{}", markup, "1".repeat(n.min(600))), &cur.to_string())?;
        }
    }
    if t.to_string() != markup || real::drain((&t).into_stream()).map_err(err)? != events {
        return Err(format!("the template has changed to {}", show(&t.to_string())));
    }
    ctx.count("inputs compared");
    ctx.nontrivial(format!("{} {} {}", n, k, markup).as_bytes());
    Ok(())
}

fn c21_sizes(ctx: &mut Ctx, src: &mut Src) -> Res {
    let max = up_to(ctx, (1_100, 9_000));
    let (n, k) = pick(ctx, max, 6);
    let case = match k {
        0 => c11_case(src, 5, n),
        1 => c10_case(src, 6, n),
        2 | 3 => {
            let k = src.below(10);
            c13_case(src, k, n)
        }
        4 => c17_case(src, 1, n),
        _ => {
            // user-written streams all over
            let m = n.min(200);
            let ops = (0..m).map(|i| {
                let c = Content::User { tpl: 0, site: 10 + i, fail_after: None, way: UWAYS[i % UWAYS.len()] };
                if i % 2 == 0 { Op::Append(c) } else { Op::Prepend(c) }
            }).collect();
            Case { pool: vec![vec![Node::Text("x".into()), texts::el("p", &[], vec![])]], doc: small(src), ops }
        }
    };
    let case = sites(case);
    users::whole_within(ctx, &case, 4_000_000)?;
    ctx.about(format!("size {} shape {}: {}", n, k, show(&ctx.about.clone())));
    Ok(())
}

/// What a property gets in addition.
pub fn families(id: &str) -> Vec<Family> {
    match id {
        "C01" => vec![over("exact sizes", c01_bytes, B_MAX, BYTES, (1, 4)), over("exact numbers", c01_parts, P_MAX, PARTS, (1, 4))],
        "C02" => vec![
            over("exact sizes", c02_bytes, B_MAX, BYTES, (1, 3)),
            over("exact numbers", c02_parts, P_MAX, PARTS, (1, 3)),
            over("programs of exact sizes", c02_programs, (300, 5_000), ALL, (1, 2)),
        ],
        "C03" => vec![over("exact sizes", c03_bytes, B_MAX, BYTES, (2, 8)), over("exact numbers", c03_parts, P_MAX, PARTS, (2, 8))],
        "C04" => vec![over("exact sizes", c04_bytes, B_MAX, BYTES, (2, 8)), over("exact numbers", c04_parts, P_MAX, PARTS, (2, 8))],
        "C05" => vec![over("exact sizes", c05_bytes, B_MAX, 8, (3, 12)), over("exact numbers", c05_parts, P_MAX, 5, (6, 24))],
        "C06" => vec![over("exact sizes", c06_sizes, B_MAX, 6, (3, 20))],
        "C07" => vec![over("exact sizes", c07_sizes, (66_000, 262_145), 8, (4, 30))],
        "C08" => vec![
            over("exact lengths", c08_sizes, (17_000, 66_000), 4, (2, 10)),
            over("pairs of exact lengths", c08_pair, (66_000, 66_000), 3, (2, 20)),
        ],
        "C09" => vec![over("exact numbers", c09_sizes, (1_100, 5_000), 9, (8, 60)), over("exact numbers, ill-formed", c09_bad, (1_100, 1_100), 2, (8, 60))],
        "C10" => vec![over("exact numbers", c10_sizes, N_MAX, C10, (4, 12))],
        "C11" => vec![over("exact numbers", c11_sizes, N_MAX, C11, (4, 12))],
        "C12" => vec![over("exact numbers", c12_sizes, N_MAX, C12, (6, 20))],
        "C13" => vec![over("exact numbers", c13_sizes, N_MAX, C13, (3, 10))],
        "C14" => vec![over("exact numbers", c14_sizes, N_MAX, C14, (3, 20))],
        "C15" => vec![over("exact numbers", c15_sizes, (520, 5_000), ALL, (1, 6))],
        "C16" => vec![over("exact numbers", c16_sizes, (1_100, 5_000), 6, (3, 20))],
        "C17" => vec![over("exact numbers", c17_sizes, N_MAX, C17, (4, 20))],
        "C18" => vec![over("exact numbers", c18_sizes, (5_000, 40_000), 9, (4, 20))],
        "C21" => vec![over("exact numbers", c21_sizes, N_MAX, 6, (2, 12))],
        _ => vec![],
    }
}
