//! C02 and C06: rendering read back, and files.

use crate::choice::Src;
use crate::gen::*;
use crate::h::*;
use crate::prog::*;
use crate::progen::*;
use crate::props::parsing::*;
use crate::props::progs::{a_case, a_doc, Case, Docs, FUEL};
use crate::real::{self, err_text, intern};
use crate::refparse;
use crate::run::{fam, Ctx, Family, Prop, Res};
use crate::tree::*;
use html5_fuser::template::{FileError, InputError};
use html5_fuser::{ParseOptions, Template};
use std::io::Write;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C02",
            rule: "Templates loaded from generated and mutated markup, created from names, and produced by random programs of all operations (in up to three rounds, each on the re-loaded output of the last) are rendered and loaded again; accepted, rendered the same, and equal for loaded ones. Non-trivial: the template has markup; distinct by output.",
            families: vec![
                fam("loaded", c02_loaded, 240_000, 1_500_000),
                fam("mutated", c02_mutated, 240_000, 1_500_000),
                fam("created, short names", c02_short, 16_513, 16_513),
                fam("created", c02_created, 80_000, 400_000),
                fam("transformed", c02_transformed, 240_000, 2_000_000),
                fam("raw elements kept", c02_raw, 240_000, 2_000_000),
                fam("large", c02_large, 240, 1_500),
            ],
            assumptions: &["texts above 4 GiB are not tried"],
            needs: &["loaded again", "compared equal", "transformed and loaded again", "created and loaded again"],
            extra: None,
        },
        Prop {
            id: "C06",
            rule: "Files and pipes with generated, mutated and large content, characters of every width placed around every multiple of the read size, invalid UTF-8 of every kind, and paths that cannot be opened or read; the result is compared with from_str on the same bytes. Pipes deliver their content in pieces, with pauses and interrupting signals. Non-trivial: content above 4 KiB or not ASCII, or an error; distinct by content.",
            families: vec![
                fam("any content", c06_any, 36_000, 100_000),
                fam("around the read size", c06_edges, 18_000, 60_000),
                fam("not UTF-8", c06_bytes, 36_000, 100_000),
                fam("no such file", c06_missing, 1_200, 4_000).alone(),
                Family { name: "pipes", run: c06_pipe, cases: (400, 6_000), shrink: false, together: false },
            ],
            assumptions: &["run as root: refused permissions do not occur", "the kernel delivers what was written"],
            needs: &["files loaded", "files refused", "decoding errors", "open errors", "read errors", "pipes read", "interrupted reads"],
            extra: None,
        },
    ]
}

// ---------------------------------------------------------------- C02

pub fn again(ctx: &mut Ctx, t: &Template, equal: bool) -> Result<String, String> {
    let out = t.to_string();
    let t2 = match Template::from_str(&out, ParseOptions::default()) {
        Ok(t) => t,
        Err(e) => return Err(format!("the output is refused: {:?}\n  output: {}", e, show(&out))),
    };
    let out2 = t2.to_string();
    if out2 != out {
        let d = match (refparse::parse(&out, None), refparse::parse(&out2, None)) {
            (Ok(a), Ok(b)) => first_diff(&a, &b),
            _ => String::new(),
        };
        return Err(format!("loaded again it renders differently: {}\n  first:  {}\n  second: {}", d, show(&out), show(&out2)));
    }
    if equal {
        if t2 != *t || *t != t2 {
            return Err(format!("loaded again it is not equal\n  output: {}", show(&out)));
        }
        ctx.count("compared equal");
    }
    ctx.count("loaded again");
    if out.contains('<') {
        ctx.nontrivial(out.as_bytes());
    }
    Ok(out)
}

fn c02_loaded(ctx: &mut Ctx, src: &mut Src) -> Res {
    let mut sh = SMALL;
    if src.chance(1, 6) {
        sh.depth = 25;
        sh.nodes = 60;
    }
    sh.narrow = src.chance(1, 4);
    let toks = doc_toks(src, sh);
    let s = spell(src, &toks, true);
    ctx.about(format!("markup: {}", show(&s)));
    again(ctx, &load(&s)?, true).map(|_| ())
}

fn c02_mutated(ctx: &mut Ctx, src: &mut Src) -> Res {
    for _ in 0..4 {
        let s = if src.chance(1, 4) { soup(src) } else { mutant(src, 1) };
        ctx.about(format!("markup: {}", show(&s)));
        // whatever the library accepts
        if let Ok(t) = Template::from_str(&s, ParseOptions::default()) {
            return again(ctx, &t, true).map(|_| ());
        }
    }
    ctx.count("no well-formed mutant");
    Ok(())
}

fn c02_large(ctx: &mut Ctx, src: &mut Src) -> Res {
    let toks = large(src, if ctx.thorough { 1 << 21 } else { 1 << 18 });
    let s = spell(src, &toks, false);
    ctx.about(format!("markup: {}", show(&s)));
    again(ctx, &load(&s)?, true).map(|_| ())
}

fn created(ctx: &mut Ctx, name: &str) -> Res {
    ctx.about(format!("element {:?}", name));
    if let Ok(t) = Template::with_element(intern(name)) {
        ctx.count("created and loaded again");
        let out = again(ctx, &t, false)?;
        if !matches!(&read(&out)?[..], [Tok::Void(n, a)] | [Tok::SelfClosed(n, a)] if n == name && a.is_empty()) {
            return Err(format!("the output is {}", show(&out)));
        }
        let r = Template::with_transformed_element(intern(name), |h| h.replace_contents("x").set_id("i"));
        match r {
            Ok(t) => {
                // raw elements too: only text was added
                again(ctx, &t, false)?;
            }
            Err(e) => return Err(format!("transformed: {}", err_text(&e))),
        }
    }
    Ok(())
}

fn c02_short(ctx: &mut Ctx, _src: &mut Src) -> Res {
    let i = ctx.index;
    let s = match i {
        0 => String::new(),
        1..=128 => char::from(i as u8 - 1).to_string(),
        _ => {
            let i = i - 129;
            [char::from((i / 128) as u8), char::from((i % 128) as u8)].iter().collect()
        }
    };
    created(ctx, &s)
}

fn c02_created(ctx: &mut Ctx, src: &mut Src) -> Res {
    let s = match src.below(4) {
        0 => random_name(src),
        1 => (0..src.range(3, 8)).map(|_| char::from(src.below(128) as u8)).collect(),
        2 => format!("{}{}", src.pick(&["!", "/", "?", "-", "--", "!--", "!doctype", "doctype", "script", "br"]), elem_name(src)),
        _ => elem_name(src),
    };
    created(ctx, &s)
}

fn c02_transformed(ctx: &mut Ctx, src: &mut Src) -> Res {
    let mix = Mix { look: 0, errors: 0, depth: 2, ..MIX };
    let d = Docs { raw: false, narrow: false, big: false };
    let mut case = a_case(src, mix, d);
    let mut about = String::new();
    for round in 0..3 {
        about.push_str(&case.show());
        ctx.about(about.clone());
        // is it small enough?
        let mut m = Model::new(&case.pool, FUEL);
        if m.ops(&case.ops, &Env::default(), case.doc.clone()).is_err() {
            return Ok(());
        }
        let env = case.env()?;
        let t = load(&spelled(&case.doc))?;
        let t = match real::run(&t, &case.ops, &env) {
            Ok(t) => t,
            Err(_) => return Ok(()),
        };
        ctx.count("transformed and loaded again");
        let out = again(ctx, &t, false)?;
        if round == 2 || out.len() > 20_000 || src.chance(1, 2) {
            break;
        }
        // go on with what came out
        let toks = read(&out)?;
        let Some(doc) = crate::tree::tree(&toks) else { break };
        let ops = {
            let mut g = Pg::new(src, mix, case.pool.len(), &doc);
            g.ops(2, false, false)
        };
        case = Case { pool: case.pool, doc, ops };
        about.push_str("\n  then ");
    }
    Ok(())
}

/// Documents with raw elements: these are kept, and get no more than attributes and text.
fn c02_raw(ctx: &mut Ctx, src: &mut Src) -> Res {
    let doc = loop {
        let d = a_doc(src, Docs { raw: true, narrow: false, big: false });
        if render(&d).len() < 4_000 {
            break d;
        }
    };
    let pool = vec![doc_in(src)];
    let mut ops = Vec::new();
    let mut g = Pg::new(src, Mix { user: 0, ..MIX }, 1, &doc);
    for _ in 0..1 + g.src.below(4) {
        // raw elements get texts and attributes; the others anything that repeats nothing
        let raw = g.src.chance(2, 3);
        let sel = if raw { Sel::Tag(g.src.pick(RAW).to_string()) } else { g.sel() };
        let mut list = Vec::new();
        for _ in 0..1 + g.src.below(4) {
            list.push(match g.src.below(9) {
                0 => Op::AddAttrV(g.name(3), g.val()),
                1 => Op::SetAttr(g.name(3), None),
                2 => Op::AddClass(g.name(2)),
                3 => Op::AddTo(g.name(3), g.val(), g.val()),
                4 => Op::RemoveAttr(g.name(3)),
                5 | 6 => Op::AppendC(Content::Text(hostile_in(g.src), *g.src.pick(WAYS))),
                7 => Op::PrependC(Content::Text(hostile_in(g.src), *g.src.pick(WAYS))),
                _ => {
                    if g.src.chance(1, 2) {
                        Op::ReplaceC(Content::Text(hostile_in(g.src), *g.src.pick(WAYS)))
                    } else {
                        Op::RemoveC
                    }
                }
            });
        }
        // beside the element
        match g.src.below(5) {
            0 => list.push(Op::Append(Content::Tpl(0, TplWay::Ref))),
            1 => list.push(Op::Prepend(Content::Text(hostile_in(g.src), Way::Str))),
            2 if g.src.chance(1, 4) => list.push(Op::Remove),
            _ => {}
        }
        let elem = ends_elem(&list, true);
        let site = g.site();
        let scope = *g.src.pick(SCOPES);
        ops.push(Op::Select(scope, sel, Rc::new(Body { site, variants: vec![list], elem })));
    }
    let case = Case { pool, doc, ops };
    ctx.about(case.show());
    let env = case.env()?;
    let t = load(&spelled(&case.doc))?;
    if let Ok(t) = real::run(&t, &case.ops, &env) {
        ctx.count("transformed and loaded again");
        again(ctx, &t, false)?;
    }
    Ok(())
}

fn doc_in(src: &mut Src) -> Vec<Node> {
    doc(src, Shape { nodes: 3, depth: 2, raw: false, ..SMALL })
}

/// Texts that try to end raw elements.
fn hostile_in(src: &mut Src) -> String {
    match src.below(3) {
        0 => {
            let n = src.pick(RAW).to_string();
            let n = flip_case(src, &n);
            match src.below(6) {
                0 => format!("</{}>", n),
                1 => format!("/{}>", n),
                2 => format!("</{}", n),
                3 => n,
                4 => ">".into(),
                _ => format!("</{} >x", n),
            }
        }
        _ => hostile_text(src),
    }
}

// ---------------------------------------------------------------- C06

/// Compare the outcome of from_file with what the bytes are.
fn compare_file(ctx: &mut Ctx, path: &Path, bytes: &[u8], o: ParseOptions, got: Result<Template, FileError>) -> Res {
    let named = |p: &Path| -> Res {
        if p.as_os_str() != path.as_os_str() {
            return Err(format!("the error names {:?} instead of {:?}", p, path));
        }
        Ok(())
    };
    if let Err(ref e) = got {
        let m = e.to_string();
        if !m.contains(&path.display().to_string()) {
            return Err(format!("the message {:?} does not name the path", m));
        }
        crate::real::file_causes(e)?;
    }
    let over = o.max_input_len.map_or(false, |l| bytes.len() > l);
    match std::str::from_utf8(bytes) {
        Ok(s) => match (Template::from_str(s, o), got) {
            (Ok(a), Ok(b)) => {
                ctx.count("files loaded");
                if a != b || b != a {
                    return Err("the templates differ".into());
                }
                if a.to_string() != b.to_string() {
                    return Err("the templates render differently".into());
                }
                Ok(())
            }
            (Err(a), Err(FileError::Input { path: ref p, error: ref b })) => {
                ctx.count("files refused");
                named(p)?;
                if a != *b || a.to_string() != b.to_string() {
                    return Err(format!("from_str: {:?}\n  from_file: {:?}", a, b));
                }
                Ok(())
            }
            (Ok(_), Err(e)) => Err(format!("from_str accepts, from_file: {:?}", e)),
            (Err(e), Ok(_)) => Err(format!("from_file accepts, from_str: {:?}", e)),
            (Err(a), Err(b)) => Err(format!("from_str: {:?}\n  from_file: {:?}", a, b)),
        },
        Err(u) => match got {
            Err(FileError::Decode { path: ref p, ref error }) => {
                ctx.count("decoding errors");
                named(p)?;
                if *error != u {
                    return Err(format!("decoding error {:?}, expected {:?}", error, u));
                }
                Ok(())
            }
            Err(FileError::Input { path: ref p, error: InputError::LengthLimitExceeded { limit } })
                if over && Some(limit) == o.max_input_len =>
            {
                named(p)
            }
            other => Err(format!("expected the decoding error {:?}, got {:?}", u, other)),
        },
    }
}

fn options(src: &mut Src, len: usize) -> ParseOptions {
    let mut o = ParseOptions::default();
    if src.chance(1, 4) {
        let l = match src.below(4) {
            0 => len,
            1 => len.saturating_sub(1),
            2 => len + 1,
            _ => src.below(2 * len + 2),
        };
        o = o.max_input_len(l);
    }
    if src.chance(1, 6) {
        o = o.max_stack_depth(src.below(5));
    }
    o
}

/// Another path that leads to the same file.
fn other_name(src: &mut Src, path: &Path) -> PathBuf {
    let (Some(dir), Some(name)) = (path.parent(), path.file_name()) else { return path.into() };
    match src.below(6) {
        0 => dir.join(".").join(name),
        1 => {
            let mut s = dir.as_os_str().to_os_string();
            s.push("//");
            s.push(name);
            PathBuf::from(s)
        }
        2 => match dir.file_name() {
            Some(last) => dir.join("..").join(last).join(name),
            None => path.into(),
        },
        3 => match std::env::current_dir() {
            Ok(here) => path.strip_prefix(&here).map(|p| p.to_path_buf()).unwrap_or_else(|_| path.into()),
            Err(_) => path.into(),
        },
        n => {
            let mut alias = path.to_path_buf().into_os_string();
            alias.push(if n == 4 { ".alias" } else { ".html.alias" });
            let alias = PathBuf::from(alias);
            let _ = std::fs::remove_file(&alias);
            match std::os::unix::fs::symlink(path, &alias) {
                Ok(()) => alias,
                Err(_) => path.into(),
            }
        }
    }
}

pub fn of_file(ctx: &mut Ctx, src: &mut Src, bytes: &[u8]) -> Res {
    let mut path = scratch_file();
    if src.chance(1, 6) {
        use std::os::unix::ffi::OsStringExt;
        // names like any other to the system
        let name: Vec<u8> = match src.below(5) {
            0 => b"with space \t and\nline".to_vec(),
            1 => "grüße-漢字".as_bytes().to_vec(),
            2 => vec![b'x'; 200],
            3 => b"<a b=\"c\">{}%s".to_vec(),
            _ => vec![0xff, b'a', 0xc3],
        };
        let mut full = path.clone().into_os_string().into_vec();
        full.extend(name);
        path = PathBuf::from(std::ffi::OsString::from_vec(full));
    }
    std::fs::write(&path, bytes).unwrap_or_else(|e| panic!("scratch file: {}", e));
    let real = path.clone();
    if src.chance(1, 6) {
        ctx.count("files by another of their names");
        path = other_name(src, &path);
    }
    let o = options(src, bytes.len());
    // the ways to name a file
    let got = match src.below(5) {
        0 => Template::from_file(path.clone(), o),
        1 => Template::from_file(path.as_os_str(), o),
        2 if path.to_str().is_some() => Template::from_file(path.display().to_string(), o),
        3 if path.to_str().is_some() => Template::from_file(&path.display().to_string()[..], o),
        _ => Template::from_file(&path, o),
    };
    let r = compare_file(ctx, &path, bytes, o, got);
    let _ = std::fs::remove_file(&real);
    if path.extension().map_or(false, |e| e == "alias") {
        let _ = std::fs::remove_file(&path);
    }
    if bytes.len() > 4096 || !bytes.is_ascii() {
        ctx.nontrivial(bytes);
    }
    r
}

fn any_text(src: &mut Src) -> String {
    match src.below(5) {
        0 => soup(src),
        1 => mutant(src, 1),
        _ => {
            let toks = doc_toks(src, SMALL);
            spell(src, &toks, true)
        }
    }
}

fn c06_any(ctx: &mut Ctx, src: &mut Src) -> Res {
    let mut s = any_text(src);
    if src.chance(1, 5) {
        let toks = large(src, 60_000);
        s.push_str(&spell(src, &toks, false));
    }
    if src.chance(1, 30) {
        // line ends and byte order marks are content like any other
        s.insert_str(0, src.pick(&["\u{feff}", "\r\n", "\0", "\u{1a}"]));
    }
    ctx.about(format!("{} bytes: {}", s.len(), show(&s)));
    of_file(ctx, src, s.as_bytes())
}

const WIDE: &[&str] = &["é", "日", "🙂", "e\u{301}", "\u{10ffff}", "\u{7ff}", "\u{800}", "\u{ffff}"];

/// Content with a given character across a multiple of the size a reader may use.
fn edge(src: &mut Src) -> String {
    let step = *src.pick(&[8192usize, 8192, 8192, 4096, 1024, 16384, 32768, 65536]);
    let k = src.range(1, if step > 16384 { 2 } else { 5 });
    let mut s = String::new();
    if src.chance(1, 2) {
        s.push_str("<p>");
    }
    for i in 1..=k {
        let c = src.pick(WIDE).to_string();
        let back = src.below(c.len() + 2);
        let target = (step * i).saturating_sub(back);
        let fill = *src.pick(&["x", "é", "日", "🙂", "<b></b>", " ", "\n"]);
        while s.len() + fill.len() <= target {
            s.push_str(fill);
        }
        while s.len() < target {
            s.push('y');
        }
        match src.below(6) {
            0 => s.push_str("<a k=\"é\"></a>"),
            1 => s.push_str("<!-- é -->"),
            2 => s.push_str("</q>"),
            _ => s.push_str(&c),
        }
    }
    // ends right there, or a bit later
    match src.below(3) {
        0 => {}
        1 => s.push_str("x"),
        _ => s.push_str(&"tail é ".repeat(src.below(200))),
    }
    if s.starts_with("<p>") && src.chance(4, 5) {
        s.push_str("</p>");
    }
    s
}

fn c06_edges(ctx: &mut Ctx, src: &mut Src) -> Res {
    let s = edge(src);
    ctx.about(format!("{} bytes: {}", s.len(), show(&s)));
    of_file(ctx, src, s.as_bytes())
}

fn spoil(src: &mut Src, b: &mut Vec<u8>) {
    const BAD: &[&[u8]] = &[
        b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xed\xbf\xbf",
        b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xff", b"\xfe", b"\xe0\x80\x80", b"\xf0\x80\x80\x80", b"\xe2", b"\xf0",
    ];
    for _ in 0..src.range(1, 3) {
        let at = match src.below(4) {
            0 => b.len(),
            1 if b.len() > 8192 => 8192 - src.below(4),
            _ => src.below(b.len() + 1),
        };
        match src.below(3) {
            0 => {
                let bad = *src.pick(BAD);
                b.splice(at..at, bad.iter().cloned());
            }
            1 => b.truncate(at),
            _ => {
                if at < b.len() {
                    b[at] = src.below(256) as u8;
                }
            }
        }
    }
}

fn c06_bytes(ctx: &mut Ctx, src: &mut Src) -> Res {
    let s = if src.chance(1, 4) { edge(src) } else { format!("{}é日🙂{}", any_text(src), any_text(src)) };
    let mut b = s.into_bytes();
    spoil(src, &mut b);
    ctx.about(format!("{} bytes: {}", b.len(), show(&String::from_utf8_lossy(&b))));
    of_file(ctx, src, &b)
}

fn c06_missing(ctx: &mut Ctx, src: &mut Src) -> Res {
    let base = PathBuf::from("/verif/scratch").join(format!("d{}", std::process::id()));
    let _ = std::fs::create_dir_all(&base);
    let f = base.join("file");
    let _ = std::fs::write(&f, "x");
    let looped = base.join("loop");
    let _ = std::os::unix::fs::symlink(&looped, &looped);
    let dangling = base.join("dangling");
    let _ = std::os::unix::fs::symlink(base.join("nowhere"), &dangling);
    let path = match src.below(9) {
        0 => base.join("none.html"),
        1 => base.join("no").join("such"),
        2 => base.clone(),
        3 => f.join("x"),
        4 => looped.clone(),
        5 => dangling.clone(),
        6 => base.join("n".repeat(300)),
        7 => PathBuf::from(""),
        _ => base.join(std::ffi::OsStr::from_bytes(b"n\xffo\xfe")),
    };
    ctx.about(format!("path {:?}", path));
    // what the system says
    let open = std::fs::File::open(&path);
    let want = match open {
        Err(ref e) => ("open", e.raw_os_error()),
        Ok(ref f) => match std::io::Read::read(&mut { f }, &mut [0; 10]) {
            Err(e) => ("read", e.raw_os_error()),
            Ok(_) => ("none", None),
        },
    };
    let o = options(src, 5);
    let got = Template::from_file(&path, o);
    let _ = std::fs::remove_file(&looped);
    let _ = std::fs::remove_file(&dangling);
    let _ = std::fs::remove_file(&f);
    let _ = std::fs::remove_dir(&base);
    match got {
        Ok(_) => return Err(format!("loaded {:?}", path)),
        Err(e) => {
            let m = e.to_string();
            if !m.contains(&path.display().to_string()) {
                return Err(format!("the message {:?} does not name the path", m));
            }
            crate::real::file_causes(&e)?;
            let (kind, p, code) = match e {
                FileError::Open { ref path, ref error } => ("open", path, error.raw_os_error()),
                FileError::Read { ref path, ref error } => ("read", path, error.raw_os_error()),
                other => return Err(format!("unexpected {:?}", other)),
            };
            if p.as_os_str() != path.as_os_str() {
                return Err(format!("the error names {:?} instead of {:?}", p, path));
            }
            if (kind, code) != want {
                return Err(format!("error {:?}, expected {:?}", (kind, code), want));
            }
            ctx.count(if kind == "open" { "open errors" } else { "read errors" });
            ctx.nontrivial(format!("{:?}{:?}", path.file_name(), o).as_bytes());
        }
    }
    Ok(())
}

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

extern "C" {
    fn mkfifo(path: *const std::os::raw::c_char, mode: u32) -> i32;
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn pthread_self() -> usize;
    fn pthread_kill(thread: usize, sig: i32) -> i32;
}

static SIGNALS: AtomicUsize = AtomicUsize::new(0);

extern "C" fn on_signal(_: i32) {
    SIGNALS.fetch_add(1, Ordering::Relaxed);
}

/// A pipe that gives its content in pieces.
fn c06_pipe(ctx: &mut Ctx, src: &mut Src) -> Res {
    let mut bytes = match src.below(3) {
        0 => any_text(src).into_bytes(),
        1 => edge(src).into_bytes(),
        _ => {
            let toks = large(src, 30_000);
            spell(src, &toks, false).into_bytes()
        }
    };
    if src.chance(1, 4) {
        spoil(src, &mut bytes);
    }
    let signals = src.chance(1, 2);
    let mut cuts = Vec::new();
    let mut at = 0;
    while at < bytes.len() && cuts.len() < 400 {
        let n = match src.below(6) {
            0 => 1,
            1 => src.range(1, 4),
            2 => src.range(4000, 5000),
            3 => 8192,
            4 => src.range(1, 100),
            _ => src.range(100, 3000),
        };
        let end = (at + n).min(bytes.len());
        cuts.push(end);
        at = end;
    }
    if at < bytes.len() {
        cuts.push(bytes.len());
    }
    let o = options(src, bytes.len());
    ctx.about(format!("{} bytes in {} pieces, signals {}: {}", bytes.len(), cuts.len(), signals, show(&String::from_utf8_lossy(&bytes))));
    let path = PathBuf::from("/verif/scratch").join(format!("p{}", std::process::id()));
    let _ = std::fs::create_dir_all("/verif/scratch");
    let _ = std::fs::remove_file(&path);
    let name = std::ffi::CString::new(path.as_os_str().as_bytes()).unwrap_or_default();
    // SAFETY: a proper C string; a handler that only counts.
    let me = unsafe {
        if mkfifo(name.as_ptr(), 0o600) != 0 {
            panic!("no pipe: {}", std::io::Error::last_os_error());
        }
        let act = SigAction { handler: on_signal as *const () as usize, mask: [0; 16], flags: 0, restorer: 0 };
        sigaction(10, &act, std::ptr::null_mut());
        pthread_self()
    };
    let before = SIGNALS.load(Ordering::Relaxed);
    static DONE: AtomicBool = AtomicBool::new(false);
    DONE.store(false, Ordering::SeqCst);
    let writer = {
        let (path, bytes) = (path.clone(), bytes.clone());
        std::thread::spawn(move || {
            // both ends, so that opening never blocks for good
            let Ok(mut f) = std::fs::OpenOptions::new().write(true).open(&path) else { return };
            let mut at = 0;
            for c in cuts {
                if f.write_all(&bytes[at..c]).is_err() {
                    break;
                }
                at = c;
                if signals && !DONE.load(Ordering::SeqCst) {
                    // let the reader run dry, then interrupt it
                    std::thread::sleep(std::time::Duration::from_micros(150));
                    // SAFETY: the reader waits for this thread before it ends.
                    unsafe { pthread_kill(me, 10) };
                }
            }
        })
    };
    let got = Template::from_file(&path, o);
    DONE.store(true, Ordering::SeqCst);
    let early = got.is_err();
    let _ = writer.join();
    let _ = std::fs::remove_file(&path);
    ctx.count("pipes read");
    ctx.add("interrupted reads", (SIGNALS.load(Ordering::Relaxed) - before) as u64);
    if bytes.len() > 4096 || early {
        ctx.nontrivial(&bytes);
    }
    compare_file(ctx, &path, &bytes, o, got)
}
