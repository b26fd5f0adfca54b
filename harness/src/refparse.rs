//! Reference tokenizer and well-formedness checker, written from the documented rules.

use crate::tree::{ci, is_raw, is_void, Attr, Tok};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum NameErr {
    Empty,
    NotAscii,
    Space(char),
    Forbidden(char),
}

/// The one rule for names.
pub fn name_rule(s: &str) -> Result<(), NameErr> {
    if s.len() == 0 {
        return Err(NameErr::Empty);
    }
    if s.bytes().any(|b| b >= 128) {
        return Err(NameErr::NotAscii);
    }
    for b in s.bytes() {
        if matches!(b, 9..=13 | 32) {
            return Err(NameErr::Space(b as char));
        }
    }
    for b in s.bytes() {
        if b"=\"'/><&,;".contains(&b) {
            return Err(NameErr::Forbidden(b as char));
        }
    }
    Ok(())
}

pub fn element_name_rule(s: &str) -> Result<(), NameErr> {
    name_rule(s)?;
    if s.as_bytes()[0] == b'!' {
        return Err(NameErr::Forbidden('!'));
    }
    Ok(())
}

/// A rejection; numbers are byte offsets.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RErr {
    UnsupportedDoctype { at: usize, doctype: String },
    UnclosedDoctype { at: usize },
    UnclosedComment { at: usize },
    UnfinishedOpen { tag: String, at: usize },
    UnfinishedClose { tag: String, at: usize },
    OpenNameMissing { at: usize },
    OpenNameBad { at: usize, why: NameErr },
    CloseNameMissing { at: usize },
    CloseNameBad { at: usize, why: NameErr },
    AttrNameBad { at: usize, why: NameErr },
    ValueUnquoted { at: usize, tag: String, attr: String },
    ValueUnclosed { at: usize, tag: String, attr: String },
    /// Innermost first.
    Missing(Vec<(String, usize)>),
    Limit { tag: String, at: usize, limit: usize },
    Unexpected { tag: String, at: usize },
    Mismatch { open: (String, usize), close: (String, usize) },
}

struct P<'a> {
    s: &'a str,
}

impl<'a> P<'a> {
    fn ch(&self, at: usize) -> Option<char> {
        self.s[at..].chars().next()
    }
    fn ws(&self, mut at: usize) -> usize {
        while let Some(c) = self.ch(at) {
            if !c.is_whitespace() {
                break;
            }
            at += c.len_utf8();
        }
        at
    }
    fn word_end(&self, mut at: usize) -> usize {
        let b = self.s.as_bytes();
        while at < b.len() && !b" \t\r\n><\"/='&".contains(&b[at]) {
            at += 1;
        }
        at
    }
    fn is(&self, at: usize, c: u8) -> bool {
        self.s.as_bytes().get(at) == Some(&c)
    }
    /// A closing tag at `at` (which holds a `<`): None if it is none, else name and end.
    fn close(&self, at: usize) -> Option<Result<(&'a str, usize), RErr>> {
        let p = self.ws(at + 1);
        if !self.is(p, b'/') {
            return None;
        }
        let n = self.ws(p + 1);
        let e = self.word_end(n);
        if e == n {
            return Some(Err(RErr::CloseNameMissing { at: n }));
        }
        let name = &self.s[n..e];
        if let Err(why) = name_rule(name) {
            return Some(Err(RErr::CloseNameBad { at: n, why }));
        }
        let g = self.ws(e);
        if !self.is(g, b'>') {
            return Some(Err(RErr::UnfinishedClose { tag: name.into(), at }));
        }
        Some(Ok((name, g + 1)))
    }
}

/// Read a document.
pub fn parse(s: &str, max_depth: Option<usize>) -> Result<Vec<Tok>, RErr> {
    let p = P { s };
    let mut toks = Vec::new();
    let mut open: Vec<(String, usize)> = Vec::new();
    let mut at = 0;
    let mut raw: Option<String> = None;
    while at < s.len() {
        if let Some(name) = raw.take() {
            let mut end = s.len();
            for (i, _) in s[at..].match_indices('<') {
                if let Some(Ok((found, _))) = p.close(at + i) {
                    if ci(found, &name) {
                        end = at + i;
                        break;
                    }
                }
            }
            toks.push(Tok::Raw(s[at..end].into()));
            at = end;
            continue;
        }
        if !p.is(at, b'<') {
            let end = s[at..].find('<').map(|i| at + i).unwrap_or(s.len());
            toks.push(Tok::Text(s[at..end].into()));
            at = end;
            continue;
        }
        if s[at..].starts_with("<!--") {
            match s[at + 4..].find("-->") {
                None => return Err(RErr::UnclosedComment { at }),
                Some(i) => {
                    toks.push(Tok::Comment(s[at + 4..at + 4 + i].into()));
                    at += 4 + i + 3;
                }
            }
            continue;
        }
        if p.is(at + 1, b'!') {
            let n = p.ws(at + 2);
            let e = p.word_end(n);
            if ci(&s[n..e], "doctype") {
                match s[e..].find('>') {
                    None => return Err(RErr::UnclosedDoctype { at }),
                    Some(i) => {
                        let content = s[e..e + i].trim();
                        if !ci(content, "html") {
                            return Err(RErr::UnsupportedDoctype { at, doctype: content.into() });
                        }
                        toks.push(Tok::Doctype(content.into()));
                        at = e + i + 1;
                    }
                }
                continue;
            }
        }
        if let Some(closing) = p.close(at) {
            let (name, end) = closing?;
            match open.pop() {
                None => return Err(RErr::Unexpected { tag: name.into(), at }),
                Some((oname, oat)) => {
                    if !ci(&oname, name) {
                        return Err(RErr::Mismatch {
                            open: (oname, oat),
                            close: (name.into(), at),
                        });
                    }
                }
            }
            toks.push(Tok::Close(name.into()));
            at = end;
            continue;
        }
        // opening tag
        let n = p.ws(at + 1);
        let e = p.word_end(n);
        if e == n {
            return Err(RErr::OpenNameMissing { at: n });
        }
        let name = &s[n..e];
        if let Err(why) = element_name_rule(name) {
            return Err(RErr::OpenNameBad { at: n, why });
        }
        let mut attrs = Vec::new();
        let mut g = p.ws(e);
        loop {
            let ae = p.word_end(g);
            if ae == g {
                break;
            }
            let aname = &s[g..ae];
            if let Err(why) = name_rule(aname) {
                return Err(RErr::AttrNameBad { at: g, why });
            }
            let eq = p.ws(ae);
            if !p.is(eq, b'=') {
                attrs.push(Attr { name: aname.into(), value: None });
                g = eq;
                continue;
            }
            let q = p.ws(eq + 1);
            if !p.is(q, b'"') {
                return Err(RErr::ValueUnquoted { at: q, tag: name.into(), attr: aname.into() });
            }
            match s[q + 1..].find('"') {
                None => {
                    return Err(RErr::ValueUnclosed { at: q, tag: name.into(), attr: aname.into() })
                }
                Some(i) => {
                    attrs.push(Attr { name: aname.into(), value: Some(s[q + 1..q + 1 + i].into()) });
                    g = p.ws(q + 1 + i + 1);
                }
            }
        }
        let mut slash = false;
        if p.is(g, b'/') {
            slash = true;
            g = p.ws(g + 1);
        }
        if !p.is(g, b'>') {
            return Err(RErr::UnfinishedOpen { tag: name.into(), at });
        }
        let end = g + 1;
        if is_void(name) {
            toks.push(Tok::Void(name.into(), attrs));
        } else if slash {
            toks.push(Tok::SelfClosed(name.into(), attrs));
        } else {
            if max_depth == Some(open.len()) {
                return Err(RErr::Limit { tag: name.into(), at, limit: open.len() });
            }
            open.push((name.into(), at));
            if is_raw(name) {
                raw = Some(name.into());
            }
            toks.push(Tok::Open(name.into(), attrs));
        }
        at = end;
    }
    if !open.is_empty() {
        open.reverse();
        return Err(RErr::Missing(open));
    }
    Ok(toks)
}

/// 1-based line and column (in characters) of a byte offset.
pub fn line_col(s: &str, offset: usize) -> (usize, usize) {
    let before = &s[..offset];
    let line = before.bytes().filter(|b| *b == b'\n').count() + 1;
    let start = before.rfind('\n').map(|i| i + 1).unwrap_or(0);
    (line, before[start..].chars().count() + 1)
}
