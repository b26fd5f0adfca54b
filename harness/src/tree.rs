//! Documents as the monitors see them: a tree of nodes, and a flat list of tokens.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Attr {
    pub name: String,
    pub value: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    Doctype(String),
    Comment(String),
    /// Character data as it stands in the markup.
    Text(String),
    /// Raw contents of script, style, title, textarea.
    Raw(String),
    Elem(Elem),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Elem {
    pub name: String,
    pub attrs: Vec<Attr>,
    pub kind: Kind,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kind {
    Void,
    SelfClosed,
    Normal { close: String, children: Vec<Node> },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    Doctype(String),
    Comment(String),
    Text(String),
    Raw(String),
    Open(String, Vec<Attr>),
    Close(String),
    SelfClosed(String, Vec<Attr>),
    Void(String, Vec<Attr>),
}

pub const VOID: &[&str] = &[
    "area", "base", "br", "col", "embed", "hr", "img", "input", "keygen", "link", "menuitem",
    "meta", "param", "source", "track", "wbr",
];
pub const RAW: &[&str] = &["script", "style", "title", "textarea"];

pub fn ci(a: &str, b: &str) -> bool {
    a.eq_ignore_ascii_case(b)
}
pub fn is_void(name: &str) -> bool {
    VOID.iter().any(|v| ci(v, name))
}
pub fn is_raw(name: &str) -> bool {
    RAW.iter().any(|v| ci(v, name))
}

pub fn attrs_str(attrs: &[Attr], out: &mut String) {
    for a in attrs {
        out.push(' ');
        out.push_str(&a.name);
        if let Some(ref v) = a.value {
            out.push_str("=\"");
            out.push_str(v);
            out.push('"');
        }
    }
}

pub fn flatten(nodes: &[Node], out: &mut Vec<Tok>) {
    for n in nodes {
        match n {
            Node::Doctype(s) => out.push(Tok::Doctype(s.clone())),
            Node::Comment(s) => out.push(Tok::Comment(s.clone())),
            Node::Text(s) => out.push(Tok::Text(s.clone())),
            Node::Raw(s) => out.push(Tok::Raw(s.clone())),
            Node::Elem(e) => match e.kind {
                Kind::Void => out.push(Tok::Void(e.name.clone(), e.attrs.clone())),
                Kind::SelfClosed => out.push(Tok::SelfClosed(e.name.clone(), e.attrs.clone())),
                Kind::Normal { ref close, ref children } => {
                    out.push(Tok::Open(e.name.clone(), e.attrs.clone()));
                    flatten(children, out);
                    out.push(Tok::Close(close.clone()));
                }
            },
        }
    }
}

pub fn render_tok(t: &Tok, out: &mut String) {
    match t {
        Tok::Doctype(s) => {
            out.push_str("<!doctype ");
            out.push_str(s);
            out.push('>');
        }
        Tok::Comment(s) => {
            out.push_str("<!--");
            out.push_str(s);
            out.push_str("-->");
        }
        Tok::Text(s) | Tok::Raw(s) => out.push_str(s),
        Tok::Open(n, a) | Tok::Void(n, a) => {
            out.push('<');
            out.push_str(n);
            attrs_str(a, out);
            out.push('>');
        }
        Tok::SelfClosed(n, a) => {
            out.push('<');
            out.push_str(n);
            attrs_str(a, out);
            out.push_str(" />");
        }
        Tok::Close(n) => {
            out.push_str("</");
            out.push_str(n);
            out.push('>');
        }
    }
}

pub fn render_toks(toks: &[Tok]) -> String {
    let mut s = String::new();
    for t in toks {
        render_tok(t, &mut s);
    }
    s
}

pub fn render(nodes: &[Node]) -> String {
    let mut toks = Vec::new();
    flatten(nodes, &mut toks);
    render_toks(&toks)
}

/// Build the tree of a balanced token list.
pub fn tree(toks: &[Tok]) -> Option<Vec<Node>> {
    let mut stack: Vec<(String, Vec<Attr>, Vec<Node>)> = Vec::new();
    let mut cur: Vec<Node> = Vec::new();
    for t in toks {
        match t {
            Tok::Doctype(s) => cur.push(Node::Doctype(s.clone())),
            Tok::Comment(s) => cur.push(Node::Comment(s.clone())),
            Tok::Text(s) => cur.push(Node::Text(s.clone())),
            Tok::Raw(s) => cur.push(Node::Raw(s.clone())),
            Tok::Void(n, a) => {
                cur.push(Node::Elem(Elem { name: n.clone(), attrs: a.clone(), kind: Kind::Void }))
            }
            Tok::SelfClosed(n, a) => cur.push(Node::Elem(Elem {
                name: n.clone(),
                attrs: a.clone(),
                kind: Kind::SelfClosed,
            })),
            Tok::Open(n, a) => {
                let children = std::mem::take(&mut cur);
                stack.push((n.clone(), a.clone(), children));
            }
            Tok::Close(n) => {
                let (name, attrs, outer) = stack.pop()?;
                if !ci(&name, n) {
                    return None;
                }
                let children = std::mem::replace(&mut cur, outer);
                cur.push(Node::Elem(Elem {
                    name,
                    attrs,
                    kind: Kind::Normal { close: n.clone(), children },
                }));
            }
        }
    }
    if stack.is_empty() {
        Some(cur)
    } else {
        None
    }
}

/// Merge neighbouring texts and drop empty ones: what is left is what a reader sees.
pub fn merge_text(toks: Vec<Tok>) -> Vec<Tok> {
    let mut out: Vec<Tok> = Vec::new();
    for t in toks {
        match t {
            Tok::Text(s) | Tok::Raw(s) => {
                if s.is_empty() {
                    continue;
                }
                if let Some(Tok::Text(last)) = out.last_mut() {
                    last.push_str(&s);
                    continue;
                }
                out.push(Tok::Text(s));
            }
            other => out.push(other),
        }
    }
    out
}
