//! Runs transformation programs on the library, recording what user code gets to see.

use crate::prog::*;
use crate::refparse::NameErr;
use crate::tree::*;
use html5_fuser::event::{AssertionError, Event, IntoStream, MalformedReason, Stream, StreamResult};
use html5_fuser::select::{self, IntoSelector, Selector};
use html5_fuser::text::{Data, Identifier, IdentifierError, IntoIdentifier, IntoValue, Value};
use html5_fuser::{BoxedApi, BoxedElementApi, ElementStream, ParseOptions, StreamError, Template};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;


thread_local! {
    static INTERN: RefCell<BTreeSet<&'static str>> = RefCell::new(BTreeSet::new());
}

thread_local!(static OWN: std::cell::Cell<isize> = const { std::cell::Cell::new(0) });

/// Live bytes apart from the texts interned by this thread.
pub fn live_bytes() -> isize {
    crate::alloc::live().0 as isize - OWN.with(|o| o.get())
}

pub fn intern(s: &str) -> &'static str {
    INTERN.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(x) = t.get(s) {
            return *x;
        }
        // what is kept here is not the library's
        let before = crate::alloc::live();
        // the front part of another one, if there is one: same address, other length
        let x: &'static str = match t.range::<str, _>((std::ops::Bound::Included(s), std::ops::Bound::Unbounded)).next() {
            Some(y) if y.starts_with(s) => &y[..s.len()],
            _ => Box::leak(s.to_string().into_boxed_str()),
        };
        t.insert(x);
        let after = crate::alloc::live();
        OWN.with(|o| o.set(o.get() + after.0 as isize - before.0 as isize));
        x
    })
}

pub fn name_err(e: &NameErr) -> IdentifierError {
    match e {
        NameErr::Empty => IdentifierError::Empty,
        NameErr::NotAscii => IdentifierError::NotAscii,
        NameErr::Space(c) => IdentifierError::Whitespace { whitespace: *c },
        NameErr::Forbidden(c) => IdentifierError::Forbidden { forbidden: *c },
    }
}

/// The error a failure stands for.
pub fn make_err(f: &Fail) -> StreamError {
    use html5_fuser::select::{ClassesError, Error as SE, StaticError};
    let sel = |error| StreamError::Selector { error };
    let st = |error| StreamError::StaticSelector { error };
    match f {
        Fail::Ident(e) => StreamError::Identifier { error: name_err(e) },
        Fail::SelTag(e) => sel(SE::Tag { error: name_err(e) }),
        Fail::SelId(e) => sel(SE::Id { error: name_err(e) }),
        Fail::SelClass(e) => sel(SE::Class { error: name_err(e) }),
        Fail::SelClasses(i, e) => {
            sel(SE::Classes { error: ClassesError::Identifier { index: *i, error: name_err(e) } })
        }
        Fail::SelClassesEmpty => sel(SE::Classes { error: ClassesError::Empty }),
        Fail::StaticNothing => st(StaticError::Unrestricted),
        Fail::StaticTag(e) => st(StaticError::Tag { error: name_err(e) }),
        Fail::StaticId(e) => st(StaticError::Id { error: name_err(e) }),
        Fail::StaticClass(i, e) => st(StaticError::Class { index: *i, error: name_err(e) }),
        Fail::Parse(s) => match Template::from_str(s, ParseOptions::default()) {
            Err(error) => StreamError::Input { error },
            Ok(_) => StreamError::Assertion { error: user_assertion("accepted-bad-markup") },
        },
        Fail::Length(s, n) => {
            match Template::from_str(s, ParseOptions::default().max_input_len(*n)) {
                Err(error) => StreamError::Input { error },
                Ok(_) => StreamError::Assertion { error: user_assertion("accepted-long-markup") },
            }
        }
        Fail::File(p) => match Template::from_file(p, ParseOptions::default()) {
            Err(error) => StreamError::File { error },
            Ok(_) => StreamError::Assertion { error: user_assertion("accepted-bad-file") },
        },
        Fail::Data(p, limit) => {
            let mut o = ParseOptions::default();
            if let Some(n) = *limit {
                o = o.max_input_len(n);
            }
            match Template::from_file(&data(p), o) {
                Err(error) => StreamError::File { error },
                Ok(_) => StreamError::Assertion { error: user_assertion("accepted-bad-file") },
            }
        }
        Fail::User(s) => StreamError::Assertion { error: user_assertion(s) },
    }
}

/// A file of the harness.
pub fn data(name: &str) -> String {
    format!("{}/data/{}", env!("CARGO_MANIFEST_DIR"), name)
}

/// Files that fail, and the limit that makes them.
pub const BAD_FILES: &[(&str, Option<usize>)] = &[
    ("unclosed.html", None),
    ("unopened.html", None),
    ("unquoted.html", None),
    ("latin.html", None),
    ("cut.html", None),
    ("good.html", Some(0)),
    ("good.html", Some(23)),
    ("unclosed.html", Some(5)),
    ("unopened.html", Some(1000)),
];

/// Is the cause of an error the one it holds, if any?
pub fn level(what: &str, of: &dyn std::error::Error, inner: Option<&dyn std::error::Error>) -> Result<(), String> {
    #[allow(deprecated)]
    let got = of.cause().map(|c| (format!("{:?}", c), c.to_string()));
    let want = inner.map(|c| (format!("{:?}", c), c.to_string()));
    if got != want {
        return Err(format!("the cause of the {} {:?} is {:?} instead of {:?}", what, of, got, want));
    }
    Ok(())
}

fn parse_causes(e: &html5_fuser::parse::Error) -> Result<(), String> {
    use html5_fuser::parse::Error as PE;
    match e {
        PE::InvalidOpeningTagIdentifier { identifier_error, .. }
        | PE::InvalidClosingTagIdentifier { identifier_error, .. }
        | PE::InvalidAttributeIdentifier { identifier_error, .. } => {
            level("parse error", e, Some(identifier_error))?;
            level("name error", identifier_error, None)
        }
        _ => level("parse error", e, None),
    }
}

/// The same of what loading a string gives.
pub fn input_causes(e: &html5_fuser::template::InputError) -> Result<(), String> {
    use html5_fuser::template::InputError;
    match e {
        InputError::Parse { error } => {
            level("input error", e, Some(error))?;
            parse_causes(error)
        }
        _ => level("input error", e, None),
    }
}

/// The same of what loading a file gives.
pub fn file_causes(error: &html5_fuser::template::FileError) -> Result<(), String> {
    use html5_fuser::template::FileError;
    match error {
        FileError::Open { error: inner, .. } | FileError::Read { error: inner, .. } => {
            level("file error", error, Some(inner))
        }
        FileError::Decode { error: inner, .. } => level("file error", error, Some(inner)),
        FileError::Input { error: inner, .. } => {
            level("file error", error, Some(inner))?;
            input_causes(inner)
        }
    }
}

/// Are the causes of an error the errors it holds, down to the first one?
pub fn causes(e: &StreamError) -> Result<(), String> {
    use html5_fuser::select::{ClassesError, Error as SE, StaticError};
    match e {
        StreamError::Assertion { error } => {
            level("error", e, Some(error))?;
            let AssertionError::Malformed { error: inner } = error;
            level("assertion error", error, Some(inner))?;
            level("reason", inner, None)
        }
        StreamError::Input { error } => {
            level("error", e, Some(error))?;
            input_causes(error)
        }
        StreamError::File { error } => {
            level("error", e, Some(error))?;
            file_causes(error)
        }
        StreamError::Identifier { error } => level("error", e, Some(error)),
        StreamError::Selector { error } => {
            level("error", e, Some(error))?;
            match error {
                SE::Id { error: inner } | SE::Tag { error: inner } | SE::Class { error: inner } => {
                    level("selector error", error, Some(inner))
                }
                SE::Classes { error: inner } => {
                    level("selector error", error, Some(inner))?;
                    match inner {
                        ClassesError::Identifier { error: last, .. } => level("classes error", inner, Some(last)),
                        ClassesError::Empty => level("classes error", inner, None),
                    }
                }
            }
        }
        StreamError::StaticSelector { error } => {
            level("error", e, Some(error))?;
            match error {
                StaticError::Unrestricted => level("selector error", error, None),
                StaticError::Id { error: inner }
                | StaticError::Tag { error: inner }
                | StaticError::Class { error: inner, .. } => level("selector error", error, Some(inner)),
            }
        }
    }
}

pub fn user_assertion(s: &str) -> AssertionError {
    let tag = intern(s).into_identifier().unwrap_or_else(|_| {
        "x".into_identifier().unwrap_or_else(|_| std::process::exit(3))
    });
    AssertionError::Malformed { error: MalformedReason::UnexpectedClosingTag { tag } }
}

/// All there is to know about an error.
pub fn err_text(e: &StreamError) -> String {
    use std::error::Error;
    let mut s = format!("{:?}", e);
    let mut at: Option<&dyn Error> = Some(e);
    let mut n = 0;
    while let Some(x) = at {
        s.push_str(&format!(" | {}", x));
        at = x.cause();
        n += 1;
        if n > 20 {
            s.push_str(" | endless causes");
            break;
        }
    }
    s
}

pub struct RealEnv {
    pub pool: Vec<Template>,
    pub events: Vec<Vec<Event>>,
    pub noop: Option<Event>,
    pub log: RefCell<Log>,
    pub calls: RefCell<BTreeMap<usize, usize>>,
    /// Broken promises of streams, as seen by user code.
    pub misuse: RefCell<Vec<String>>,
    /// Number of things user code saw.
    pub seen: RefCell<usize>,
    /// What user-written selectors were asked about, per site and selection.
    pub asks: RefCell<Asks>,
    /// Every user-written stream: its site, events to be given, and polls it saw.
    pub streams: RefCell<Vec<(usize, usize, usize)>>,
    /// The same of iterators.
    pub iters: RefCell<Vec<(usize, usize, usize)>>,
    /// If set, user code behaves wildly.
    pub mood: RefCell<Option<Mood>>,
    /// Panic in the n-th builder call (countdown).
    pub panic_in: RefCell<Option<usize>>,
    /// Makes the same places differ from case to case.
    salt: usize,
}

/// Makes user code behave in any way at all.
pub struct Mood {
    state: u64,
    /// Calls left to be wild in.
    pub left: usize,
    /// One in so many calls is special.
    pub rate: u64,
}

impl Mood {
    pub fn new(seed: u64, left: usize, rate: u64) -> Mood {
        Mood { state: seed, left, rate }
    }
    fn below(&mut self, n: u64) -> u64 {
        self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        crate::choice::mix(self.state) % n.max(1)
    }
}

/// The payload of a panic raised on purpose.
pub struct UserPanic;

pub fn drain(mut s: impl Stream) -> Result<Vec<Event>, StreamError> {
    let mut v = Vec::new();
    while let Some(e) = s.next_event()? {
        v.push(e);
    }
    Ok(v)
}

impl RealEnv {
    pub fn new(pool: Vec<Template>) -> RealEnv {
        AT_REST.with(|_| ());
        let events: Vec<Vec<Event>> = pool.iter().map(|t| drain(t.into_stream()).unwrap_or_default()).collect();
        let noop = Ok::<_, StreamError>("x")
            .into_stream()
            .next_event()
            .ok()
            .and_then(|e| e)
            .filter(|e| e.description() == "noop");
        RealEnv {
            salt: events.iter().map(|e| e.len() * 5 + 1).sum(),
            pool,
            events,
            noop,
            log: Default::default(),
            calls: Default::default(),
            misuse: Default::default(),
            seen: Default::default(),
            asks: Default::default(),
            streams: Default::default(),
            iters: Default::default(),
            mood: Default::default(),
            panic_in: Default::default(),
        }
    }
    pub fn note(&self, site: usize, what: String) {
        *self.seen.borrow_mut() += 1;
        self.log.borrow_mut().entry(site).or_default().push(what);
    }
    /// What a wild call is to do: a number below n, or None to behave.
    fn wild(&self, n: u64) -> Option<u64> {
        if self.mood.borrow().is_some() {
            self.countdown();
        }
        let mut m = self.mood.borrow_mut();
        let m = m.as_mut()?;
        if m.left == 0 {
            return None;
        }
        m.left -= 1;
        if m.below(m.rate) == 0 {
            Some(m.below(n))
        } else {
            None
        }
    }
    fn countdown(&self) {
        let mut p = self.panic_in.borrow_mut();
        match *p {
            Some(0) => {
                *p = None;
                drop(p);
                std::panic::panic_any(UserPanic)
            }
            Some(n) => *p = Some(n - 1),
            None => {}
        }
    }
}

pub enum Cur<'t> {
    S(BoxedApi<'t>),
    E(BoxedElementApi<'t>),
}

impl<'t> Cur<'t> {
    pub fn stream(self) -> BoxedApi<'t> {
        match self {
            Cur::S(a) => a,
            Cur::E(a) => a.into_boxed(),
        }
    }
    pub fn elem(self) -> BoxedElementApi<'t> {
        match self {
            Cur::E(a) => a,
            Cur::S(_) => panic!("harness: element operation on a stream"),
        }
    }
}

pub struct DynSel(pub Rc<dyn Selector>);
impl Selector for DynSel {
    fn matches(&self, event: &Event) -> bool {
        self.0.matches(event)
    }
}

pub fn is_start(e: &Event) -> bool {
    matches!(e.description(), "opening tag" | "self-closed tag" | "void tag")
}

/// Name of the tag in a rendered start tag.
pub fn shown_name(s: &str) -> &str {
    let s = s.strip_prefix('<').unwrap_or(s);
    &s[..s.find(|c: char| c == ' ' || c == '>').unwrap_or(s.len())]
}

struct Custom {
    pred: Pred,
    site: usize,
    /// Which selection of the site this is.
    number: usize,
    env: Rc<RealEnv>,
}
impl Selector for Custom {
    fn matches(&self, event: &Event) -> bool {
        if let Some(k) = self.env.wild(2) {
            return k == 0;
        }
        if !is_start(event) {
            return false;
        }
        let s = event.to_string();
        let name = shown_name(&s);
        *self.env.seen.borrow_mut() += 1;
        let n = if self.site == 0 {
            0
        } else {
            let mut asks = self.env.asks.borrow_mut();
            let list = &mut asks.get_mut(&self.site).expect("asks")[self.number];
            list.push(s.clone());
            list.len() - 1
        };
        self.env.aside(self.site, n);
        match self.pred {
            Pred::All => true,
            Pred::None => false,
            Pred::Nth(every, from) => n >= from && (n - from) % every == 0,
            Pred::Starts(c) => name.starts_with(c),
            Pred::HasAttrs => match event.description() {
                "self-closed tag" => s.len() > name.len() + 4,
                _ => s.len() > name.len() + 2,
            },
        }
    }
}

pub fn dyn_sel(sel: &Sel, env: &Rc<RealEnv>) -> Result<DynSel, StreamError> {
    fn up<S: Selector + 'static, E: Into<StreamError>>(r: Result<S, E>) -> Result<DynSel, StreamError> {
        r.map(|s| DynSel(Rc::new(s))).map_err(Into::into)
    }
    match sel {
        Sel::Static(s) => up(intern(s).into_selector()),
        Sel::Tag(s) => up(s.parse::<select::Tag>()),
        Sel::Id(s) => up(s.parse::<select::Id>()),
        Sel::Class(s) => up(s.parse::<select::Class>()),
        Sel::Classes(v) => up(select::Classes::from_str_iterator(v.iter().map(|s| &s[..]))),
        Sel::Custom(p, site) => {
            let number = {
                let mut asks = env.asks.borrow_mut();
                let list = asks.entry(*site).or_default();
                list.push(vec![]);
                list.len() - 1
            };
            Ok(DynSel(Rc::new(Custom { pred: p.clone(), site: *site, number, env: env.clone() })))
        }
        Sel::Fail(f) => Err(make_err(f)),
    }
}

pub struct DynName<'a>(pub &'a Name);
impl<'a> IntoIdentifier for DynName<'a> {
    fn into_identifier(self) -> Result<Identifier, IdentifierError> {
        let text = &self.0.text;
        let parsed: Result<Identifier, IdentifierError> = text.parse();
        match (self.0.way, parsed) {
            (NWay::Str, _) => intern(text).into_identifier(),
            (NWay::Owned, Ok(i)) => i.into_identifier(),
            (NWay::Ref, Ok(i)) => (&i).into_identifier(),
            (_, r) => r.into_identifier(),
        }
    }
}

macro_rules! with_int {
    ($n:expr, $int:expr, |$v:ident| $e:expr) => {
        match $int {
            Int::Usize => { let $v = $n as usize; $e }
            Int::U8 => { let $v = $n as u8; $e }
            Int::U16 => { let $v = $n as u16; $e }
            Int::U32 => { let $v = $n as u32; $e }
            Int::U64 => { let $v = $n as u64; $e }
            Int::Isize => { let $v = $n as isize; $e }
            Int::I8 => { let $v = $n as i8; $e }
            Int::I16 => { let $v = $n as i16; $e }
            Int::I32 => { let $v = $n as i32; $e }
            Int::I64 => { let $v = $n as i64; $e }
        }
    };
}

pub fn dyn_value(v: &Val, item: Option<i64>) -> Value {
    match v {
        Val::Text(s, w) => match w {
            VWay::Dyn => Value::from_unencoded_str(s).into_value(),
            VWay::Static => Value::from_unencoded_static_str(intern(s)).into_value(),
            VWay::Ref => (&Value::from_unencoded_str(s)).into_value(),
            VWay::Str => intern(s).into_value(),
        },
        Val::Num(n, i) => with_int!(*n, *i, |x| x.into_value()),
        Val::Item => Value::from_unencoded_str(item_text(item)).into_value(),
    }
}

pub fn item_text(item: Option<i64>) -> String {
    Env { item }.item_text()
}

pub fn text_stream(s: &str, way: Way) -> Box<dyn Stream> {
    match way {
        Way::DataDyn => Box::new(Data::from_unencoded_str(s).into_stream()),
        Way::DataStatic => Box::new(Data::from_unencoded_static_str(intern(s)).into_stream()),
        Way::DataRef => Box::new((&Data::from_unencoded_str(s)).into_stream()),
        Way::ValueDyn => Box::new(Value::from_unencoded_str(s).into_stream()),
        Way::ValueStatic => Box::new(Value::from_unencoded_static_str(intern(s)).into_stream()),
        Way::ValueRef => Box::new((&Value::from_unencoded_str(s)).into_stream()),
        Way::Str => Box::new(intern(s).into_stream()),
        Way::OkData => {
            let r: Result<Data, IdentifierError> = Ok(Data::from_unencoded_str(s));
            Box::new(r.into_stream())
        }
        Way::OkStr => {
            let r: Result<&'static str, StreamError> = Ok(intern(s));
            Box::new(r.into_stream())
        }
        Way::Boxed => {
            let b: Box<dyn Stream> = Box::new(Data::from_unencoded_str(s).into_stream());
            Box::new(b.into_stream())
        }
        Way::Cell => {
            let c = Rc::new(RefCell::new(Data::from_unencoded_str(s).into_stream()));
            Box::new(c.into_stream())
        }
    }
}

pub fn tpl_stream(t: &Template, way: TplWay) -> Box<dyn Stream> {
    match way {
        TplWay::Owned => Box::new(t.clone().into_stream()),
        TplWay::Ref => Box::new(t.into_stream()),
        TplWay::Rc => Box::new(Rc::new(t.clone()).into_stream()),
        TplWay::Ok => {
            let r: Result<Template, html5_fuser::template::FileError> = Ok(t.clone());
            Box::new(r.into_stream())
        }
        TplWay::Short => {
            let fresh = t.transform(|html| html).unwrap_or_else(|_| t.clone());
            Box::new((&fresh).into_stream())
        }
        TplWay::Stream => Box::new(t.into_stream().into_stream()),
        TplWay::BoxedStream => {
            let b: Box<dyn Stream> = Box::new(t.into_stream());
            Box::new(b.into_stream())
        }
        TplWay::Cell => {
            let c = Rc::new(RefCell::new(t.into_stream()));
            Box::new(c.into_stream())
        }
    }
}

/// A user-written stream that watches how it is used.
pub struct UserStream {
    events: Vec<Event>,
    pos: usize,
    fail: Option<(usize, Fail)>,
    noop: Option<Event>,
    done: bool,
    site: usize,
    number: usize,
    busy: bool,
    env: Rc<RealEnv>,
}

impl UserStream {
    pub fn new(events: Vec<Event>, site: usize, fail: Option<(usize, Fail)>, env: &Rc<RealEnv>) -> UserStream {
        let number = {
            let mut s = env.streams.borrow_mut();
            s.push((site, events.len(), 0));
            s.len() - 1
        };
        UserStream {
            number,
            busy: false,
            events,
            pos: 0,
            fail,
            noop: env.noop.clone().filter(|_| site % 3 == 0),
            done: false,
            site,
            env: env.clone(),
        }
    }
}

impl Stream for UserStream {
    fn next_event(&mut self) -> StreamResult {
        *self.env.seen.borrow_mut() += 1;
        self.env.streams.borrow_mut()[self.number].2 += 1;
        if self.busy {
            busy_work(&self.env);
        }
        self.env.aside(self.site, self.pos);
        match self.env.wild(10) {
            Some(0) => return Ok(None),
            Some(1) => return Err(make_err(&Fail::User("wild".into()))),
            Some(2) => {
                self.pos = self.pos.saturating_sub(2);
                self.done = false;
            }
            Some(3) => self.pos += 1,
            Some(4) => return Ok(self.env.noop.clone()),
            Some(k) => {
                let all: usize = self.env.events.iter().map(|l| l.len()).sum();
                if all > 0 {
                    let mut at = (k as usize * 7 + self.pos * 3) % all;
                    for l in &self.env.events {
                        if at < l.len() {
                            return Ok(Some(l[at].clone()));
                        }
                        at -= l.len();
                    }
                }
            }
            None => {}
        }
        if self.done {
            self.env
                .misuse
                .borrow_mut()
                .push(format!("the user stream of site {} was asked again after its end", self.site));
            return Ok(None);
        }
        if let Some(n) = self.noop.take() {
            return Ok(Some(n));
        }
        if let Some((at, ref f)) = self.fail {
            if self.pos >= at || self.pos >= self.events.len() {
                self.done = true;
                return Err(make_err(f));
            }
        }
        match self.events.get(self.pos) {
            Some(e) => {
                self.pos += 1;
                if self.site % 3 == 0 && self.pos % 2 == 0 {
                    self.noop = self.env.noop.clone();
                }
                Ok(Some(e.clone()))
            }
            None => {
                self.done = true;
                Ok(None)
            }
        }
    }
}

/// A load, a transformation with all that is called from it, a rendering and an error.
fn small_work() -> String {
    let r = Template::from_str("<!doctype html><p class=\"a b\" id=i>x</p>", ParseOptions::default());
    let mut s = format!("{:?}\n", r.err());
    let t = match Template::from_str(
        "<p class=\"a b\" id=\"i\">x&amp;<b>y</b><br></p><script>a < b</script><i/>",
        ParseOptions::default(),
    ) {
        Ok(t) => t,
        Err(e) => return format!("{:?}", e),
    };
    let r = t.transform(|html| {
        html.select("p#i.b", |html| {
            html.add_class("c")
                .subselect("b", |html| html.append_contents("<z>").set_attribute_with_value("q", "\"w\""))
                .repeat(0..2, |html, n| html.append_contents(n))
                .append(&t)
        })
        .select_once("i".parse::<select::Tag>(), |html| {
            html.replace_contents(Data::from_unencoded_str("\u{e9}&"))
        })
    });
    match r {
        Ok(t) => s.push_str(&t.to_string()),
        Err(e) => s.push_str(&err_text(&e)),
    }
    let r = t.transform(|html| html.select("b", |html| html.add_class("")));
    s.push_str(&r.err().map(|e| err_text(&e)).unwrap_or_default());
    s
}

thread_local! {
    static AT_REST: String = small_work();
}

impl RealEnv {
    /// User code may use the library for something else while it is being called by it.
    fn aside(&self, site: usize, n: usize) {
        if (site * 7 + n * 3 + self.salt) % 31 != 5 {
            return;
        }
        AT_REST.with(|rest| {
            let now = small_work();
            if now != *rest {
                self.misuse.borrow_mut().push(format!(
                    "meanwhile: in user code of site {}, another transformation gave\n  {}\n  instead of\n  {}",
                    site, now, rest
                ));
            }
        });
    }
}

/// What a busy stream does when asked: transforms the templates at hand.
fn busy_work(env: &RealEnv) {
    for t in &env.pool {
        let r = t.transform(|html| {
            html.select("p", |html| html.prepend(1)).append(t).select_once(
                "b".parse::<select::Tag>(),
                |html| html.append_contents("busy"),
            )
        });
        drop(r);
    }
}

/// An iterator that watches how it is used.
pub struct UserIter {
    items: Items,
    pos: usize,
    done: bool,
    number: usize,
    env: Rc<RealEnv>,
}

impl Iterator for UserIter {
    type Item = i64;
    fn next(&mut self) -> Option<i64> {
        *self.env.seen.borrow_mut() += 1;
        self.env.iters.borrow_mut()[self.number].2 += 1;
        self.env.aside(self.items.site, self.pos);
        if self.done {
            self.env
                .misuse
                .borrow_mut()
                .push(format!("the iterator of site {} was asked again after its end", self.items.site));
        }
        match self.env.wild(3) {
            Some(0) => return None,
            Some(1) => return Some(-1),
            Some(_) => self.pos = 0,
            None => {}
        }
        let r = self.items.items.get(self.pos).copied();
        self.pos += 1;
        if r.is_none() {
            self.done = true;
        }
        r
    }
    /// True in different ways: exact, or with bounds left open.
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.env.mood.borrow().is_some() {
            return (0, None);
        }
        let left = self.items.items.len().saturating_sub(self.pos);
        match self.items.site % 5 {
            0 => (0, None),
            1 | 2 => (left, Some(left)),
            3 => (left, None),
            _ => (left / 2, Some(left + left / 3)),
        }
    }
}

fn iter(items: &Items, env: &Rc<RealEnv>) -> UserIter {
    let number = {
        let mut s = env.iters.borrow_mut();
        s.push((items.site, items.items.len(), 0));
        s.len() - 1
    };
    UserIter { items: items.clone(), pos: 0, done: false, number, env: env.clone() }
}

pub struct DynContent(pub Box<dyn Stream>);
impl IntoStream for DynContent {
    type Stream = Box<dyn Stream>;
    fn into_stream(self) -> Box<dyn Stream> {
        self.0
    }
}

pub fn fail_stream(f: &Fail) -> Box<dyn Stream> {
    // through the error type the failure comes with
    match make_err(f) {
        StreamError::Input { error } => {
            let r: Result<Template, html5_fuser::template::InputError> = Err(error);
            Box::new(r.into_stream())
        }
        StreamError::File { error } => {
            let r: Result<Template, html5_fuser::template::FileError> = Err(error);
            Box::new(r.into_stream())
        }
        StreamError::Identifier { error } => {
            let r: Result<Data, IdentifierError> = Err(error);
            Box::new(r.into_stream())
        }
        error => {
            let r: Result<&'static str, StreamError> = Err(error);
            Box::new(r.into_stream())
        }
    }
}

pub fn user_stream(
    events: Vec<Event>,
    site: usize,
    fail: Option<(usize, Fail)>,
    way: UWay,
    env: &Rc<RealEnv>,
) -> Box<dyn Stream> {
    let mut u = UserStream::new(events, site, fail, env);
    match way {
        UWay::Own => Box::new(u.into_stream()),
        UWay::Boxed => {
            let b: Box<dyn Stream> = Box::new(u);
            Box::new(b.into_stream())
        }
        UWay::BoxedTwice => {
            let b: Box<dyn Stream> = Box::new(u);
            let b: Box<dyn Stream> = Box::new(b.into_stream());
            b.into_stream()
        }
        UWay::Cell => {
            let c: Rc<RefCell<dyn Stream>> = Rc::new(RefCell::new(u));
            Box::new(c.into_stream())
        }
        UWay::Ok => {
            let r: Result<UserStream, StreamError> = Ok(u);
            Box::new(r.into_stream())
        }
        UWay::OkBoxed => {
            let r: Result<Box<dyn Stream>, IdentifierError> = Ok(Box::new(u));
            Box::new(r.into_stream())
        }
        UWay::Busy => {
            u.busy = true;
            Box::new(u.into_stream())
        }
    }
}

pub fn content(c: &Content, env: &Rc<RealEnv>, item: Option<i64>) -> DynContent {
    DynContent(match c {
        Content::Text(s, w) => text_stream(s, *w),
        Content::Num(n, i) => with_int!(*n, *i, |x| Box::new(x.into_stream())),
        Content::Tpl(i, w) => tpl_stream(&env.pool[*i], *w),
        Content::NewElem(name, None) => {
            if name.len() % 2 == 0 {
                Box::new(Template::with_element(intern(name)).into_stream())
            } else {
                Box::new(Template::with_element(name.parse::<Identifier>()).into_stream())
            }
        }
        Content::NewElem(name, Some(b)) => {
            let (b, e) = (b.clone(), env.clone());
            let r = Template::with_transformed_element(intern(name), move |html| {
                body(&b, &e, item, Cur::E(html.into_boxed_element())).stream()
            });
            Box::new(r.into_stream())
        }
        Content::Transformed(i, b) => {
            let (b, e) = (b.clone(), env.clone());
            let r = env.pool[*i]
                .transform(move |html| body(&b, &e, item, Cur::S(html.into_boxed())).stream());
            Box::new(r.into_stream())
        }
        Content::Item => Box::new(Data::from_unencoded_str(item_text(item)).into_stream()),
        Content::User { tpl, site, fail_after, way } => {
            user_stream(env.events[*tpl].clone(), *site, fail_after.clone(), *way, env)
        }
        Content::Fail(f) => fail_stream(f),
    })
}

pub fn body<'t>(b: &Body, env: &Rc<RealEnv>, item: Option<i64>, cur: Cur<'t>) -> Cur<'t> {
    let now = {
        let mut c = env.calls.borrow_mut();
        let n = c.entry(b.site).or_insert(0);
        *n += 1;
        *n - 1
    };
    let it = item.map(|i| i.to_string()).unwrap_or_default();
    env.note(b.site, format!("call {} item {}", now, it));
    env.countdown();
    env.aside(b.site, now);
    ops(&b.variants[now % b.variants.len()], env, item, cur)
}

pub fn ops<'t>(list: &[Op], env: &Rc<RealEnv>, item: Option<i64>, mut cur: Cur<'t>) -> Cur<'t> {
    for op in list {
        cur = one(op, env, item, cur);
    }
    cur
}

/// What Look sees, in a form independent of how texts are cut into pieces.
pub fn look_text(t: &Template) -> String {
    normal(&t.to_string())
}

/// Markup in its canonical spelling.
pub fn normal(s: &str) -> String {
    match crate::refparse::parse(s, None) {
        Ok(t) => render_toks(&merge_text(t)),
        Err(_) => s.to_string(),
    }
}

macro_rules! sel_call {
    ($sel:expr, $env:expr, |$s:ident| $e:expr) => {
        match $sel {
            Sel::Static(x) => { let $s = intern(x); Cur::S($e) }
            other => { let $s = dyn_sel(other, $env); Cur::S($e) }
        }
    };
}
macro_rules! esel_call {
    ($sel:expr, $env:expr, |$s:ident| $e:expr) => {
        match $sel {
            Sel::Static(x) => { let $s = intern(x); Cur::E($e) }
            other => { let $s = dyn_sel(other, $env); Cur::E($e) }
        }
    };
}

/// A builder over single elements that gives a stream back.
macro_rules! on_elem {
    ($b:expr, $env:expr, $item:expr) => {{
        let (b, e, item) = ($b.clone(), $env.clone(), $item);
        move |html| {
            let html: html5_fuser::Api<_> = html;
            body(&b, &e, item, Cur::E(html.into_boxed_element())).stream()
        }
    }};
}

pub fn one<'t>(op: &Op, env: &Rc<RealEnv>, item: Option<i64>, cur: Cur<'t>) -> Cur<'t> {
    use Op::*;
    macro_rules! c {
        ($c:expr) => {
            content($c, env, item)
        };
    }
    macro_rules! v {
        ($v:expr) => {
            dyn_value($v, item)
        };
    }
    macro_rules! attr {
        (|$h:ident| $e:expr) => {{
            let $h = cur.elem();
            Cur::E($e.into_boxed_element())
        }};
    }
    // on whichever kind of stream
    macro_rules! any {
        (|$h:ident| $e:expr) => {
            match cur {
                Cur::S($h) => Cur::S($e.into_boxed()),
                Cur::E($h) => Cur::S($e.into_boxed()),
            }
        };
    }
    // applications of bodies: element if both are
    macro_rules! app {
        ($keep:expr, |$h:ident, $wrap:ident, $out:ident| $e:expr) => {
            match cur {
                Cur::E($h) if $keep => {
                    macro_rules! $wrap { ($x:expr) => { Cur::E($x) } }
                    macro_rules! $out { ($x:expr) => { $x.elem() } }
                    Cur::E($e.into_boxed_element())
                }
                Cur::E($h) => {
                    macro_rules! $wrap { ($x:expr) => { Cur::E($x) } }
                    macro_rules! $out { ($x:expr) => { $x.stream() } }
                    Cur::S($e.into_boxed())
                }
                Cur::S($h) => {
                    macro_rules! $wrap { ($x:expr) => { Cur::S($x) } }
                    macro_rules! $out { ($x:expr) => { $x.stream() } }
                    Cur::S($e.into_boxed())
                }
            }
        };
    }
    match op {
        Select(scope, sel, b) => match cur {
            Cur::S(h) => sel_call!(sel, env, |s| match scope {
                Scope::Any => h.select(s, on_elem!(b, env, item)).into_boxed(),
                Scope::Once => h.select_once(s, on_elem!(b, env, item)).into_boxed(),
                Scope::Direct => h.select_direct(s, on_elem!(b, env, item)).into_boxed(),
                Scope::DirectOnce => h.select_direct_once(s, on_elem!(b, env, item)).into_boxed(),
            }),
            Cur::E(h) => sel_call!(sel, env, |s| match scope {
                Scope::Any => h.select(s, on_elem!(b, env, item)).into_boxed(),
                Scope::Once => h.select_once(s, on_elem!(b, env, item)).into_boxed(),
                Scope::Direct => h.select_direct(s, on_elem!(b, env, item)).into_boxed(),
                Scope::DirectOnce => h.select_direct_once(s, on_elem!(b, env, item)).into_boxed(),
            }),
        },
        Subselect(scope, sel, b) => {
            let h = cur.elem();
            esel_call!(sel, env, |s| match scope {
                Scope::Any => h.subselect(s, on_elem!(b, env, item)).into_boxed_element(),
                Scope::Once => h.subselect_once(s, on_elem!(b, env, item)).into_boxed_element(),
                Scope::Direct => h.subselect_direct(s, on_elem!(b, env, item)).into_boxed_element(),
                Scope::DirectOnce => {
                    h.subselect_direct_once(s, on_elem!(b, env, item)).into_boxed_element()
                }
            })
        }
        SubContents(b) => {
            let (b, e) = (b.clone(), env.clone());
            attr!(|h| h.subselect_contents(move |html| {
                body(&b, &e, item, Cur::S(html.into_boxed())).stream()
            }))
        }
        Remove => any!(|h| h.remove()),
        Append(x) => any!(|h| h.append(c!(x))),
        Prepend(x) => any!(|h| h.prepend(c!(x))),
        Replace(x) => any!(|h| h.replace(c!(x))),
        RemoveC => attr!(|h| h.remove_contents()),
        AppendC(x) => attr!(|h| h.append_contents(c!(x))),
        PrependC(x) => attr!(|h| h.prepend_contents(c!(x))),
        ReplaceC(x) => attr!(|h| h.replace_contents(c!(x))),
        Repeat(items, b) => {
            let (b, e) = (b.clone(), env.clone());
            match cur {
                Cur::S(h) => Cur::S(
                    h.repeat(iter(items, env), move |html, i| {
                        body(&b, &e, Some(i), Cur::S(html.into_boxed())).stream()
                    })
                    .into_boxed(),
                ),
                Cur::E(h) => Cur::S(
                    h.repeat(iter(items, env), move |html, i| {
                        body(&b, &e, Some(i), Cur::E(html.into_boxed_element())).stream()
                    })
                    .into_boxed(),
                ),
            }
        }
        RepeatElse(items, b, o) => {
            let (b, e) = (b.clone(), env.clone());
            let (o, e2) = (o.clone(), env.clone());
            match cur {
                Cur::S(h) => Cur::S(
                    h.repeat_or_else(
                        iter(items, env),
                        move |html, i| body(&b, &e, Some(i), Cur::S(html.into_boxed())).stream(),
                        move |html| body(&o, &e2, item, Cur::S(html.into_boxed())).stream(),
                    )
                    .into_boxed(),
                ),
                Cur::E(h) => Cur::S(
                    h.repeat_or_else(
                        iter(items, env),
                        move |html, i| {
                            body(&b, &e, Some(i), Cur::E(html.into_boxed_element())).stream()
                        },
                        move |html| body(&o, &e2, item, Cur::E(html.into_boxed_element())).stream(),
                    )
                    .into_boxed(),
                ),
            }
        }
        RepeatC(items, b) => {
            let (b, e) = (b.clone(), env.clone());
            attr!(|h| h.repeat_contents(iter(items, env), move |html, i| {
                body(&b, &e, Some(i), Cur::S(html.into_boxed())).stream()
            }))
        }
        RepeatCElse(items, b, o) => {
            let (b, e) = (b.clone(), env.clone());
            let (o, e2) = (o.clone(), env.clone());
            let h = cur.elem();
            Cur::S(
                h.repeat_contents_or_else(
                    iter(items, env),
                    move |html, i| body(&b, &e, Some(i), Cur::S(html.into_boxed())).stream(),
                    move |html| body(&o, &e2, item, Cur::E(html.into_boxed_element())).stream(),
                )
                .into_boxed(),
            )
        }
        AddAttr(n, x) => attr!(|h| h.add_attribute(DynName(n), x.as_ref().map(|x| v!(x)))),
        AddAttrV(n, x) => attr!(|h| h.add_attribute_with_value(DynName(n), v!(x))),
        AddEmpty(n) => attr!(|h| h.add_empty_attribute(DynName(n))),
        AddTo(n, x, s) => attr!(|h| h.add_to_attribute(DynName(n), v!(x), v!(s))),
        ReplaceIf(n, x) => attr!(|h| h.replace_attribute_value_if_exists(DynName(n), v!(x))),
        SetAttr(n, x) => attr!(|h| h.set_attribute(DynName(n), x.as_ref().map(|x| v!(x)))),
        SetAttrV(n, x) => attr!(|h| h.set_attribute_with_value(DynName(n), v!(x))),
        SetEmpty(n) => attr!(|h| h.set_empty_attribute(DynName(n))),
        RemoveAttr(n) => attr!(|h| h.remove_attribute(DynName(n))),
        AddClass(n) => attr!(|h| h.add_class(DynName(n))),
        RemoveClass(n) => attr!(|h| h.remove_class(DynName(n))),
        RemoveId => attr!(|h| h.remove_id()),
        SetId(n) => attr!(|h| h.set_id(DynName(n))),
        Apply(b) => app!(b.elem, |h, wrap, out| h.apply(|x| out!(body(b, env, item, wrap!(x))))),
        ApplyIf(p, b) => {
            app!(b.elem, |h, wrap, out| h.apply_if(*p, |x| out!(body(b, env, item, wrap!(x)))))
        }
        ApplyIfElse(p, b, o) => app!(b.elem && o.elem, |h, wrap, out| h.apply_if_else(
            *p,
            |x| out!(body(b, env, item, wrap!(x))),
            |x| out!(body(o, env, item, wrap!(x))),
        )),
        ApplyOpt(p, b, o) => app!(b.elem && o.elem, |h, wrap, out| h.apply_with_option(
            *p,
            |x, i| out!(body(b, env, Some(i), wrap!(x))),
            |x| out!(body(o, env, item, wrap!(x))),
        )),
        ApplyRes(p, b, o) => app!(b.elem && o.elem, |h, wrap, out| h.apply_with_result(
            *p,
            |x, i| out!(body(b, env, Some(i), wrap!(x))),
            |x, i| out!(body(o, env, Some(i), wrap!(x))),
        )),
        ApplyBoxed(b) => any!(|h| h.apply_as_boxed(|x| body(b, env, item, Cur::S(x)).stream())),
        ApplyBoxedElem(b) => {
            let h = cur.elem();
            if b.elem {
                Cur::E(h.apply_as_boxed_element(|x| body(b, env, item, Cur::E(x)).elem()))
            } else {
                Cur::S(h.apply_as_boxed_element(|x| body(b, env, item, Cur::E(x)).stream()))
            }
        }
        Box => Cur::S(cur.stream()),
        BoxElem => Cur::E(cur.elem().into_boxed_element()),
        AsTpl(b) => {
            let (b, e) = (b.clone(), env.clone());
            any!(|h| h.apply_as_template(move |t: Template| match e.wild(4) {
                Some(0) => Err(make_err(&Fail::User("wild".into()))),
                Some(1) => Ok(e.pool[0].clone()),
                _ => t.transform(|html| body(&b, &e, item, Cur::S(html.into_boxed())).stream()),
            }))
        }
        AsTplFail(f) => {
            let f = f.clone();
            any!(|h| h.apply_as_template(move |_: Template| Err(make_err(&f))))
        }
        Look(site) => {
            let (e, site) = (env.clone(), *site);
            any!(|h| h.apply_as_template(move |t: Template| {
                e.note(site, format!("look {}", look_text(&t)));
                Ok(t)
            }))
        }
    }
}

/// The whole program on a template.
pub fn run(t: &Template, list: &[Op], env: &Rc<RealEnv>) -> Result<Template, StreamError> {
    t.transform(|html| ops(list, env, None, Cur::S(html.into_boxed())).stream())
}

#[allow(dead_code)]
fn _assert_kinds(_: &dyn ElementStream) {}
