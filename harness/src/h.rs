//! Helpers shared by the properties.

use crate::refparse::{line_col, NameErr, RErr};
use crate::tree::*;
use html5_fuser::location::Location;
use html5_fuser::parse::Error as PErr;
use html5_fuser::template::InputError;
use html5_fuser::text::IdentifierError;
use html5_fuser::{ParseOptions, Template};

pub fn load(s: &str) -> Result<Template, String> {
    Template::from_str(s, ParseOptions::default())
        .map_err(|e| format!("not accepted: {:?}\n  input: {:?}", e, s))
}

pub fn show(s: &str) -> String {
    if s.chars().count() > 700 {
        let a: String = s.chars().take(300).collect();
        let n = s.chars().count();
        let b: String = s.chars().skip(n - 300).collect();
        format!("{:?} ... {:?} ({} bytes)", a, b, s.len())
    } else {
        format!("{:?}", s)
    }
}

/// Tokens of canonical markup, for comparison: without empty raw texts.
pub fn read(s: &str) -> Result<Vec<Tok>, String> {
    crate::refparse::parse(s, None)
        .map(drop_empty)
        .map_err(|e| format!("output is not well-formed: {:?}\n  output: {}", e, show(s)))
}

pub fn drop_empty(t: Vec<Tok>) -> Vec<Tok> {
    t.into_iter().filter(|t| !matches!(t, Tok::Raw(ref s) | Tok::Text(ref s) if s.is_empty())).collect()
}

pub fn first_diff(a: &[Tok], b: &[Tok]) -> String {
    for i in 0..a.len().max(b.len()) {
        if a.get(i) != b.get(i) {
            return format!("item {}: expected {:?}, got {:?}", i, a.get(i), b.get(i));
        }
    }
    "no difference".into()
}

/// Are two outputs the same document?
pub fn same_output(expected: &str, got: &str) -> Result<(), String> {
    if expected == got {
        return Ok(());
    }
    if let (Ok(a), Ok(b)) = (crate::refparse::parse(expected, None), crate::refparse::parse(got, None)) {
        let (a, b) = (merge_text(a), merge_text(b));
        if a == b {
            return Ok(());
        }
        return Err(format!(
            "{}\n  expected output: {}\n  actual output:   {}",
            first_diff(&a, &b),
            show(expected),
            show(got)
        ));
    }
    Err(format!("expected output: {}\n  actual output:   {}", show(expected), show(got)))
}

pub fn why(e: &IdentifierError) -> NameErr {
    match *e {
        IdentifierError::Empty => NameErr::Empty,
        IdentifierError::NotAscii => NameErr::NotAscii,
        IdentifierError::Whitespace { whitespace } => NameErr::Space(whitespace),
        IdentifierError::Forbidden { forbidden } => NameErr::Forbidden(forbidden),
    }
}

/// The library's error in the terms of the reference parser.
pub fn view(e: &PErr) -> Option<RErr> {
    let at = |l: &Location| l.offset();
    Some(match e {
        PErr::UnsupportedDoctype { location, doctype } => {
            RErr::UnsupportedDoctype { at: at(location), doctype: doctype.clone() }
        }
        PErr::UnclosedDoctype { location } => RErr::UnclosedDoctype { at: at(location) },
        PErr::UnclosedComment { location } => RErr::UnclosedComment { at: at(location) },
        PErr::ExpectedOpeningTagClose { tag, location } => {
            RErr::UnfinishedOpen { tag: tag.clone(), at: at(location) }
        }
        PErr::ExpectedClosingTagClose { tag, location } => {
            RErr::UnfinishedClose { tag: tag.clone(), at: at(location) }
        }
        PErr::ExpectedOpeningTagIdentifier { location } => {
            RErr::OpenNameMissing { at: at(location) }
        }
        PErr::InvalidOpeningTagIdentifier { location, identifier_error } => {
            RErr::OpenNameBad { at: at(location), why: why(identifier_error) }
        }
        PErr::ExpectedClosingTagIdentifier { location } => {
            RErr::CloseNameMissing { at: at(location) }
        }
        PErr::InvalidClosingTagIdentifier { location, identifier_error } => {
            RErr::CloseNameBad { at: at(location), why: why(identifier_error) }
        }
        PErr::InvalidAttributeIdentifier { location, identifier_error } => {
            RErr::AttrNameBad { at: at(location), why: why(identifier_error) }
        }
        PErr::InvalidAttributeValue { location, tag, attribute_name } => RErr::ValueUnquoted {
            at: at(location),
            tag: tag.clone(),
            attr: attribute_name.clone(),
        },
        PErr::UnclosedAttributeValue { location, tag, attribute_name } => RErr::ValueUnclosed {
            at: at(location),
            tag: tag.clone(),
            attr: attribute_name.clone(),
        },
        PErr::UnexpectedInput { .. } => return None,
        PErr::MissingClosingTags { inner, others } => {
            let mut v = vec![(inner.0.clone(), at(&inner.1))];
            v.extend(others.iter().map(|(t, l)| (t.clone(), at(l))));
            // the order of the others is not promised
            v[1..].sort_by(|a, b| b.1.cmp(&a.1));
            RErr::Missing(v)
        }
        PErr::StackLimitExceeded { tag, location, limit } => {
            RErr::Limit { tag: tag.clone(), at: at(location), limit: *limit }
        }
        PErr::UnexpectedClosingTag { tag, location } => {
            RErr::Unexpected { tag: tag.clone(), at: at(location) }
        }
        PErr::MismatchedClosingTag {
            opening_tag,
            opening_location,
            closing_tag,
            closing_location,
        } => RErr::Mismatch {
            open: (opening_tag.clone(), at(opening_location)),
            close: (closing_tag.clone(), at(closing_location)),
        },
    })
}

/// The same error without places.
pub fn placeless(e: &RErr) -> RErr {
    use RErr::*;
    let mut e = e.clone();
    match e {
        UnsupportedDoctype { ref mut at, .. }
        | UnclosedDoctype { ref mut at }
        | UnclosedComment { ref mut at }
        | UnfinishedOpen { ref mut at, .. }
        | UnfinishedClose { ref mut at, .. }
        | OpenNameMissing { ref mut at }
        | OpenNameBad { ref mut at, .. }
        | CloseNameMissing { ref mut at }
        | CloseNameBad { ref mut at, .. }
        | AttrNameBad { ref mut at, .. }
        | ValueUnquoted { ref mut at, .. }
        | ValueUnclosed { ref mut at, .. }
        | Limit { ref mut at, .. }
        | Unexpected { ref mut at, .. } => *at = 0,
        Missing(ref mut v) => {
            for x in v.iter_mut() {
                x.1 = 0;
            }
            v[1..].sort();
        }
        Mismatch { ref mut open, ref mut close } => {
            open.1 = 0;
            close.1 = 0;
        }
    }
    e
}

pub fn parse_err(e: &InputError) -> Option<&PErr> {
    match e {
        InputError::Parse { error } => Some(error),
        InputError::LengthLimitExceeded { .. } => None,
    }
}

/// Every location in an error with the name that goes with it.
pub fn places(e: &PErr) -> Vec<(Option<String>, Location)> {
    match e {
        PErr::UnsupportedDoctype { location, doctype } => vec![(Some(doctype.clone()), *location)],
        PErr::UnclosedDoctype { location }
        | PErr::UnclosedComment { location }
        | PErr::ExpectedOpeningTagIdentifier { location }
        | PErr::InvalidOpeningTagIdentifier { location, .. }
        | PErr::ExpectedClosingTagIdentifier { location }
        | PErr::InvalidClosingTagIdentifier { location, .. }
        | PErr::InvalidAttributeIdentifier { location, .. }
        | PErr::UnexpectedInput { location } => vec![(None, *location)],
        PErr::ExpectedOpeningTagClose { tag, location }
        | PErr::ExpectedClosingTagClose { tag, location }
        | PErr::StackLimitExceeded { tag, location, .. }
        | PErr::UnexpectedClosingTag { tag, location }
        | PErr::InvalidAttributeValue { tag, location, .. }
        | PErr::UnclosedAttributeValue { tag, location, .. } => {
            vec![(Some(tag.clone()), *location)]
        }
        PErr::MissingClosingTags { inner, others } => {
            let mut v = vec![(Some(inner.0.clone()), inner.1)];
            v.extend(others.iter().map(|(t, l)| (Some(t.clone()), *l)));
            v
        }
        PErr::MismatchedClosingTag {
            opening_tag,
            opening_location,
            closing_tag,
            closing_location,
        } => vec![
            (Some(opening_tag.clone()), *opening_location),
            (Some(closing_tag.clone()), *closing_location),
        ],
    }
}

/// Is the location consistent with the input?
pub fn check_place(s: &str, l: &Location) -> Result<(), String> {
    if l.offset() > s.len() || !s.is_char_boundary(l.offset()) {
        return Err(format!("offset {} is no place in the input ({} bytes)", l.offset(), s.len()));
    }
    let (line, col) = line_col(s, l.offset());
    if (l.line(), l.column()) != (line, col) {
        return Err(format!(
            "offset {} is line {} column {}, but the location says line {} column {}",
            l.offset(),
            line,
            col,
            l.line(),
            l.column()
        ));
    }
    Ok(())
}
