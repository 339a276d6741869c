//! C18: the keyword enumerations.
use crate::gen::*;
use atelier_core::action::IssueLevel;
use atelier_core::builder::id::ShapeName;
use atelier_core::builder::traits::ErrorSource;
use atelier_core::model::selector::{Comparator as C, NeighborSelector, ShapeType as T};
use atelier_core::model::shapes::Simple as S;
use atelier_core::model::{Identifier, ShapeID};
use atelier_core::Version;
use std::fmt::Display;
use std::str::FromStr;

const SIMPLE: [(S, &str); 13] = [
    (S::Blob, "blob"), (S::Boolean, "boolean"), (S::Document, "document"), (S::String, "string"),
    (S::Byte, "byte"), (S::Short, "short"), (S::Integer, "integer"), (S::Long, "long"),
    (S::Float, "float"), (S::Double, "double"), (S::BigInteger, "bigInteger"),
    (S::BigDecimal, "bigDecimal"), (S::Timestamp, "timestamp"),
];
const TYPES: [(T, &str); 26] = [
    (T::Any, "*"), (T::Number, "number"), (T::SimpleType, "simpleType"), (T::Collection, "collection"),
    (T::Blob, "blob"), (T::Boolean, "boolean"), (T::Document, "document"), (T::String, "string"),
    (T::Integer, "integer"), (T::Byte, "byte"), (T::Short, "short"), (T::Long, "long"),
    (T::Float, "float"), (T::Double, "double"), (T::BigDecimal, "bigDecimal"),
    (T::BigInteger, "bigInteger"), (T::Timestamp, "timestamp"), (T::List, "list"), (T::Set, "set"),
    (T::Map, "map"), (T::Structure, "structure"), (T::Union, "union"), (T::Service, "service"),
    (T::Operation, "operation"), (T::Resource, "resource"), (T::Member, "member"),
];
const COMPS: [(C, &str); 14] = [
    (C::StringEqual, "="), (C::StringNotEqual, "!="), (C::StringStartsWith, "^="),
    (C::StringEndsWith, "$="), (C::StringContains, "*="), (C::StringExists, "?="),
    (C::NumberGreaterThan, ">"), (C::NumberGreaterOrEqual, ">="), (C::NumberLessThan, "<"),
    (C::NumberLessOrEqual, "<="), (C::ProjectionEqual, "{=}"), (C::ProjectionNotEqual, "{!=}"),
    (C::ProjectionSubset, "{<}"), (C::ProjectionProperSubset, "{<<}"),
];
const SOURCES: [(ErrorSource, &str); 2] = [(ErrorSource::Client, "client"), (ErrorSource::Server, "server")];
const VERSIONS: [(Version, &str); 2] = [(Version::V10, "1.0"), (Version::V10, "1")];

/// Every variant: displayed text is its keyword and parses back to it and to no other.
fn inverse<X: Display + FromStr + PartialEq>(t: &[(X, &str)]) {
    for (v, k) in t {
        let s = v.to_string();
        match X::from_str(&s) {
            Ok(w) => {
                check(w == *v, "parsing the displayed text returns the value displayed");
                for (o, _) in t {
                    if *o != *v {
                        check(o.to_string() != s, "distinct values display distinctly");
                        check(*o != w, "a text denotes one value");
                    }
                }
            }
            Err(_) => check(false, "the displayed text of a value parses"),
        }
        match X::from_str(k) {
            Ok(w) => check(w == *v, "a documented keyword denotes its value"),
            Err(_) => check(false, "a documented keyword parses"),
        }
    }
    reach("inverse");
}
fn text_is<X: FromStr + PartialEq>(t: &[(X, &str)], s: &str) {
    let r = X::from_str(s);
    let mut want = None;
    for (v, k) in t {
        if s.len() == k.len() && eq_bytes(s.as_bytes(), k.as_bytes()) {
            want = Some(v);
        }
    }
    match (r, want) {
        (Ok(a), Some(b)) => {
            reach("keyword");
            check(a == *b, "a keyword denotes its value")
        }
        (Err(_), None) => reach("error"),
        (Ok(_), None) => check(false, "text that is no keyword is an error"),
        (Err(_), Some(_)) => check(false, "a keyword parses"),
    }
}
/// Texts one edit away from a keyword: a byte replaced, inserted or removed anywhere.
fn near<X: FromStr + PartialEq>(t: &[(X, &str)]) {
    let k = t[choose(t.len() as u32) as usize].1.as_bytes();
    let e = choose(3);
    let n = k.len() as u32 + (e == 1) as u32;
    let i = choose(n) as usize;
    let mut b = k.to_vec();
    if e == 2 {
        b.remove(i);
    } else {
        let mut c = [0u8; 1];
        fill(&mut c);
        assume(c[0] < 128);
        if e == 0 {
            b[i] = c[0];
        } else {
            b.insert(i, c[0]);
        }
    }
    text_is(t, &text(&b));
}
/// Every text of up to `n` bytes (any UTF-8).
fn short<X: FromStr + PartialEq>(t: &[(X, &str)], n: u32) {
    let k = choose(n + 1) as usize;
    text_is(t, &utf8(k));
}
/// Any ASCII text as long as one of the keywords.
fn long<X: FromStr + PartialEq>(t: &[(X, &str)], n: u32) {
    let k = choose(n + 1) as usize;
    text_is(t, &ascii(k));
}
entry!(h_c18_inverse, {
    match choose(5) {
        0 => inverse(&SIMPLE),
        1 => inverse(&TYPES),
        2 => inverse(&COMPS),
        3 => inverse(&SOURCES),
        _ => inverse(&VERSIONS),
    }
});
entry!(h_c18_near, {
    match choose(5) {
        0 => near(&SIMPLE),
        1 => near(&TYPES),
        2 => near(&COMPS),
        3 => near(&SOURCES),
        _ => near(&VERSIONS),
    }
});
entry!(h_c18_short, {
    match choose(5) {
        0 => short(&SIMPLE, 3),
        1 => short(&TYPES, 3),
        2 => short(&COMPS, 3),
        3 => short(&SOURCES, 3),
        _ => short(&VERSIONS, 4),
    }
});
entry!(h_c18_long, {
    match choose(5) {
        0 => long(&SIMPLE, 12),
        1 => long(&TYPES, 12),
        2 => long(&COMPS, 6),
        3 => long(&SOURCES, 8),
        _ => long(&VERSIONS, 6),
    }
});
// Shape names of the builder: an absolute shape ID or an identifier, and nothing else.
fn name_text(s: &str) {
    let abs = ShapeID::from_str(s);
    match ShapeName::from_str(s) {
        Ok(n) => {
            check(eq_bytes(n.to_string().as_bytes(), s.as_bytes()), "a shape name displays the text it was parsed from");
            match abs {
                Ok(id) => {
                    reach("absolute");
                    check(n == ShapeName::Qualified(id), "the text of a shape ID denotes it");
                    check(n.is_qualified() & !n.is_local(), "is_qualified and is_local agree with the text");
                }
                Err(_) => {
                    reach("local");
                    check(ident_ok(s.as_bytes()), "a name that is not absolute is an identifier");
                    check(n.is_local() & !n.is_qualified(), "is_qualified and is_local agree with the text");
                    check(n.namespace().is_none() && n.member_name().is_none(), "a local name has only a shape name");
                    check(eq_bytes(n.shape_name().to_string().as_bytes(), s.as_bytes()), "a local name is its identifier");
                }
            }
        }
        Err(_) => {
            reach("neither");
            check(abs.is_err() & !ident_ok(s.as_bytes()), "the text of a shape ID or identifier is a shape name");
        }
    }
}
entry!(h_c18_name, {
    let k = choose(4) as usize;
    name_text(&ascii(k));
});
entry!(h_c18_name_t, {
    let mut b = *b"ab#cd$ef";
    let i = choose(8) as usize;
    let mut c = [0u8; 2];
    fill(&mut c);
    assume((c[0] < 128) & (c[1] < 128));
    b[i] = c[0];
    b[(i + 1 + choose(2) as usize) % 8] = c[1];
    name_text(&text(&b));
});
entry!(h_c18_distinct, {
    let l = [IssueLevel::Info, IssueLevel::Warning, IssueLevel::Error];
    let x = Identifier::new_unchecked(&ident(1));
    let n = [
        NeighborSelector::ForwardUndirected,
        NeighborSelector::ReverseUndirected,
        NeighborSelector::ForwardRecursiveDirected,
        NeighborSelector::ForwardDirected(vec![x.clone()]),
        NeighborSelector::ReverseDirected(vec![x]),
    ];
    for (l, t) in l.iter().zip(["info", "warning", "error"]) {
        check(l.to_string() == t, "an issue level displays as its name");
    }
    for i in 0..n.len() {
        for j in 0..i {
            check(n[i].to_string() != n[j].to_string(), "neighbor selectors display distinctly");
        }
    }
    reach("distinct");
});
