//! S04, S05: the selector parser.
use crate::desc::*;
use crate::gen::*;
use atelier_core::model::selector as sel;
use atelier_core::model::selector::{Comparator, KeyPathSegment, NeighborSelector, ScopedValue, Selector, SelectorExpression, ShapeType};
use atelier_core::model::values::Number;
use atelier_smithy::parse_selector;

// ------------------------------------------------------------------------------------ descriptions

#[derive(Clone)]
enum Val {
    Text(String, bool), // in single quotes
    Int(String, i64),
    Float(String, f64),
    Name(String),
    Abs(Id),
}
#[derive(Clone)]
enum Seg {
    Val(Val),
    Fun(String),
}
type Key = (String, Vec<Seg>);
#[derive(Clone)]
enum Sv {
    Val(Val),
    Ctx(Vec<Seg>),
}
#[derive(Clone)]
enum Ex {
    Type(usize),
    Attr(Key, Option<(usize, Vec<Val>, bool)>),
    Scoped(Option<Key>, Vec<(Sv, usize, Vec<Sv>, bool)>),
    Fwd(Vec<String>),
    Rev(Vec<String>),
    Rec,
    Fun(String, Vec<Vec<Ex>>),
    Set(String, Vec<Ex>),
    Get(String),
}
const TYPES: [(&str, ShapeType); 26] = [
    ("*", ShapeType::Any), ("number", ShapeType::Number), ("simpleType", ShapeType::SimpleType), ("collection", ShapeType::Collection),
    ("blob", ShapeType::Blob), ("boolean", ShapeType::Boolean), ("document", ShapeType::Document), ("string", ShapeType::String),
    ("integer", ShapeType::Integer), ("byte", ShapeType::Byte), ("short", ShapeType::Short), ("long", ShapeType::Long),
    ("float", ShapeType::Float), ("double", ShapeType::Double), ("bigDecimal", ShapeType::BigDecimal), ("bigInteger", ShapeType::BigInteger),
    ("timestamp", ShapeType::Timestamp), ("list", ShapeType::List), ("set", ShapeType::Set), ("map", ShapeType::Map),
    ("structure", ShapeType::Structure), ("union", ShapeType::Union), ("service", ShapeType::Service), ("operation", ShapeType::Operation),
    ("resource", ShapeType::Resource), ("member", ShapeType::Member),
];
const CMPS: [(&str, Comparator); 14] = [
    ("=", Comparator::StringEqual), ("!=", Comparator::StringNotEqual), ("^=", Comparator::StringStartsWith), ("$=", Comparator::StringEndsWith),
    ("*=", Comparator::StringContains), ("?=", Comparator::StringExists), (">", Comparator::NumberGreaterThan), (">=", Comparator::NumberGreaterOrEqual),
    ("<", Comparator::NumberLessThan), ("<=", Comparator::NumberLessOrEqual), ("{=}", Comparator::ProjectionEqual), ("{!=}", Comparator::ProjectionNotEqual),
    ("{<}", Comparator::ProjectionSubset), ("{<<}", Comparator::ProjectionProperSubset),
];
const GAPS: [&str; 5] = ["", " ", "\n", "\t ", "\r\n"];

// ----------------------------------------------------------------------------------------- printer

fn join(v: Vec<String>, by: &str) -> String {
    v.join(by)
}
fn p_val(v: &Val) -> String {
    match v {
        Val::Text(s, single) => {
            let q = if *single { "'" } else { "\"" };
            format!("{}{}{}", q, s, q)
        }
        Val::Int(s, _) | Val::Float(s, _) => s.clone(),
        Val::Name(n) => n.clone(),
        Val::Abs(i) => i.text(),
    }
}
fn p_path(p: &[Seg], w: &str) -> String {
    join(p.iter().map(|s| match s {
        Seg::Val(v) => p_val(v),
        Seg::Fun(n) => format!("({}{}{})", w, n, w),
    }).collect(), &format!("{}|{}", w, w))
}
fn p_key(k: &Key, w: &str) -> String {
    if k.1.is_empty() {
        k.0.clone()
    } else {
        format!("{}{}|{}{}", k.0, w, w, p_path(&k.1, w))
    }
}
fn p_sv(s: &Sv, w: &str) -> String {
    match s {
        Sv::Val(v) => p_val(v),
        Sv::Ctx(p) => format!("@{{{}{}{}}}", w, p_path(p, w), w),
    }
}
fn p_ex(e: &Ex, w: &str) -> String {
    let comma = format!("{},{}", w, w);
    match e {
        Ex::Type(i) => TYPES[*i].0.to_string(),
        Ex::Attr(k, None) => format!("[{}{}{}]", w, p_key(k, w), w),
        Ex::Attr(k, Some((c, v, i))) => format!("[{}{}{}{}{}{}{}{}]", w, p_key(k, w), w, CMPS[*c].0, w, join(v.iter().map(p_val).collect(), &comma), if *i { " i" } else { "" }, w),
        Ex::Scoped(k, a) => {
            let a = a.iter().map(|(l, c, r, i)| format!("{}{}{}{}{}{}", p_sv(l, w), w, CMPS[*c].0, w, join(r.iter().map(|s| p_sv(s, w)).collect(), &comma), if *i { " i" } else { "" })).collect();
            format!("[@{}{}:{}{}{}]", k.as_ref().map(|k| p_key(k, w)).unwrap_or_default(), w, w, join(a, &format!("{}&&{}", w, w)), w)
        }
        Ex::Fwd(v) if v.is_empty() => ">".to_string(),
        Ex::Rev(v) if v.is_empty() => "<".to_string(),
        Ex::Fwd(v) => format!("-[{}{}{}]->", w, v.join(&comma), w),
        Ex::Rev(v) => format!("<-[{}{}{}]-", w, v.join(&comma), w),
        Ex::Rec => "~>".to_string(),
        Ex::Fun(n, a) => format!(":{}{}{}({}{}{})", w, n, w, w, join(a.iter().map(|a| p_all(a, w)).collect(), &comma), w),
        Ex::Set(n, s) => format!("${}{}{}({}{}{})", w, n, w, w, p_all(s, w), w),
        Ex::Get(n) => format!("${{{}{}{}}}", w, n, w),
    }
}
fn p_all(v: &[Ex], w: &str) -> String {
    let mut t = String::new();
    for (i, e) in v.iter().enumerate() {
        if i > 0 {
            // two names, or `<` and `-[`, need something between them
            let names = match (&v[i - 1], e) {
                (Ex::Type(_), Ex::Type(_)) => true,
                (Ex::Rev(a), Ex::Fwd(b)) => a.is_empty() && !b.is_empty(),
                _ => false,
            };
            t.push_str(if names && w.is_empty() { " " } else { w });
        }
        t.push_str(&p_ex(e, w));
    }
    t
}

// ---------------------------------------------------------------------------------------- comparer

fn is_val(v: &sel::Value, d: &Val) -> bool {
    match (v, d) {
        (sel::Value::Text(a), Val::Text(b, _)) => eq_bytes(a.as_bytes(), b.as_bytes()),
        (sel::Value::Number(Number::Integer(a)), Val::Int(_, b)) => *a == *b,
        // a float that is whole may be written as an integer
        (sel::Value::Number(Number::Integer(a)), Val::Float(_, b)) => *a as f64 == *b,
        (sel::Value::Number(Number::Float(a)), Val::Float(_, b)) => *a == *b,
        (sel::Value::RootShapeIdentifier(a), Val::Name(b)) => is_ident(a, b),
        (sel::Value::AbsoluteRootShapeIdentifier(a), Val::Abs(b)) => is_id(a, b),
        _ => false,
    }
}
fn is_seg(s: &KeyPathSegment, d: &Seg) -> bool {
    match (s, d) {
        (KeyPathSegment::Value(a), Seg::Val(b)) => is_val(a, b),
        (KeyPathSegment::FunctionProperty(a), Seg::Fun(b)) => is_ident(a, b),
        _ => false,
    }
}
fn all<A, B>(a: &[&A], b: &[B], f: impl Fn(&A, &B) -> bool) -> bool {
    a.len() == b.len() && {
        let mut r = true;
        for (x, y) in a.iter().zip(b) {
            r = r & f(x, y);
        }
        r
    }
}
fn is_key(k: &sel::Key, d: &Key) -> bool {
    is_ident(k.identifier(), &d.0) & all(&k.path().collect::<Vec<_>>(), &d.1, is_seg)
}
fn is_sv(s: &ScopedValue, d: &Sv) -> bool {
    match (s, d) {
        (ScopedValue::Value(a), Sv::Val(b)) => is_val(a, b),
        (ScopedValue::ContextValue(a), Sv::Ctx(b)) => all(&a.iter().collect::<Vec<_>>(), b, is_seg),
        _ => false,
    }
}
fn is_ex(e: &SelectorExpression, d: &Ex) -> bool {
    use SelectorExpression as S;
    match (e, d) {
        (S::ShapeType(a), Ex::Type(b)) => *a == TYPES[*b].1,
        (S::AttributeSelector(a), Ex::Attr(k, c)) => {
            is_key(a.key(), k)
                & match (a.comparison(), c) {
                    (None, None) => true,
                    (Some(a), Some((c, v, i))) => *a.comparator() == CMPS[*c].1 && a.is_case_insensitive() == *i && all(&a.rhs_values().collect::<Vec<_>>(), v, is_val),
                    _ => false,
                }
        }
        (S::ScopedAttributeSelector(a), Ex::Scoped(k, b)) => {
            (match (a.key(), k) {
                (None, None) => true,
                (Some(a), Some(b)) => is_key(a, b),
                _ => false,
            }) & all(&a.assertions().collect::<Vec<_>>(), b, |a, (l, c, r, i)| {
                *a.comparator() == CMPS[*c].1 && a.is_case_insensitive() == *i && is_sv(a.lhs_value(), l) & all(&a.rhs_values().collect::<Vec<_>>(), r, is_sv)
            })
        }
        (S::NeighborSelector(n), d) => match (n, d) {
            (NeighborSelector::ForwardUndirected, Ex::Fwd(v)) => v.is_empty(),
            (NeighborSelector::ReverseUndirected, Ex::Rev(v)) => v.is_empty(),
            (NeighborSelector::ForwardDirected(a), Ex::Fwd(b)) | (NeighborSelector::ReverseDirected(a), Ex::Rev(b)) => all(&a.iter().collect::<Vec<_>>(), b, |a, b| is_ident(a, b)),
            (NeighborSelector::ForwardRecursiveDirected, Ex::Rec) => true,
            _ => false,
        },
        (S::Function(a), Ex::Fun(n, b)) => is_ident(a.name(), n) & all(&a.arguments().collect::<Vec<_>>(), b, |a, b| is_all(a, b)),
        (S::VariableDefinition(a), Ex::Set(n, b)) => is_ident(a.name(), n) & is_all(a.selector(), b),
        (S::VariableReference(a), Ex::Get(n)) => is_ident(a.name(), n),
        _ => false,
    }
}
fn is_all(s: &Selector, d: &[Ex]) -> bool {
    all(&s.expressions().collect::<Vec<_>>(), d, is_ex)
}
/// The text parses to the description, and what it parses to prints as text that does as well.
fn means(text: &str, d: &[Ex]) {
    match parse_selector(text) {
        Ok(s) => {
            check(is_all(&s, d), "the selector is the one the text denotes");
            reach("parsed");
            match parse_selector(&s.to_string()) {
                Ok(s) => check(is_all(&s, d), "a printed selector parses to itself"),
                Err(_) => check(false, "a printed selector parses"),
            }
        }
        Err(_) => check(false, "a valid selector parses"),
    }
}
fn gap() -> &'static str {
    GAPS[pick(GAPS.len() as u32) as usize]
}
fn s(t: &str) -> String {
    t.to_string()
}
fn val(i: u32) -> Val {
    match i {
        0 => Val::Text(s("a b]"), true),
        1 => Val::Text(s("it's"), false),
        2 => Val::Int(s("-12"), -12),
        3 => Val::Float(s("1.5"), 1.5),
        4 => Val::Name(named('q')),
        5 => Val::Abs(Id::new("a.b", &named('Q'))),
        _ => Val::Int(s("0"), 0),
    }
}
fn seg(i: u32) -> Seg {
    match i {
        0 => Seg::Fun(named('f')),
        i => Seg::Val(val(i - 1)),
    }
}

// --------------------------------------------------------------------------------------------- S04

entry!(h_s04_types, {
    // every type, and every name that differs in a letter
    let i = pick(25) as usize + 1;
    let name = TYPES[i].0;
    let mut b = name.as_bytes().to_vec();
    let k = pick(b.len() as u32) as usize;
    fill(&mut b[k..k + 1]);
    assume(if k == 0 { is_alpha(b[0]) } else { is_word(b[k]) });
    let t = text(&b);
    match parse_selector(&t) {
        Ok(x) => {
            reach("a type");
            let n = TYPES.iter().position(|t| eq_bytes(t.0.as_bytes(), &b));
            check(n.is_some(), "only the types are types");
            check(is_all(&x, &[Ex::Type(n.unwrap())]), "the name of a type denotes it");
        }
        Err(_) => {
            reach("no type");
            check(TYPES.iter().all(|t| !eq_bytes(t.0.as_bytes(), &b)), "every type has its name");
        }
    }
});
entry!(h_s04_seq, {
    // sequences of expressions of all forms
    let w = GAPS[pick(2) as usize];
    let n = |c| named(c);
    let one = |i: u32| match i {
        0 => Ex::Type(0),
        1 => Ex::Type(7),
        2 => Ex::Attr((s("id"), vec![]), None),
        3 => Ex::Scoped(None, vec![(Sv::Val(Val::Name(s("x"))), 0, vec![Sv::Ctx(vec![Seg::Val(Val::Name(s("id")))])], false)]),
        4 => Ex::Fwd(vec![]),
        5 => Ex::Rev(vec![]),
        6 => Ex::Fwd(vec![n('i'), s("out")]),
        7 => Ex::Rev(vec![n('i')]),
        8 => Ex::Rec,
        9 => Ex::Fun(n('n'), vec![vec![Ex::Type(25), Ex::Rev(vec![]), Ex::Type(20)], vec![Ex::Get(s("v"))]]),
        10 => Ex::Set(n('v'), vec![Ex::Type(0)]),
        _ => Ex::Get(n('v')),
    };
    let d = vec![one(pick(12)), one(pick(12))];
    means(&format!("{}{}{}", w, p_all(&d, w), w), &d);
});
entry!(h_s04_attr, {
    // every comparator, every form of key, one or two values, with and without case
    let w = GAPS[pick(2) as usize];
    let key = (named('k'), match pick(3) {
        0 => vec![],
        1 => vec![Seg::Fun(s("f"))],
        _ => vec![Seg::Val(Val::Name(s("x"))), Seg::Fun(s("f"))],
    });
    let c = pick(14) as usize;
    let v = if any_bool() { vec![val(0), val(6)] } else { vec![Val::Name(s("v"))] };
    let d = vec![Ex::Attr(key, Some((c, v, any_bool())))];
    means(&p_all(&d, w), &d);
});
entry!(h_s04_three, {
    // three expressions, and selectors in selectors
    let v = named('v');
    let x = |i: u32| match i {
        0 => Ex::Type(20),
        1 => Ex::Fwd(vec![]),
        2 => Ex::Rev(vec![s("r")]),
        3 => Ex::Attr((s("k"), vec![]), None),
        _ => Ex::Get(v.clone()),
    };
    let d = vec![x(pick(5)), x(pick(5)), x(pick(5))];
    let d = match pick(4) {
        0 => d,
        1 => vec![Ex::Fun(s("f"), vec![d.clone(), d])],
        2 => vec![Ex::Set(s("v"), vec![Ex::Fun(s("f"), vec![d])]), Ex::Type(0)],
        _ => vec![Ex::Type(0), Ex::Fun(s("f"), vec![vec![Ex::Set(s("v"), d)], vec![Ex::Type(1)]])],
    };
    means(&p_all(&d, GAPS[pick(2) as usize]), &d);
});
entry!(h_s04_values, {
    // every form of value in every place
    let w = gap();
    let v = val(pick(7));
    let d = vec![match pick(4) {
        0 => Ex::Attr((s("k"), vec![Seg::Val(v)]), None),
        1 => Ex::Attr((s("k"), vec![]), Some((0, vec![v.clone(), v], false))),
        2 => Ex::Scoped(None, vec![(Sv::Val(v.clone()), 1, vec![Sv::Val(v)], false)]),
        _ => Ex::Scoped(Some((s("k"), vec![])), vec![(Sv::Ctx(vec![Seg::Val(v.clone()), Seg::Fun(s("keys"))]), 1, vec![Sv::Ctx(vec![Seg::Val(v)])], true)]),
    }];
    means(&p_all(&d, w), &d);
});
entry!(h_s04_scoped, {
    let w = GAPS[pick(2) as usize];
    let key = match pick(3) {
        0 => None,
        1 => Some((s("k1"), vec![])),
        _ => Some((s("trait"), vec![Seg::Val(Val::Name(s("e"))), Seg::Fun(s("values"))])),
    };
    let ctx = |c: &str| Sv::Ctx(vec![Seg::Val(Val::Name(c.to_string()))]);
    let a = (Sv::Ctx(vec![Seg::Val(Val::Name(named('a')))]), pick(14) as usize, vec![ctx("b"), Sv::Val(val(2))], any_bool());
    let b = (Sv::Val(val(1)), 3, vec![Sv::Val(val(0))], false);
    let d = vec![Ex::Scoped(key, if any_bool() { vec![a] } else { vec![a, b] })];
    means(&p_all(&d, w), &d);
});
entry!(h_s04_text, {
    // text of any two characters
    let n = pick(2) as usize + 1;
    let t = ascii(n);
    let single = any_bool();
    let mut ok = true;
    for c in t.bytes() {
        ok = ok & (c >= 0x20) & (c != b'\\') & (c != if single { b'\'' } else { b'"' });
    }
    assume(ok);
    let d = vec![Ex::Attr((s("k"), vec![]), Some((0, vec![Val::Text(t, single)], any_bool())))];
    means(&p_all(&d, ""), &d);
});
entry!(h_s04_utf8, {
    let t = ["é", "漢", "\u{10ffff}", "😀"][pick(4) as usize].to_string();
    let d = vec![Ex::Attr((s("k"), vec![]), Some((0, vec![Val::Text(t, any_bool())], false)))];
    means(&p_all(&d, " "), &d);
});
entry!(h_s04_number, {
    // every integer of two digits, and the floats of one
    let mut b = [0u8; 2];
    fill(&mut b);
    assume(is_digit(b[0]) & is_digit(b[1]) & (b[0] != b'0'));
    let n = (b[0] - b'0') as i64 * 10 + (b[1] - b'0') as i64;
    let t = text(&b);
    let c = conc(n as u64) as i64;
    let v = match pick(7) {
        0 => Val::Int(t, n),
        1 => Val::Int(format!("-{}", t), -n),
        2 => Val::Float(format!("{}.5", c), c as f64 + 0.5),
        3 => Val::Float(format!("{}e2", c), c as f64 * 100.0),
        4 => Val::Float(format!("-{}.25E+1", c), (c as f64 + 0.25) * -10.0),
        5 => Val::Int("9223372036854775807".to_string(), i64::MAX),
        _ => Val::Float(format!("{}.0e-1", c), format!("{}.0e-1", c).parse().unwrap()),
    };
    let d = vec![Ex::Attr((s("k"), vec![]), Some((0, vec![v], false)))];
    means(&p_all(&d, " "), &d);
});
entry!(h_s04_names, {
    // every identifier of up to three characters is a key, a variable, a function and a value
    let k = pick(3) as usize + 1;
    let n = ident(k);
    let d = vec![match pick(5) {
        0 => Ex::Attr((n, vec![]), None),
        1 => Ex::Get(n),
        2 => Ex::Fun(n, vec![vec![Ex::Type(0)]]),
        3 => Ex::Fwd(vec![n]),
        _ => Ex::Attr((s("k"), vec![]), Some((0, vec![Val::Name(n)], true))),
    }];
    means(&p_all(&d, " "), &d);
});

entry!(h_s04_many, {
    // long sequences, argument and value lists, paths, assertions and neighbors
    let n = named('n');
    let name = |i: usize| if i == 3 { n.clone() } else { format!("n{}", i) };
    let vals = |k: usize| (0..k).map(|i| if i == 3 { Val::Name(n.clone()) } else { val([0, 1, 2, 3, 6][i % 5]) }).collect::<Vec<Val>>();
    let segs = |k: usize| (0..k).map(|i| if i % 3 == 2 { Seg::Fun(name(i)) } else { Seg::Val(Val::Name(name(i))) }).collect::<Vec<Seg>>();
    let e = |i: usize| match i {
        0 => Ex::Type(20),
        1 => Ex::Attr((s("k"), segs(6)), Some((4, vals(7), true))),
        2 => Ex::Scoped(
            Some((s("k"), segs(4))),
            (0..5).map(|i| (Sv::Ctx(segs(i + 1)), i, vals(i + 1).into_iter().map(Sv::Val).chain([Sv::Ctx(segs(2))]).collect(), i % 2 == 0)).collect(),
        ),
        3 => Ex::Fwd((0..6).map(name).collect()),
        4 => Ex::Rev((0..6).map(name).collect()),
        5 => Ex::Fun(s("f"), (0..5).map(|i| vec![Ex::Type(i + 1), Ex::Fwd(vec![]), Ex::Type(0)]).collect()),
        6 => Ex::Set(s("v"), vec![Ex::Fun(s("f"), vec![vec![Ex::Fun(s("g"), vec![vec![Ex::Set(s("w"), vec![Ex::Fun(s("h"), vec![vec![Ex::Rec, Ex::Get(s("u"))]])])]])]])]),
        _ => Ex::Get(s("v")),
    };
    let r = pick(8) as usize;
    let d: Vec<Ex> = (0..8).map(|i| e((i + r) % 8)).collect();
    means(&p_all(&d, GAPS[pick(2) as usize]), &d);
});

// --------------------------------------------------------------------------------------------- S05

fn ask(b: &[u8]) {
    if let Ok(t) = std::str::from_utf8(b) {
        match parse_selector(t) {
            Ok(_) => reach("accepted"),
            Err(_) => reach("rejected"),
        }
    }
}
entry!(h_s05_bytes, {
    let mut b = vec![0u8; pick(4) as usize];
    fill(&mut b);
    ask(&b);
});
entry!(h_s05_bytes4, {
    let mut b = [0u8; 4];
    fill(&mut b);
    ask(&b);
});
const HOLES: [&str; 34] = [
    "~", "a ~", "[~]", "[a~]", "[a|~]", "[a = ~]", "[a = '~']", "[@~: a = b]", "[@: @{~} = b]", "[@: a = b ~]", ":~(*)", ":not(~)", "${~}", "-[~]->",
    // further inside, and next to shape IDs as values
    "[a = ~#b]", "[a = b#~]", "[a = b.~#c]", "[a = b#c$~]", "[a = b#c, ~]", "[a = \"~\"]", "[a = b, ~ i]", "[a = 'b' ~]", "[a|(~)]", "[a|b|~ = c]",
    "[@a|b: @{c} = d, ~]", "[@a|~: @{c} = d]", ":f(*, ~)", ":f(:~(*))", "$v(~)", "a $~(*)", "<-[~]-", "-[a, ~]->", "a#~", "~#a",
];
fn holes(n: usize) {
    let d = HOLES[pick(HOLES.len() as u32) as usize];
    let mut h = vec![0u8; n];
    fill(&mut h);
    let mut out = vec![];
    for b in d.bytes() {
        if b == b'~' {
            out.extend_from_slice(&h);
        } else {
            out.push(b);
        }
    }
    ask(&out);
}
entry!(h_s05_holes, {
    holes(pick(3) as usize);
});
entry!(h_s05_holes3, {
    holes(3);
});
const NUMBERS: [&str; 8] = ["9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "1e5", "1E-5", "1.0e400", "99999999999999999999.5"];
entry!(h_s05_numbers, {
    // numbers beyond the range, one digit of them any
    let mut b = NUMBERS[pick(8) as usize].as_bytes().to_vec();
    let k = b.len() - 1;
    fill(&mut b[k..]);
    assume(is_digit(b[k]));
    let mut t = b"[a = ".to_vec();
    t.extend_from_slice(&b);
    t.push(b']');
    ask(&t);
});

// --------------------------------------------------------------------------------------------- S06

use atelier_core::builder::selector::{AttributeBuilder, ScopedAttributeBuilder, SelectorBuilder};
use atelier_core::model::selector::{AttributeComparison, AttributeSelector, Function, ScopedAttributeAssertion, ScopedAttributeSelector, VariableDefinition, VariableReference};
use atelier_core::model::Identifier;

fn idf(t: &str) -> Identifier {
    Identifier::new_unchecked(t)
}
fn to_val(v: &Val) -> sel::Value {
    match v {
        Val::Text(t, _) => t.as_str().into(),
        Val::Int(_, i) => (*i).into(),
        Val::Float(_, f) => (*f).into(),
        Val::Name(n) => idf(n).into(),
        Val::Abs(i) => i.id().into(),
    }
}
fn to_seg(x: &Seg) -> KeyPathSegment {
    match x {
        Seg::Val(v) => to_val(v).into(),
        Seg::Fun(n) => idf(n).into(),
    }
}
fn to_sv(x: &Sv) -> ScopedValue {
    match x {
        Sv::Val(v) => ScopedValue::Value(to_val(v)),
        Sv::Ctx(p) => ScopedValue::ContextValue(p.iter().map(to_seg).collect()),
    }
}
/// A value of any form with symbolic content.
fn any_val() -> Val {
    match pick(5) {
        0 => Val::Text(ascii(1), false),
        1 => Val::Int(String::new(), any_u64() as i64),
        2 => Val::Float(String::new(), 1.5),
        3 => Val::Name(named('q')),
        _ => Val::Abs(Id::new("a.b", &named('Q'))),
    }
}
fn num(v: &Val) -> Number {
    match v {
        Val::Int(_, i) => Number::Integer(*i),
        Val::Float(_, f) => Number::Float(*f),
        _ => unreachable!(),
    }
}
fn any_num() -> Val {
    if any_bool() {
        Val::Int(String::new(), any_u64() as i64)
    } else {
        Val::Float(String::new(), -0.5)
    }
}
fn built(x: impl Into<Selector>, d: &[Ex]) {
    check(is_all(&x.into(), d), "the builder builds the selector it names");
    reach("built");
}
entry!(h_s06_types, {
    // the constructor and the method of every type, after any type
    type C = fn() -> SelectorBuilder;
    type A = for<'a> fn(&'a mut SelectorBuilder) -> &'a mut SelectorBuilder;
    use SelectorBuilder as B;
    let all: [(C, A); 26] = [
        (B::any_shape, B::add_any_shape), (B::any_number, B::add_any_number), (B::any_simple_type, B::add_any_simple_type), (B::any_collection, B::add_any_collection),
        (B::blob, B::add_blob), (B::boolean, B::add_boolean), (B::document, B::add_document), (B::string, B::add_string),
        (B::integer, B::add_integer), (B::byte, B::add_byte), (B::short, B::add_short), (B::long, B::add_long),
        (B::float, B::add_float), (B::double, B::add_double), (B::big_decimal, B::add_big_decimal), (B::big_integer, B::add_big_integer),
        (B::timestamp, B::add_timestamp), (B::list, B::add_list), (B::set, B::add_set), (B::map, B::add_map),
        (B::structure, B::add_structure), (B::union, B::add_union), (B::service, B::add_service), (B::operation, B::add_operation),
        (B::resource, B::add_resource), (B::member, B::add_member),
    ];
    let (i, j) = (pick(26) as usize, pick(26) as usize);
    let mut b = all[i].0();
    all[j].1(&mut b);
    check(!b.is_empty(), "a selector builder with expressions is not empty");
    built(&mut b, &[Ex::Type(i), Ex::Type(j)]);
    built(SelectorBuilder::shape(TYPES[i].1.clone()).add_shape(TYPES[j].1.clone()), &[Ex::Type(i), Ex::Type(j)]);
});
entry!(h_s06_expressions, {
    // functions, neighbors and variables, first and after another
    let n = named('n');
    let p = [named('i'), s("out")];
    let ids = || p.iter().map(|x| idf(x)).collect::<Vec<_>>();
    let one = Ex::Fun(n.clone(), vec![vec![Ex::Type(25), Ex::Rec], vec![Ex::Get(n.clone())]]);
    let args = || {
        let mut a = SelectorBuilder::member();
        a.add_forward_recursive_directed();
        [a, SelectorBuilder::variable_reference_from(idf(&n))]
    };
    let fun = |name: &str| match &one {
        Ex::Fun(_, a) => Ex::Fun(s(name), a.clone()),
        _ => unreachable!(),
    };
    let sels = || args().iter().cloned().map(Selector::from).collect::<Vec<_>>();
    let mut b = SelectorBuilder::string();
    use SelectorBuilder as B;
    let (x, d) = match pick(14) {
        0 => (B::function_from(idf(&n), &args()), { b.add_function_from(idf(&n), &args()); one.clone() }),
        1 => (B::function(Function::new(idf(&n), &sels())), { b.add_function(Function::new(idf(&n), &sels())); one.clone() }),
        2 => (B::fn_test(&args()), { b.add_test_function(&args()); fun("test") }),
        3 => (B::fn_is(&args()), { b.add_is_function(&args()); fun("is") }),
        4 => (B::fn_not(&args()), { b.add_not_function(&args()); fun("not") }),
        5 => (B::fn_topdown(&args()), { b.add_topdown_function(&args()); fun("topdown") }),
        6 => (B::forward_undirected(), { b.add_forward_undirected(); Ex::Fwd(vec![]) }),
        7 => (B::reverse_undirected(), { b.add_reverse_undirected(); Ex::Rev(vec![]) }),
        8 => (B::forward_recursive_directed(), { b.add_forward_recursive_directed(); Ex::Rec }),
        9 => (B::forward_directed(&ids()), { b.add_forward_directed(&ids()); Ex::Fwd(p.to_vec()) }),
        10 => (B::reverse_directed(&ids()), { b.add_reverse_directed(&ids()); Ex::Rev(p.to_vec()) }),
        11 => (B::variable_reference(VariableReference::new(idf(&n))), { b.add_variable_reference_from(idf(&n)); Ex::Get(n.clone()) }),
        12 => (B::variable_definition_from(idf(&n), B::list()), { b.add_variable_definition_from(idf(&n), B::list()); Ex::Set(n.clone(), vec![Ex::Type(17)]) }),
        _ => {
            let v = VariableDefinition::new(idf(&n), B::list().into());
            let r = v.new_reference();
            check(is_ident(r.name(), &n), "a reference to a variable has its name");
            (B::variable_definition(v.clone()), { b.add_variable_definition(v).add_variable_reference(r); Ex::Set(n.clone(), vec![Ex::Type(17)]) })
        }
    };
    let mut all = vec![Ex::Type(7), d.clone()];
    if b.clone().is_empty() | matches!(d, Ex::Set(..)) {
        let t: Selector = (&mut b.clone()).into();
        if t.expressions().count() == 3 {
            all.push(Ex::Get(n));
        }
    }
    built(x, &[d]);
    built(&mut b, &all);
});
entry!(h_s06_attribute, {
    // every comparison of an attribute, every form of path
    let k = pick(5);
    let name = if k == 0 { named('k') } else { s(["id", "service", "trait", "var"][k as usize - 1]) };
    let mut b = match k {
        0 => AttributeBuilder::named(idf(&name)),
        1 => AttributeBuilder::named_id(),
        2 => AttributeBuilder::named_service(),
        3 => AttributeBuilder::named_trait(),
        _ => AttributeBuilder::named_var(),
    };
    let case = any_bool();
    let c = pick(15) as usize;
    let (v, n) = (vec![any_val(), val(0)], vec![any_num(), Val::Int(s("0"), 0)]);
    let vs = v.iter().map(to_val).collect::<Vec<_>>();
    let ns = n.iter().map(num).collect::<Vec<_>>();
    match c {
        0 => b.string_equal(&vs, case),
        1 => b.string_not_equal(&vs, case),
        2 => b.string_starts_with(&vs, case),
        3 => b.string_ends_with(&vs, case),
        4 => b.string_contains(&vs, case),
        5 => b.string_exists(case, case),
        6 => b.number_greater(&ns),
        7 => b.number_greater_or_equal(&ns),
        8 => b.number_less(&ns),
        9 => b.number_less_or_equal(&ns),
        10 => b.projection_equal(&vs),
        11 => b.projection_not_equal(&vs),
        12 => b.projection_subset(&vs),
        13 => b.projection_proper_subset(&vs),
        _ => &mut b,
    };
    let cmp = match c {
        0..=4 => Some((c, v, case)),
        5 => Some((c, vec![Val::Text(case.to_string(), false)], case)),
        6..=9 => Some((c, n, false)),
        10..=13 => Some((c, v, false)),
        _ => None,
    };
    let d = vec![Ex::Attr((name, vec![]), cmp)];
    built(&mut b, &d);
    let mut t = SelectorBuilder::map();
    t.add_attribute((&mut b).into());
    built(&mut t, &[vec![Ex::Type(19)], d].concat());
});
entry!(h_s06_path, {
    // paths of attributes, whole and by segments
    let v = any_val();
    let q = named('q');
    let d = match &v {
        Val::Name(_) | Val::Text(..) | Val::Int(..) | Val::Float(..) | Val::Abs(_) => Seg::Val(v.clone()),
    };
    let f = Seg::Fun(q.clone());
    let path = vec![d, f];
    let whole = any_bool();
    let comparison = AttributeComparison::new(Comparator::StringEqual, &[to_val(&v)]);
    macro_rules! walk {
        ($b:expr) => {
            if whole {
                $b.path_segment_for_text("gone");
                $b.path(&path.iter().map(to_seg).collect::<Vec<_>>());
            } else {
                match &v {
                    Val::Name(n) => $b.path_segment_for_id(idf(n)),
                    Val::Text(t, _) => $b.path_segment_for_text(t),
                    Val::Abs(i) => $b.path_segment_for_shape(i.id()),
                    n => $b.path_segment_for_number(num(n)),
                };
                $b.path_segment_for_function(idf(&q));
            }
        };
    }
    if any_bool() {
        let mut b = AttributeBuilder::named(idf("k"));
        walk!(b);
        b.compare(comparison);
        let d = Ex::Attr((s("k"), path), Some((0, vec![v.clone()], false)));
        built(&mut b, &[d.clone()]);
        let a: AttributeSelector = b.into();
        let mut t = SelectorBuilder::attribute(a.clone());
        t.add_attribute_from(a.key().clone(), a.comparison().clone()).add_attribute_from(a.key().clone(), None);
        let bare = match &d {
            Ex::Attr(k, _) => Ex::Attr(k.clone(), None),
            _ => unreachable!(),
        };
        built(&mut t, &[d.clone(), d, bare]);
    } else {
        let mut b = ScopedAttributeBuilder::named(idf("k"));
        walk!(b);
        b.string_equal(to_sv(&Sv::Val(v.clone())), to_sv(&Sv::Ctx(path.clone())), true);
        let d = Ex::Scoped(Some((s("k"), path.clone())), vec![(Sv::Val(v), 0, vec![Sv::Ctx(path)], true)]);
        built(&mut b, &[d.clone()]);
        let a: ScopedAttributeSelector = b.into();
        let mut t = SelectorBuilder::scoped_attribute(a.clone());
        t.add_scoped_attribute(a);
        built(&mut t, &[d.clone(), d]);
    }
});
entry!(h_s06_scoped, {
    // every assertion of a scoped attribute, by builder and by constructor
    let k = pick(6);
    let key = match k {
        0 => None,
        1 => Some((named('k'), vec![])),
        _ => Some((s(["id", "service", "trait", "var"][k as usize - 2]), vec![])),
    };
    let mut b = match k {
        0 => ScopedAttributeBuilder::default(),
        1 => ScopedAttributeBuilder::named(idf(&key.as_ref().unwrap().0)),
        2 => ScopedAttributeBuilder::new_id(),
        3 => ScopedAttributeBuilder::new_service(),
        4 => ScopedAttributeBuilder::new_trait(),
        _ => ScopedAttributeBuilder::new_var(),
    };
    let case = any_bool();
    let c = pick(14) as usize;
    let l = Sv::Ctx(vec![Seg::Val(Val::Name(named('l'))), Seg::Fun(s("f"))]);
    let (r, n) = (Sv::Val(any_val()), any_num());
    let (lv, rv) = (to_sv(&l), to_sv(&r));
    match c {
        0 => b.string_equal(lv, rv, case),
        1 => b.string_not_equal(lv, rv, case),
        2 => b.string_starts_with(lv, rv, case),
        3 => b.string_ends_with(lv, rv, case),
        4 => b.string_contains(lv, rv, case),
        5 => b.string_exists(lv, case),
        6 => b.number_greater(lv, num(&n)),
        7 => b.number_greater_or_equal(lv, num(&n)),
        8 => b.number_less(lv, num(&n)),
        9 => b.number_less_or_equal(lv, num(&n)),
        10 => b.projection_equal(lv, rv),
        11 => b.projection_not_equal(lv, rv),
        12 => b.projection_subset(lv, &[rv.clone(), rv]),
        _ => b.projection_proper_subset(lv, &[rv.clone(), rv]),
    };
    let d = |case: bool| (l.clone(), c, match c {
        5 => vec![Sv::Val(Val::Text(case.to_string(), false))],
        6..=9 => vec![Sv::Val(n.clone())],
        12 | 13 => vec![r.clone(), r.clone()],
        _ => vec![r.clone()],
    });
    let (lv, rv) = (to_sv(&l), to_sv(&r));
    use ScopedAttributeAssertion as A;
    let a = match c {
        0 => A::string_equal(lv, rv),
        1 => A::string_not_equal(lv, rv),
        2 => A::string_starts_with(lv, rv),
        3 => A::string_ends_with(lv, rv),
        4 => A::string_contains(lv, rv),
        5 => A::string_exists(lv, case),
        6 => A::number_greater(lv, num(&n)),
        7 => A::number_greater_or_equal(lv, num(&n)),
        8 => A::number_less(lv, num(&n)),
        9 => A::number_less_or_equal(lv, num(&n)),
        10 => A::projection_equal(lv, rv),
        11 => A::projection_not_equal(lv, rv),
        12 => A::projection_subset(lv, &[rv.clone(), rv]),
        _ => A::projection_proper_subset(lv, &[rv.clone(), rv]),
    };
    b.assertion(a);
    let (x, y) = (d(case), d(case));
    built(&mut b, &[Ex::Scoped(key, vec![(x.0, x.1, x.2, case & (c < 5)), (y.0, y.1, y.2, false)])]);
});
entry!(h_s06_comparison, {
    // the constructors of comparisons
    let case = any_bool();
    let c = pick(14) as usize;
    let (v, n) = (any_val(), any_num());
    let x = to_val(&v);
    use AttributeComparison as A;
    let a = match c {
        0 => A::string_equal(x),
        1 => A::string_not_equal(x),
        2 => A::string_starts_with(x),
        3 => A::string_ends_with(x),
        4 => A::string_contains(x),
        5 => A::string_exists(case),
        6 => A::number_greater(num(&n)),
        7 => A::number_greater_or_equal(num(&n)),
        8 => A::number_less(num(&n)),
        9 => A::number_less_or_equal(num(&n)),
        10 => A::projection_equal(x),
        11 => A::projection_not_equal(x),
        12 => A::projection_subset(&[x.clone(), x]),
        _ => A::projection_proper_subset(&[x.clone(), x]),
    };
    let r = match c {
        5 => vec![Val::Text(case.to_string(), false)],
        6..=9 => vec![n],
        12 | 13 => vec![v.clone(), v],
        _ => vec![v],
    };
    built(SelectorBuilder::attribute(AttributeSelector::with_comparison(sel::Key::new(idf("k")), a)), &[Ex::Attr((s("k"), vec![]), Some((c, r, false)))]);
});
