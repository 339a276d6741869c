//! Q01: queries by shape type.
use crate::actions::bare;
use crate::desc::*;
use crate::gen::*;
use atelier_core::model::selector::{Selector, ShapeType as T};
use atelier_core::model::shapes::Simple;
use atelier_core::model::{HasIdentity, Model};
use atelier_query::evaluate::query;
use atelier_query::Projection;

const TYPES: [T; 26] = [
    T::Any, T::Number, T::SimpleType, T::Collection, T::Blob, T::Boolean, T::Document, T::String, T::Integer,
    T::Byte, T::Short, T::Long, T::Float, T::Double, T::BigDecimal, T::BigInteger, T::Timestamp, T::List, T::Set,
    T::Map, T::Structure, T::Union, T::Service, T::Operation, T::Resource, T::Member,
];
/// Whether a shape of this kind is one of the type: §14.2.1 of the Smithy specification.
fn of_type(t: &T, k: &Kd) -> bool {
    use Simple as S;
    match (t, k) {
        (T::Any, k) => !matches!(k, Kd::Unresolved),
        (T::Number, Kd::Simple(s)) => matches!(s, S::Byte | S::Short | S::Integer | S::Long | S::Float | S::Double | S::BigDecimal | S::BigInteger),
        (T::SimpleType, Kd::Simple(_)) => true,
        (T::Collection, Kd::List(_) | Kd::Set(_)) => true,
        (T::Blob, Kd::Simple(s)) => *s == S::Blob,
        (T::Boolean, Kd::Simple(s)) => *s == S::Boolean,
        (T::Document, Kd::Simple(s)) => *s == S::Document,
        (T::String, Kd::Simple(s)) => *s == S::String,
        (T::Integer, Kd::Simple(s)) => *s == S::Integer,
        (T::Byte, Kd::Simple(s)) => *s == S::Byte,
        (T::Short, Kd::Simple(s)) => *s == S::Short,
        (T::Long, Kd::Simple(s)) => *s == S::Long,
        (T::Float, Kd::Simple(s)) => *s == S::Float,
        (T::Double, Kd::Simple(s)) => *s == S::Double,
        (T::BigDecimal, Kd::Simple(s)) => *s == S::BigDecimal,
        (T::BigInteger, Kd::Simple(s)) => *s == S::BigInteger,
        (T::Timestamp, Kd::Simple(s)) => *s == S::Timestamp,
        (T::List, Kd::List(_)) | (T::Set, Kd::Set(_)) | (T::Map, Kd::Map(..)) => true,
        (T::Structure, Kd::Struct(_)) | (T::Union, Kd::Union(_)) => true,
        (T::Service, Kd::Service(_)) | (T::Operation, Kd::Operation(_)) | (T::Resource, Kd::Resource(_)) => true,
        _ => false,
    }
}
/// 13 simple kinds and the eight others that define something.
fn kind(i: u32) -> Kd {
    if i < 13 {
        Kd::Simple(SIMPLES[i as usize].clone())
    } else {
        bare(i - 12)
    }
}
fn ask(m: &Model, ts: &[&T], d: &[Sh]) {
    let defined = |s: &&Sh| !matches!(s.kind, Kd::Unresolved);
    let s = Selector::from(ts.iter().map(|t| (*t).clone().into()).collect::<Vec<_>>());
    let want: Vec<&Sh> = d.iter().filter(defined).filter(|s| ts.iter().all(|t| of_type(t, &s.kind))).collect();
    match query(&s, m) {
        Projection::Shapes(ids) => {
            check(ids.len() == want.len(), "as many shapes as match");
            for w in want.iter() {
                check(ids.iter().any(|i| is_id(i, &w.id)), "every shape that matches is selected");
            }
        }
        _ => check(false, "a query by type selects shapes"),
    }
    reach(if want.is_empty() { "none" } else { "some" });
}
entry!(h_q01_kinds, {
    // each type against a shape of each kind
    let t = &TYPES[choose(26) as usize];
    let d = vec![Sh::new(&Id::new("n.n", &ident(1)), kind(choose(22)))];
    ask(&to_model(&d), &[t], &d);
});
entry!(h_q01_all, {
    // each type against all kinds at once
    let t = &TYPES[choose(26) as usize];
    let d: Vec<Sh> = (0..21).map(|i| Sh::new(&Id::new("n.n", &format!("S{}x", i)), kind(i))).collect();
    ask(&to_model(&d), &[t], &d);
});
entry!(h_q01_two, {
    // a sequence of types selects the shapes that are of both
    let (t, u) = (&TYPES[choose(26) as usize], &TYPES[choose(26) as usize]);
    let k = choose(22);
    let d = vec![
        Sh::new(&Id::new("n.n", &named('A')), kind(k)),
        Sh::new(&Id::new("n.n", &named('B')), kind((k + 8) % 21)),
    ];
    ask(&to_model(&d), &[t, u], &d);
});
entry!(h_q01_empty, {
    // no expression selects every shape; an empty model gives none
    let d: Vec<Sh> = (0..choose(3)).map(|i| Sh::new(&Id::new(&ident(1), &format!("S{}", i)), kind(i))).collect();
    ask(&to_model(&d), &[], &d);
    ask(&to_model(&d), &[&T::Any], &d);
});
