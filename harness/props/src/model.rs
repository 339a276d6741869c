//! C04..C08, C13, C14, C17, C19: the semantic model and its actions.
use crate::desc::*;
use crate::gen::*;
use atelier_core::error::ErrorKind;
use atelier_core::model::shapes::*;
use atelier_core::model::values::{Number, Value};
use atelier_core::model::{HasIdentity, Identifier, Model, ShapeID};
use atelier_core::Version;

// ------------------------------------------------------------------------------------------ C04

/// Smithy: arrays concatenate, equal values are kept, anything else conflicts.
fn merge_v(old: &V, new: &V) -> Option<V> {
    if let (V::A(a), V::A(b)) = (old, new) {
        let mut r = a.clone();
        r.extend(b.iter().cloned());
        return Some(V::A(r));
    }
    if same_v(old, new) {
        Some(old.clone())
    } else {
        None
    }
}
fn meta_value() -> V {
    match choose(6) {
        0 => V::S(ascii(1)),
        1 => V::I(any_u64() as i64),
        2 => V::B(choose(2) == 1),
        3 => V::A(vec![]),
        4 => V::A(vec![V::S(ascii(1))]),
        _ => V::O(vec![("k".to_string(), V::S(ascii(1)))]),
    }
}
fn apply_meta(exp: &mut Vec<(String, V)>, k: &str, v: &V) -> bool {
    for e in exp.iter_mut() {
        if e.0 == k {
            return match merge_v(&e.1, v) {
                Some(r) => {
                    e.1 = r;
                    true
                }
                None => false,
            };
        }
    }
    exp.push((k.to_string(), v.clone()));
    true
}
fn c04_add(n: usize) {
    let mut m = Model::default();
    let mut exp: Vec<(String, V)> = vec![];
    for _ in 0..n {
        let (k, v) = (ascii(1), meta_value());
        let had = exp.iter().any(|e| e.0 == k);
        let ok = apply_meta(&mut exp, &k, &v);
        let r = m.add_metadata(k.clone(), to_value(&v));
        match r {
            Ok(_) => {
                check(ok, "a conflicting metadata value is refused");
                reach(if had { "merged" } else { "new" });
            }
            Err(e) => {
                check(!ok, "compatible metadata is not refused");
                match e.kind() {
                    ErrorKind::MergeMetadataConflict(x) => check(eq_bytes(x.as_bytes(), k.as_bytes()), "the conflict names the key"),
                    _ => check(false, "the error is MergeMetadataConflict"),
                }
                reach("conflict");
            }
        }
        check_meta(&m, &exp);
    }
}
entry!(h_c04_add, { c04_add(2) });
entry!(h_c04_add_t, { c04_add(3) });
fn two_models(k: usize) -> (Vec<(String, V)>, Vec<(String, V)>) {
    let mut a: Vec<(String, V)> = vec![];
    let mut b: Vec<(String, V)> = vec![];
    for i in 0..k {
        let (x, y) = (ascii(1), ascii(1));
        for j in 0..i {
            assume(a[j].0 != x);
            assume(b[j].0 != y);
        }
        a.push((x, meta_value()));
        b.push((y, meta_value()));
    }
    (a, b)
}
fn c04_merge(k: usize) {
    let (a, b) = two_models(k);
    let mut ma = Model::default();
    for (k, v) in &a {
        check(ma.add_metadata(k.clone(), to_value(v)).is_ok(), "new metadata is added");
    }
    let mut mb = Model::default();
    for (k, v) in &b {
        check(mb.add_metadata(k.clone(), to_value(v)).is_ok(), "new metadata is added");
    }
    let mut exp = a.clone();
    let mut bad: Vec<String> = vec![];
    for (k, v) in &b {
        if !apply_meta(&mut exp, k, v) {
            bad.push(k.clone());
        }
    }
    match ma.merge(mb) {
        Ok(()) => {
            check(bad.is_empty(), "merge refuses a conflicting metadata value");
            check_meta(&ma, &exp);
            reach("merged");
        }
        Err(e) => {
            check(!bad.is_empty(), "merge accepts compatible metadata");
            match e.kind() {
                ErrorKind::MergeMetadataConflict(x) => check(bad.iter().any(|k| k == x), "the conflict names a conflicting key"),
                _ => check(false, "the error is MergeMetadataConflict"),
            }
            for k in &bad {
                let old = &a.iter().find(|e| e.0 == *k).unwrap().1;
                match ma.metadata_value(k) {
                    Some(v) => check(is_value(v, old), "a conflict leaves the receiver's value"),
                    None => check(false, "a conflict keeps the receiver's entry"),
                }
            }
            for (k, v) in &a {
                if b.iter().all(|e| e.0 != *k) {
                    match ma.metadata_value(k) {
                        Some(x) => check(is_value(x, v), "unrelated metadata is untouched"),
                        None => check(false, "unrelated metadata is kept"),
                    }
                }
            }
            reach("conflict");
        }
    }
}
entry!(h_c04_merge, { c04_merge(1) });
entry!(h_c04_merge2, {
    // two keys on either side, strings or arrays only
    let mut a: Vec<(String, V)> = vec![];
    let mut b: Vec<(String, V)> = vec![];
    hash_mode(choose(3));
    for l in [&mut a, &mut b] {
        for _ in 0..2 {
            let k = ascii(1);
            let v = if any_bool() { V::S(ascii(1)) } else { V::A(vec![V::S(ascii(1))]) };
            if l.len() == 1 {
                assume(l[0].0 != k);
            }
            l.push((k, v));
        }
    }
    let mut ma = Model::default();
    let mut mb = Model::default();
    for (k, v) in &a {
        let _ = ma.add_metadata(k.clone(), to_value(v));
    }
    for (k, v) in &b {
        let _ = mb.add_metadata(k.clone(), to_value(v));
    }
    let mut exp = a.clone();
    let mut ok = true;
    for (k, v) in &b {
        if !apply_meta(&mut exp, k, v) {
            ok = false;
        }
    }
    let r = ma.merge(mb);
    check(r.is_ok() == ok, "merge succeeds exactly when no metadata conflicts");
    if ok {
        check_meta(&ma, &exp);
        reach("merged");
    } else {
        after_conflict(&ma, &a, &b);
        reach("conflict");
    }
});
/// After a refused merge: keys in conflict have their value, the others theirs or the merged one.
fn after_conflict(m: &Model, a: &[(String, V)], b: &[(String, V)]) {
    for (k, v) in a {
        let other = b.iter().find(|e| e.0 == *k);
        match m.metadata_value(k) {
            Some(x) => match other.map(|o| merge_v(v, &o.1)) {
                Some(Some(w)) => check(is_value(x, v) | is_value(x, &w), "a compatible entry is merged or left"),
                _ => check(is_value(x, v), "a conflict leaves the receiver's value"),
            },
            None => check(false, "a conflict keeps the receiver's entries"),
        }
    }
    for (k, v) in b {
        if a.iter().all(|e| e.0 != *k) {
            if let Some(x) = m.metadata_value(k) {
                check(is_value(x, v), "an entry that is added has its value");
            }
        }
    }
}
entry!(h_c04_many, {
    // seven keys on either side, four of them on both, one of which may conflict; long arrays
    hash_mode(choose(6));
    let arr = |o: i64, n: i64| V::A((0..n).map(|i| if i == 3 { V::A(vec![V::I(o)]) } else { V::I(o + i) }).collect());
    let bad = choose(5) as usize;
    let c = bytes::<1>();
    let mut a = vec![];
    let mut b = vec![];
    for i in 0..7usize {
        let v = match i % 3 {
            0 => arr(i as i64, 6),
            1 => V::O(vec![("x".to_string(), V::I(i as i64)), ("y".to_string(), V::A(vec![V::N]))]),
            _ => V::S(format!("v{}", i)),
        };
        let w = match &v {
            V::A(_) if i == bad => V::S("other".to_string()),
            V::A(_) => arr(50, 5),
            V::O(_) if i == bad => V::O(vec![("x".to_string(), V::I(c[0] as i64)), ("y".to_string(), V::A(vec![V::N]))]),
            V::S(_) if i == bad => V::I(1),
            _ => v.clone(),
        };
        a.push((format!("k{}", i), v));
        b.push((format!("k{}", if i < 4 { i } else { i + 10 }), w));
    }
    let mut ma = Model::default();
    let mut mb = Model::default();
    for (k, v) in &a {
        let _ = ma.add_metadata(k.clone(), to_value(v));
    }
    for (k, v) in b.iter().rev() {
        let _ = mb.add_metadata(k.clone(), to_value(v));
    }
    let mut exp = a.clone();
    let mut ok = true;
    for (k, v) in &b {
        if !apply_meta(&mut exp, k, v) {
            ok = false;
        }
    }
    let r = ma.merge(mb);
    check(r.is_ok() == ok, "merge succeeds exactly when no metadata conflicts");
    if ok {
        check_meta(&ma, &exp);
        reach("merged");
    } else {
        after_conflict(&ma, &a, &b);
        reach("conflict");
    }
});
entry!(h_c04_remove, {
    let (k1, k2, q) = (ascii(1), ascii(1), ascii(1));
    assume(k1 != k2);
    let (v1, v2) = (V::S(ascii(1)), V::I(any_u64() as i64));
    let mut m = Model::new(Version::V10);
    check(!m.has_metadata(), "a new model has no metadata");
    let _ = m.add_metadata(k1.clone(), to_value(&v1));
    let _ = m.add_metadata(k2.clone(), to_value(&v2));
    let exp = vec![(k1.clone(), v1.clone()), (k2.clone(), v2.clone())];
    check_meta(&m, &exp);
    check(m.has_metadata_value(&q) == (q == k1 || q == k2), "has_metadata_value");
    check(m.metadata_value(&q).is_some() == (q == k1 || q == k2), "metadata_value");
    match m.remove_metadata(&q) {
        Some(v) => {
            reach("removed");
            let (want, k, rest) = if q == k1 { (&v1, &k2, &v2) } else { (&v2, &k1, &v1) };
            check(is_value(&v, want), "remove_metadata returns the stored value");
            check_meta(&m, &[(k.clone(), rest.clone())]);
            check(!m.has_metadata_value(&q), "the removed key is gone");
            check(m.has_metadata(), "the other entry remains");
            let _ = m.remove_metadata(k);
            check(!m.has_metadata(), "has_metadata is false when all is removed");
        }
        None => {
            reach("absent");
            check(q != k1 && q != k2, "remove_metadata finds a stored key");
            check_meta(&m, &exp);
        }
    }
});

// ------------------------------------------------------------------------------------------ C05

fn trait_value() -> Option<V> {
    match choose(7) {
        0 => None,
        1 => Some(V::S(ascii(1))),
        2 => Some(V::I(any_u64() as i64)),
        3 => Some(V::A(vec![])),
        4 => Some(V::A(vec![V::S(ascii(1))])),
        5 => Some(V::B(any_bool())),
        _ => Some(V::O(vec![])),
    }
}
fn same_tv(a: &Option<V>, b: &Option<V>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same_v(a, b),
        _ => false,
    }
}
fn merge_tv(old: &Option<V>, new: &Option<V>) -> Option<Option<V>> {
    if let (Some(V::A(_)), Some(V::A(_))) = (old, new) {
        return Some(merge_v(old.as_ref().unwrap(), new.as_ref().unwrap()));
    }
    if same_tv(old, new) {
        Some(old.clone())
    } else {
        None
    }
}
/// Conflict resolution on a list of traits whose IDs are equal ignoring case.
pub fn apply_tr(exp: &mut Vec<Tr>, t: &Tr) -> bool {
    for e in exp.iter_mut() {
        if e.0.same(&t.0) {
            return match merge_tv(&e.1, &t.1) {
                Some(r) => {
                    e.1 = r;
                    true
                }
                None => false,
            };
        }
    }
    exp.push(t.clone());
    true
}
fn c05<T: HasTraits>(el: &mut T, n: usize) {
    let other: Tr = (Id::new("o.t", "keep"), Some(V::S("x".to_string())));
    check(el.apply_with_value(other.0.id(), other.1.as_ref().map(to_value)).is_ok(), "a first trait is accepted");
    let mut exp: Vec<Tr> = vec![other];
    for _ in 0..n {
        let t: Tr = (Id::new("a.b", &name1()), trait_value());
        let had = exp.iter().any(|e| e.0.same(&t.0));
        let ok = apply_tr(&mut exp, &t);
        let r = if t.1.is_none() && any_bool() {
            el.apply(t.0.id())
        } else if any_bool() {
            el.append_traits(&to_traits(&[t.clone()]))
        } else {
            el.apply_with_value(t.0.id(), t.1.as_ref().map(to_value))
        };
        match r {
            Ok(()) => {
                check(ok, "a conflicting trait value is refused");
                reach(if had { "again" } else { "first" });
            }
            Err(e) => {
                check(!ok, "a compatible trait value is accepted");
                check(matches!(e.kind(), ErrorKind::MergeTraitConflict(i) if *i == t.0.id()), "the error is MergeTraitConflict of that trait");
                reach("conflict");
            }
        }
        check_traits(el.traits(), &exp, Lax::default());
        check(el.has_trait(&t.0.id()), "has_trait");
    }
    // a member ID is never a trait
    let m = ShapeID::new_unchecked("a.b", &name1(), Some(&name1()));
    let r = el.apply_with_value(m.clone(), None);
    check(r.is_err(), "a trait ID naming a member is refused");
    check(el.apply(m).is_err(), "a trait ID naming a member is refused by apply");
    check_traits(el.traits(), &exp, Lax::default());
}
entry!(h_c05_shape, {
    let mut s = TopLevelShape::new(ShapeID::new_unchecked("x.y", "S", None), ShapeKind::Simple(Simple::String));
    c05(&mut s, 2);
});
entry!(h_c05_member, {
    let mut s = MemberShape::new(Identifier::new_unchecked("m"), ShapeID::new_unchecked("x.y", "S", None));
    c05(&mut s, 2);
});
entry!(h_c05_shape_t, {
    let mut s = TopLevelShape::new(ShapeID::new_unchecked("x.y", "S", None), ShapeKind::Unresolved);
    c05(&mut s, 3);
});
entry!(h_c05_append, {
    // append_traits of two traits onto two: nothing is lost
    hash_mode(choose(3));
    let mut a: Vec<Tr> = vec![];
    let mut b: Vec<Tr> = vec![];
    for l in [&mut a, &mut b] {
        for _ in 0..2 {
            let i = Id::new("a.b", &name1());
            let v = if any_bool() { None } else { Some(V::A(vec![V::S(ascii(1))])) };
            if l.len() == 1 {
                assume(!l[0].0.same(&i));
            }
            l.push((i, v));
        }
    }
    let mut s = TopLevelShape::with_traits(ShapeID::new_unchecked("x.y", "S", None), ShapeKind::Unresolved, to_traits(&a));
    let mut exp = a.clone();
    let mut ok = true;
    for t in &b {
        if !apply_tr(&mut exp, t) {
            ok = false;
        }
    }
    let r = s.append_traits(&to_traits(&b));
    check(r.is_ok() == ok, "append_traits succeeds exactly when no trait conflicts");
    if ok {
        check_traits(s.traits(), &exp, Lax::default());
        reach("appended");
    } else {
        after_refusal(s.traits(), &a, &b);
        reach("conflict");
    }
});
/// After a refused append: traits in conflict have their value, the others theirs or the merged one.
fn after_refusal(t: &AppliedTraits, a: &[Tr], b: &[Tr]) {
    let tv = |x: &Option<Value>, v: &Option<V>| match (x, v) {
        (None, None) => true,
        (Some(x), Some(v)) => is_value(x, v),
        _ => false,
    };
    for (i, v) in a {
        let other = b.iter().find(|e| e.0.same(i));
        match t.get(&i.id()) {
            Some(x) => match other.map(|o| merge_tv(v, &o.1)) {
                Some(Some(w)) => check(tv(x, v) | tv(x, &w), "a compatible trait is merged or left"),
                _ => check(tv(x, v), "a conflict leaves the stored value"),
            },
            None => check(false, "a conflict removes no trait"),
        }
    }
    for i in t.keys() {
        check(a.iter().chain(b).any(|e| e.0.id() == *i), "no trait is invented");
    }
}
entry!(h_c05_many, {
    // seven traits on either side, four of them on both, one of which may conflict; long arrays
    hash_mode(choose(6));
    let arr = |o: i64, n: i64| Some(V::A((0..n).map(|i| if i == 3 { V::A(vec![V::I(o)]) } else { V::I(o + i) }).collect()));
    let bad = choose(5) as usize;
    let c = bytes::<1>();
    let mut a: Vec<Tr> = vec![];
    let mut b: Vec<Tr> = vec![];
    for i in 0..7usize {
        let v = match i % 4 {
            0 => arr(i as i64, 6),
            1 => Some(V::O(vec![("x".to_string(), V::I(i as i64)), ("y".to_string(), V::A(vec![V::N]))])),
            2 => Some(V::S(format!("v{}", i))),
            _ => None,
        };
        let w = match &v {
            Some(V::A(_)) if i == bad => Some(V::S("other".to_string())),
            Some(V::A(_)) => arr(50, 5),
            Some(V::O(_)) if i == bad => Some(V::O(vec![("x".to_string(), V::I(c[0] as i64)), ("y".to_string(), V::A(vec![V::N]))])),
            Some(_) if i == bad => None,
            None if i == bad => arr(1, 1),
            _ => v.clone(),
        };
        a.push((Id::new("a.b", &format!("t{}", i)), v));
        b.push((Id::new("a.b", &format!("T{}", if i < 4 { i } else { i + 10 })), w));
    }
    let mut exp = a.clone();
    let mut ok = true;
    for t in &b {
        if !apply_tr(&mut exp, t) {
            ok = false;
        }
    }
    if choose(2) == 0 {
        let mut s = TopLevelShape::with_traits(ShapeID::new_unchecked("x.y", "S", None), ShapeKind::Unresolved, to_traits(&a));
        many(&mut s, &a, &b, &exp, ok);
    } else {
        let mut s = MemberShape::new(Identifier::new_unchecked("m"), ShapeID::new_unchecked("x.y", "S", None));
        for t in &a {
            check(s.apply_with_value(t.0.id(), t.1.as_ref().map(to_value)).is_ok(), "a first trait is accepted");
        }
        many(&mut s, &a, &b, &exp, ok);
    }
});
fn many<T: HasTraits>(s: &mut T, a: &[Tr], b: &[Tr], exp: &[Tr], ok: bool) {
    let r = s.append_traits(&to_traits(b));
    check(r.is_ok() == ok, "append_traits succeeds exactly when no trait conflicts");
    if ok {
        check_traits(s.traits(), exp, Lax::default());
        reach("appended");
    } else {
        after_refusal(s.traits(), a, b);
        reach("conflict");
    }
}
entry!(h_c05_named, {
    // the prelude queries are has_trait of the trait they name
    let names: [(&str, fn(&TopLevelShape) -> bool); 24] = [
        ("documentation", |s| s.has_documentation()),
        ("externalDocumentation", |s| s.has_external_documentation()),
        ("length", |s| s.has_length()),
        ("pattern", |s| s.has_pattern()),
        ("requiresLength", |s| s.has_required_length()),
        ("box", |s| s.is_boxed()),
        ("deprecated", |s| s.is_deprecated()),
        ("error", |s| s.is_error()),
        ("idempotent", |s| s.is_idempotent()),
        ("noReplace", |s| s.is_no_replace()),
        ("paginated", |s| s.is_paginated()),
        ("private", |s| s.is_private()),
        ("readonly", |s| s.is_readonly()),
        ("references", |s| s.is_references()),
        ("required", |s| s.is_required()),
        ("sensitive", |s| s.is_sensitive()),
        ("streaming", |s| s.is_streaming()),
        ("since", |s| s.is_since()),
        ("tags", |s| s.is_tagged()),
        ("title", |s| s.is_titled()),
        ("trait", |s| s.is_trait()),
        ("uniqueItems", |s| s.has_unique_items()),
        ("unstable", |s| s.is_unstable()),
        ("", |s| s.has_traits()),
    ];
    let k = choose(23) as usize;
    // one byte of the applied trait's name and of its namespace is arbitrary
    let mut n = names[k].0.as_bytes().to_vec();
    let c = bytes::<2>();
    assume(is_word(c[0]) & is_alpha(c[1]));
    let at = choose(n.len() as u32) as usize;
    let orig = n[at];
    n[at] = c[0];
    let ns = format!("smithy.ap{}", c[1] as char);
    let mut s = TopLevelShape::new(ShapeID::new_unchecked("x.y", "S", None), ShapeKind::Simple(Simple::String));
    check(!names[k].1(&s), "a shape without traits has no prelude trait");
    check(s.apply(ShapeID::new_unchecked(&ns, &text(&n), None)).is_ok(), "applied");
    let want = (lower(c[0]) == lower(orig)) & (lower(c[1]) == b'i');
    check(names[k].1(&s) == want, "a prelude trait query is true exactly for its trait");
    reach("named");
});

// ------------------------------------------------------------------------------------------ C06

/// A member whose target is any of two shapes.
pub fn tgt() -> Id {
    Id::new("t.t", &name1())
}
fn opt_tr() -> Vec<Tr> {
    match choose(3) {
        0 => vec![],
        1 => vec![(Id::new("a.b", "t"), Some(V::A(vec![V::S(ascii(1))])))],
        _ => vec![(Id::new("a.b", "t"), Some(V::S(ascii(1))))],
    }
}
fn mem(n: &str) -> Mem {
    Mem { name: n.to_string(), target: tgt(), traits: vec![] }
}
/// A definition of the given kind; content is symbolic.
pub fn some_kind(k: u32) -> Kd {
    match k {
        0 => Kd::Simple(if any_bool() { Simple::String } else { Simple::Long }),
        1 => Kd::List(mem("member")),
        2 => Kd::Set(mem("member")),
        3 => Kd::Map(mem("key"), mem("value")),
        4 | 5 => {
            let n = choose(3);
            let mut ms: Vec<Mem> = vec![];
            for _ in 0..n {
                let m = mem(&name1());
                if ms.len() == 1 {
                    assume(!eq_nocase(ms[0].name.as_bytes(), m.name.as_bytes()));
                }
                ms.push(m);
            }
            if k == 4 {
                Kd::Struct(ms)
            } else {
                Kd::Union(ms)
            }
        }
        6 => Kd::Service(Svc { version: name1(), ops: if any_bool() { vec![tgt()] } else { vec![] }, res: vec![], renames: vec![] }),
        7 => Kd::Operation(Op { input: if any_bool() { Some(tgt()) } else { None }, output: None, errors: vec![tgt()] }),
        8 => {
            let mut r = Res::default();
            r.ids = vec![(name1(), tgt())];
            r.slots[choose(2) as usize * 2] = Some(tgt());
            Kd::Resource(r)
        }
        _ => Kd::Unresolved,
    }
}
fn same_mem(a: &Mem, b: &Mem) -> bool {
    eq_nocase(a.name.as_bytes(), b.name.as_bytes()) & a.target.same(&b.target)
}
fn same_opt(a: &Option<Id>, b: &Option<Id>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.same(b),
        _ => false,
    }
}
fn same_ids(a: &[Id], b: &[Id]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r = r & a[i].same(&b[i]);
    }
    r
}
/// The same definition: kind, member names and targets, properties.
pub fn same_kind(a: &Kd, b: &Kd) -> bool {
    match (a, b) {
        (Kd::Simple(a), Kd::Simple(b)) => a == b,
        (Kd::List(a), Kd::List(b)) | (Kd::Set(a), Kd::Set(b)) => same_mem(a, b),
        (Kd::Map(a, c), Kd::Map(b, d)) => same_mem(a, b) & same_mem(c, d),
        (Kd::Struct(a), Kd::Struct(b)) | (Kd::Union(a), Kd::Union(b)) => {
            if a.len() != b.len() {
                return false;
            }
            let mut r = true;
            for x in a {
                let mut any = false;
                for y in b {
                    any = any | same_mem(x, y);
                }
                r = r & any;
            }
            r
        }
        (Kd::Service(a), Kd::Service(b)) => eq_bytes(a.version.as_bytes(), b.version.as_bytes()) & same_ids(&a.ops, &b.ops) & same_ids(&a.res, &b.res),
        (Kd::Operation(a), Kd::Operation(b)) => same_opt(&a.input, &b.input) & same_opt(&a.output, &b.output) & same_ids(&a.errors, &b.errors),
        (Kd::Resource(a), Kd::Resource(b)) => {
            let mut r = eq_nocase(a.ids[0].0.as_bytes(), b.ids[0].0.as_bytes()) & a.ids[0].1.same(&b.ids[0].1);
            for i in 0..6 {
                r = r & same_opt(&a.slots[i], &b.slots[i]);
            }
            r
        }
        (Kd::Unresolved, Kd::Unresolved) => true,
        _ => false,
    }
}
fn c06(a: Kd, b: Kd, ta: Vec<Tr>, tb: Vec<Tr>, merge: bool) {
    let (i, j) = (Id::new("x.y", &name1()), Id::new("x.y", &name1()));
    c06_at(&i, &j, a, b, ta, tb, merge);
}
fn c06_at(i: &Id, j: &Id, a: Kd, b: Kd, ta: Vec<Tr>, tb: Vec<Tr>, merge: bool) {
    let sa = Sh { id: i.clone(), traits: ta, kind: a };
    let sb = Sh { id: j.clone(), traits: tb, kind: b };
    let mut m = Model::default();
    check(m.add_shape(to_shape(&sa)).is_ok(), "a new ID is added");
    let r = if merge {
        let mut o = Model::default();
        check(o.add_shape(to_shape(&sb)).is_ok(), "a new ID is added");
        m.merge(o)
    } else {
        m.add_shape(to_shape(&sb))
    };
    if !sa.id.same(&sb.id) {
        reach("new");
        check(r.is_ok(), "a new ID is added as it is");
        check_model(&m, &[sa, sb], Lax::default());
        return;
    }
    let ua = matches!(sa.kind, Kd::Unresolved);
    let ub = matches!(sb.kind, Kd::Unresolved);
    let mut exp = sa.clone();
    let mut conflict = None;
    if ua {
        exp.kind = sb.kind.clone();
    } else if !ub && !same_kind(&sa.kind, &sb.kind) {
        conflict = Some(true);
    }
    if conflict.is_none() {
        for t in &sb.traits {
            if !apply_tr(&mut exp.traits, t) {
                conflict = Some(false);
            }
        }
    }
    match (r, conflict) {
        (Ok(()), None) => {
            reach(if ua || ub { "resolved" } else { "equal" });
            check(m.shapes().count() == 1, "equal IDs give one shape");
            check_model(&m, &[exp], Lax::default());
        }
        (Err(e), Some(true)) => {
            reach("shape-conflict");
            check(matches!(e.kind(), ErrorKind::MergeShapeConflict(i) if *i == sa.id.id()), "the error is MergeShapeConflict of that shape");
            check_model(&m, &[sa], Lax::default());
        }
        (Err(e), Some(false)) => {
            reach("trait-conflict");
            check(matches!(e.kind(), ErrorKind::MergeTraitConflict(_)), "the error is MergeTraitConflict");
            check(m.shapes().count() == 1, "a conflict adds no shape");
        }
        (Ok(()), Some(_)) => check(false, "a conflicting definition is refused"),
        (Err(_), None) => check(false, "a compatible definition is accepted"),
    }
}
entry!(h_c06_kinds, {
    let (a, b) = (choose(10), choose(10));
    c06(some_kind(a), some_kind(b), vec![], vec![], false);
});
entry!(h_c06_merge, {
    let (a, b) = (choose(10), choose(10));
    let t = (opt_tr(), opt_tr());
    // one content per kind, with any traits on either side
    fn k(k: u32) -> Kd {
        match k {
            0 => Kd::Simple(Simple::String),
            1 => Kd::List(Mem::new("member", &Id::api("String"))),
            2 => Kd::Set(Mem::new("member", &Id::api("String"))),
            3 => Kd::Map(Mem::new("key", &Id::api("String")), Mem::new("value", &Id::api("String"))),
            4 => Kd::Struct(vec![mem("a")]),
            5 => Kd::Union(vec![Mem::new("a", &Id::api("String"))]),
            6 => Kd::Service(Svc { version: "1".to_string(), ..Svc::default() }),
            7 => Kd::Operation(Op::default()),
            8 => Kd::Resource(Res { ids: vec![("i".to_string(), Id::api("String"))], ..Res::default() }),
            _ => Kd::Unresolved,
        }
    }
    c06(k(a), k(b), t.0, t.1, true);
});
entry!(h_c06_one, {
    // definitions whose only target and trait may be the shape itself
    let (i, j) = (Id::new("x.y", &named('S')), Id::new("x.y", &named('S')));
    let (k, l) = (pick(10), pick(10));
    let tr = |i: &Id| if any_bool() { vec![(i.clone(), None)] } else { vec![] };
    let one = |k: u32, i: &Id| match crate::builder::one(k, i) {
        Kd::Struct(_) => Kd::Struct(vec![Mem::new("a", i)]),
        Kd::Union(_) => Kd::Union(vec![Mem::new("a", i)]),
        Kd::List(_) => Kd::List(Mem::new("member", i)),
        Kd::Set(_) => Kd::Set(Mem::new("member", i)),
        Kd::Map(..) => Kd::Map(Mem::new("key", i), Mem::new("value", i)),
        Kd::Service(s) => Kd::Service(Svc { renames: vec![], ..s }),
        Kd::Resource(r) => Kd::Resource(Res { ids: vec![("a".to_string(), i.clone())], ..r }),
        o => o,
    };
    c06_at(&Id::new("x.y", "Sa"), &Id::new("x.y", "Sa"), one(k, &i), one(l, &j), tr(&i), tr(&j), pick(2) == 1);
});
entry!(h_c06_member_traits, {
    // the traits on the members of two equal definitions are merged
    let build = |i: u32, t: Vec<Tr>| {
        let m = |n: &str, t: Vec<Tr>| Mem { name: n.to_string(), target: Id::api("String"), traits: t };
        match i {
            0 => Kd::List(m("member", t)),
            1 => Kd::Set(m("member", t)),
            2 => Kd::Map(m("key", t), m("value", vec![])),
            3 => Kd::Map(m("key", vec![]), m("value", t)),
            4 => Kd::Struct(vec![m("a", t), m("b", vec![])]),
            _ => Kd::Union(vec![m("b", vec![]), m("a", t)]),
        }
    };
    let i = choose(6);
    let t1: Tr = (Id::new("a.b", &name1()), Some(V::A(vec![V::S(ascii(1))])));
    let t2: Tr = (Id::new("a.b", &name1()), if any_bool() { Some(V::A(vec![V::S(ascii(1))])) } else { None });
    let id = Id::new("x.y", "S");
    let mut exp = vec![t1.clone()];
    let ok = apply_tr(&mut exp, &t2);
    let mut m = Model::default();
    check(m.add_shape(to_shape(&Sh::new(&id, build(i, vec![t1])))).is_ok(), "a new ID is added");
    let r = m.add_shape(to_shape(&Sh::new(&id, build(i, vec![t2]))));
    check(r.is_ok() == ok, "equal definitions merge exactly when their member traits do not conflict");
    if ok {
        reach("merged");
        check_model(&m, &[Sh::new(&id, build(i, exp))], Lax::default());
    } else {
        reach("conflict");
    }
});
entry!(h_c06_many, {
    // two models of nine shapes, six of them in both, some unresolved in one, one of which may conflict
    hash_mode(choose(3));
    let all = crate::builder::wide("x.y");
    let bad = choose(7) as usize;
    let mut a: Vec<Sh> = all.iter().take(8).cloned().collect();
    let mut b: Vec<Sh> = all.iter().skip(2).cloned().collect();
    a[3].kind = Kd::Unresolved;
    b[2].kind = Kd::Unresolved;
    for (i, s) in b.iter_mut().enumerate() {
        s.traits = vec![(Id::new("a.b", "t9"), Some(V::I(i as i64)))];
    }
    let extra = |n: &str| Sh::new(&Id::new("x.z", n), Kd::Unresolved);
    a.push(extra("U"));
    b.push(extra("V"));
    let mut clash = false;
    if bad < 6 {
        // the shape 2 + bad in both, of another kind in the second
        let s = &mut b[bad];
        if !matches!(s.kind, Kd::Unresolved) && !matches!(a[bad + 2].kind, Kd::Unresolved) {
            s.kind = if matches!(s.kind, Kd::Union(_)) { Kd::Operation(Op::default()) } else { Kd::Union(vec![]) };
            clash = true;
        }
    }
    let mut exp = a.clone();
    for s in &b {
        match exp.iter_mut().find(|e| e.id.text() == s.id.text()) {
            Some(e) => {
                if matches!(e.kind, Kd::Unresolved) {
                    e.kind = s.kind.clone();
                }
                // members' arrays are merged
                e.traits.extend(s.traits.clone());
                if !matches!(s.kind, Kd::Unresolved) && !matches!(a.iter().find(|e| e.id.text() == s.id.text()).unwrap().kind, Kd::Unresolved) {
                    twice(&mut e.kind);
                }
            }
            None => exp.push(s.clone()),
        }
    }
    let mut m = to_model(&a);
    let r = m.merge(to_model(&b));
    check(r.is_ok() != clash, "models merge exactly when no shape conflicts");
    match r {
        Ok(()) => {
            check_model(&m, &exp, Lax::default());
            reach("merged");
        }
        Err(e) => {
            let i = &a[bad + 2];
            check(matches!(e.kind(), ErrorKind::MergeShapeConflict(x) if *x == i.id.id()), "the error is MergeShapeConflict of that shape");
            match m.shape(&i.id.id()) {
                Some(s) => check_kind(s.body(), &i.kind, Lax::default()),
                None => check(false, "the existing definition is kept"),
            }
            reach("conflict");
        }
    }
});
/// The arrays of the traits of members, concatenated with themselves.
fn twice(k: &mut Kd) {
    let tw = |m: &mut Mem| {
        for t in m.traits.iter_mut() {
            if let Some(V::A(v)) = &mut t.1 {
                let w = v.clone();
                v.extend(w);
            }
        }
    };
    match k {
        Kd::List(m) | Kd::Set(m) => tw(m),
        Kd::Map(a, b) => {
            tw(a);
            tw(b);
        }
        Kd::Struct(v) | Kd::Union(v) => v.iter_mut().for_each(tw),
        _ => (),
    }
}
entry!(h_c06_member_id, {
    let id = ShapeID::new_unchecked("x.y", &name1(), Some(&name1()));
    let k = choose(10);
    let d = some_kind(k);
    let mut m = Model::default();
    let r = m.add_shape(TopLevelShape::new(id.clone(), to_kind(&d)));
    check(r.is_ok() == (k == 9), "a member ID is refused unless unresolved");
    check(m.has_shape(&id) == (k == 9), "a refused shape is not stored");
    if let Err(e) = r {
        check(matches!(e.kind(), ErrorKind::ShapeIDExpected(i) if *i == id), "the error is ShapeIDExpected");
        reach("refused");
    } else {
        reach("unresolved-member");
    }
});
entry!(h_c06_union, {
    // a successful merge holds exactly the union of the shape IDs
    let mut a: Vec<Sh> = vec![];
    let mut b: Vec<Sh> = vec![];
    hash_mode(choose(3));
    for l in [&mut a, &mut b] {
        for _ in 0..2 {
            let s = Sh::new(&Id::new("x.y", &name1()), if any_bool() { Kd::Unresolved } else { Kd::Simple(Simple::Blob) });
            if l.len() == 1 {
                assume(!l[0].id.same(&s.id));
            }
            l.push(s);
        }
    }
    let mut m = to_model(&a);
    let r = m.merge(to_model(&b));
    check(r.is_ok(), "compatible models merge");
    let mut exp = a.clone();
    for s in &b {
        match exp.iter_mut().find(|e| e.id.same(&s.id)) {
            Some(e) => {
                if matches!(e.kind, Kd::Unresolved) {
                    e.kind = s.kind.clone();
                }
            }
            None => exp.push(s.clone()),
        }
    }
    check_model(&m, &exp, Lax::default());
    reach("union");
});

// ------------------------------------------------------------------------------------------ C07

entry!(h_c07_model, {
    let (a, b, q) = (Id::new("x.y", &name1()), Id::new("x.y", &name1()), Id::new("x.y", &name1()));
    assume(!a.same(&b));
    let mut m = Model::default();
    check(!m.has_shapes(), "a new model has no shapes");
    let (sa, sb) = (Sh::new(&a, Kd::Simple(Simple::Byte)), Sh::new(&b, Kd::List(Mem::new("member", &a))));
    let _ = m.add_shape(to_shape(&sa));
    let _ = m.add_shape(to_shape(&sb));
    check(m.has_shapes(), "has_shapes");
    let hit = q.same(&a) | q.same(&b);
    check(m.has_shape(&q.id()) == hit, "has_shape");
    check(m.shape(&q.id()).is_some() == hit, "shape");
    check(m.shape_mut(&q.id()).is_some() == hit, "shape_mut");
    let r = m.remove_shape(&q.id());
    check(r.is_some() == hit, "remove_shape returns what was stored");
    check(!m.has_shape(&q.id()), "the removed shape is gone");
    if let Some(r) = r {
        reach("removed");
        let (gone, left) = if q.same(&a) { (&sa, &sb) } else { (&sb, &sa) };
        check_shape(&r, gone, Lax::default());
        check_model(&m, &[left.clone()], Lax::default());
        check(m.has_shapes(), "the other shape remains");
        let _ = m.remove_shape(&left.id.id());
        check(!m.has_shapes(), "has_shapes is false when all are removed");
    } else {
        reach("absent");
        check_model(&m, &[sa, sb], Lax::default());
    }
});
entry!(h_c07_structure, {
    let (a, b, q) = (name1(), name1(), name1());
    assume(!eq_nocase(a.as_bytes(), b.as_bytes()));
    let (ma, mb) = (Mem::new(&a, &tgt()), Mem::new(&b, &tgt()));
    let mut s = if any_bool() {
        StructureOrUnion::with_members(&[to_member(&ma), to_member(&mb)])
    } else {
        let mut s = StructureOrUnion::new();
        check(!s.has_members(), "a new structure has no members");
        s.add_member(Identifier::new_unchecked(&a), ma.target.id());
        check(s.add_a_member(to_member(&mb)).is_none(), "a new member replaces nothing");
        s
    };
    check(s.has_members(), "has_members");
    let qi = Identifier::new_unchecked(&q);
    let hit = eq_nocase(q.as_bytes(), a.as_bytes()) | eq_nocase(q.as_bytes(), b.as_bytes());
    check(s.has_member(&qi) == hit, "has_member");
    check(s.member(&qi).is_some() == hit, "member");
    for u in [false, true] {
        let k = if u { ShapeKind::Union(s.clone()) } else { ShapeKind::Structure(s.clone()) };
        let t = TopLevelShape::new(ShapeID::new_unchecked("x.y", "S", None), k);
        check(t.has_member(&qi) == hit, "TopLevelShape::has_member");
        check(t.member(&qi).is_some() == hit, "TopLevelShape::member");
        check(t.has_members(), "TopLevelShape::has_members");
        if let Some(x) = t.member(&qi) {
            check_member(x, if eq_nocase(q.as_bytes(), a.as_bytes()) { &ma } else { &mb }, Lax::default());
        }
    }
    let r = s.remove_member(&qi);
    check(r.is_some() == hit, "remove_member returns what was stored");
    check(!s.has_member(&qi), "the removed member is gone");
    if let Some(r) = r {
        reach("removed");
        let (gone, left) = if eq_nocase(q.as_bytes(), a.as_bytes()) { (&ma, &mb) } else { (&mb, &ma) };
        check_member(&r, gone, Lax::default());
        check_kind(&ShapeKind::Structure(s), &Kd::Struct(vec![left.clone()]), Lax::default());
    } else {
        reach("absent");
        check_kind(&ShapeKind::Structure(s), &Kd::Struct(vec![ma, mb]), Lax::default());
    }
});
entry!(h_c07_toplevel, {
    // member access by name on every kind
    let k = choose(10);
    let d = match k {
        6 => Kd::Service(Svc { version: "1".to_string(), ops: vec![tgt()], ..Svc::default() }),
        7 => Kd::Operation(Op { input: Some(tgt()), ..Op::default() }),
        _ => some_kind(k),
    };
    let base = ["member", "key", "value", "operations", "input"][choose(5) as usize];
    let mut q = base.as_bytes().to_vec();
    let c = bytes::<1>();
    assume(is_word(c[0]));
    let at = choose(q.len() as u32) as usize;
    q[at] = c[0];
    let t = TopLevelShape::new(ShapeID::new_unchecked("x.y", "S", None), to_kind(&d));
    let qi = Identifier::new_unchecked(&text(&q));
    let is = |s: &str| eq_nocase(&q, s.as_bytes());
    let want: Option<&Mem> = match &d {
        Kd::List(m) | Kd::Set(m) => if is("member") { Some(m) } else { None },
        Kd::Map(k, v) => if is("key") { Some(k) } else if is("value") { Some(v) } else { None },
        Kd::Struct(ms) | Kd::Union(ms) => ms.iter().find(|m| is(&m.name)),
        _ => None,
    };
    check(t.has_member(&qi) == want.is_some(), "has_member agrees with the members of the shape");
    match (t.member(&qi), want) {
        (None, None) => reach("none"),
        (Some(m), Some(d)) => {
            reach("member");
            check_member(m, d, Lax::default());
        }
        _ => check(false, "member finds exactly the members of the shape"),
    }
    let flags = [t.is_simple(), t.is_list(), t.is_set(), t.is_map(), t.is_structure(), t.is_union(), t.is_service(), t.is_operation(), t.is_resource(), t.is_unresolved()];
    let b = t.body();
    let body = [b.as_simple().is_some(), b.as_list().is_some(), b.as_set().is_some(), b.as_map().is_some(), b.as_structure().is_some(), b.as_union().is_some(), b.as_service().is_some(), b.as_operation().is_some(), b.as_resource().is_some(), b.is_unresolved()];
    for i in 0..10 {
        check(flags[i] == (i as u32 == k), "is_x is true exactly for its kind");
        check(body[i] == (i as u32 == k), "as_x is Some exactly for its kind");
    }
    check(t.has_members() == !(k == 0 || k == 9), "has_members of simple and unresolved shapes is false");
});
entry!(h_c07_service, {
    let mut s = Service::new("1");
    check(!s.has_operations() & !s.has_resources() & !s.has_renames(), "a new service is empty");
    let (a, b, q) = (tgt(), tgt(), tgt());
    let res = any_bool();
    if res {
        s.add_resource(a.id());
        s.append_resources(&[b.id()]);
        check(s.has_resources() & !s.has_operations(), "only the resources were added");
        s.remove_resource(&q.id());
    } else {
        s.add_operation(a.id());
        s.append_operations(&[b.id()]);
        check(s.has_operations() & !s.has_resources(), "only the operations were added");
        s.remove_operation(&q.id());
    }
    let mut left = vec![];
    for x in [&a, &b] {
        if !x.same(&q) {
            left.push(x.clone());
        }
    }
    let exp = if res { Svc { version: "1".to_string(), res: left.clone(), ..Svc::default() } } else { Svc { version: "1".to_string(), ops: left.clone(), ..Svc::default() } };
    check(if res { s.has_resources() } else { s.has_operations() } == !left.is_empty(), "has_x is true exactly while elements remain");
    reach(if left.len() == 2 { "kept" } else { "removed" });
    check_kind(&ShapeKind::Service(s.clone()), &Kd::Service(exp), Lax::default());
    // renames
    let n = name1();
    check(s.insert_rename_shape(a.id(), Identifier::new_unchecked(&n)).is_none(), "a first rename replaces nothing");
    check(s.has_renames(), "has_renames");
    check(s.has_rename_shape(&q.id()) == q.same(&a), "has_rename_shape");
    check(s.contains_rename_shape(&q.id()).is_some() == q.same(&a), "contains_rename_shape");
    let r = s.remove_rename_shape(&q.id());
    check(r.is_some() == q.same(&a), "remove_rename_shape returns what was stored");
    if let Some(r) = r {
        check(is_ident(&r, &n), "the removed rename is the stored one");
    }
    check(s.has_renames() == !q.same(&a), "has_renames after removal");
    // add_x_shape only takes shapes of the right kind
    let k = choose(10);
    let t = TopLevelShape::new(q.id(), to_kind(&some_kind(k)));
    let mut s2 = Service::new("1");
    s2.add_operation_shape(&t);
    s2.add_resource_shape(&t);
    check(s2.has_operations() == (k == 7), "add_operation_shape takes exactly operations");
    check(s2.has_resources() == (k == 8), "add_resource_shape takes exactly resources");
});
entry!(h_c07_operation, {
    let mut o = Operation::default();
    check(!o.has_input() & !o.has_output() & !o.has_errors(), "a new operation is empty");
    let (a, b, q) = (tgt(), tgt(), tgt());
    let which = choose(3);
    let mut d = Op::default();
    match which {
        0 => {
            o.set_input(a.id());
            d.input = Some(a.clone());
        }
        1 => {
            o.set_output(a.id());
            d.output = Some(a.clone());
        }
        _ => {
            o.add_error(a.id());
            o.append_errors(&[b.id()]);
            d.errors = vec![a.clone(), b.clone()];
        }
    }
    check(o.has_input() == (which == 0), "has_input");
    check(o.has_output() == (which == 1), "has_output");
    check(o.has_errors() == (which == 2), "has_errors");
    check_kind(&ShapeKind::Operation(o.clone()), &Kd::Operation(d.clone()), Lax::default());
    match which {
        0 => o.unset_input(),
        1 => o.unset_output(),
        _ => {
            o.remove_error(&q.id());
            d.errors.retain(|e| !e.same(&q));
            check_kind(&ShapeKind::Operation(o.clone()), &Kd::Operation(d.clone()), Lax::default());
            check(o.has_errors() == !d.errors.is_empty(), "has_errors after removal");
            o.set_errors(&[]);
        }
    }
    check(!o.has_input() & !o.has_output() & !o.has_errors(), "nothing is left");
    // set_x_shape refuses operations, resources, services and unresolved shapes
    let k = choose(10);
    let t = TopLevelShape::new(q.id(), to_kind(&some_kind(k)));
    o.set_input_shape(&t);
    o.set_output_shape(&t);
    o.add_error_shape(&t);
    let want = k < 6;
    check((o.has_input() == want) & (o.has_output() == want) & (o.has_errors() == want), "only data shapes become input, output or error");
    reach("operation");
});
entry!(h_c07_resource, {
    let mut r = Resource::default();
    check(!r.has_identifiers() & !r.has_any_resource_operation() & !r.has_operations() & !r.has_collection_operations() & !r.has_resources(), "a new resource is empty");
    let (a, n, q) = (tgt(), name1(), name1());
    let which = choose(10) as usize;
    let mut d = Res::default();
    match which {
        0 => r.set_create(a.id()),
        1 => r.set_put(a.id()),
        2 => r.set_read(a.id()),
        3 => r.set_update(a.id()),
        4 => r.set_delete(a.id()),
        5 => r.set_list(a.id()),
        6 => r.add_operation(a.id()),
        7 => r.add_collection_operation(a.id()),
        8 => r.add_resource(a.id()),
        _ => check(r.add_identifier(Identifier::new_unchecked(&n), a.id()).is_none(), "a first identifier replaces nothing"),
    }
    match which {
        0..=5 => d.slots[which] = Some(a.clone()),
        6 => d.ops = vec![a.clone()],
        7 => d.cops = vec![a.clone()],
        8 => d.res = vec![a.clone()],
        _ => d.ids = vec![(n.clone(), a.clone())],
    }
    let has = [r.has_create(), r.has_put(), r.has_read(), r.has_update(), r.has_delete(), r.has_list(), r.has_operations(), r.has_collection_operations(), r.has_resources(), r.has_identifiers()];
    for i in 0..10 {
        check(has[i] == (i == which), "has_x is true exactly for what was set");
    }
    check(r.has_any_resource_operation() == (which < 6), "has_any_resource_operation");
    check_kind(&ShapeKind::Resource(r.clone()), &Kd::Resource(d), Lax::default());
    let qi = Identifier::new_unchecked(&q);
    let hit = (which == 9) & eq_nocase(n.as_bytes(), q.as_bytes());
    check(r.has_identifier(&qi) == hit, "has_identifier");
    check(r.identifier(&qi).is_some() == hit, "identifier");
    let x = r.remove_identifier(&qi);
    check(x.is_some() == hit, "remove_identifier returns what was stored");
    if let Some(x) = x {
        check(is_id(&x, &a), "the removed identifier is the stored one");
        check(!r.has_identifiers(), "has_identifiers after removal");
        reach("removed");
    }
    let o = tgt();
    match which {
        0 => r.unset_create(),
        1 => r.unset_put(),
        2 => r.unset_read(),
        3 => r.unset_update(),
        4 => r.unset_delete(),
        5 => r.unset_list(),
        6 => {
            r.remove_operation(&o.id());
            check(r.has_operations() == !o.same(&a), "remove_operation removes exactly that operation");
        }
        7 => {
            r.remove_collection_operation(&o.id());
            check(r.has_collection_operations() == !o.same(&a), "remove_collection_operation removes exactly that operation");
        }
        8 => {
            r.remove_resource(&o.id());
            check(r.has_resources() == !o.same(&a), "remove_resource removes exactly that resource");
        }
        _ => (),
    }
    check(!r.has_any_resource_operation(), "an unset slot is empty");
    reach("resource");
});
entry!(h_c07_resource_shapes, {
    // the setters taking a shape accept exactly operations (resources)
    let k = choose(10);
    let t = TopLevelShape::new(tgt().id(), to_kind(&some_kind(k)));
    let mut r = Resource::default();
    r.set_create_operation_shape(&t);
    r.set_put_operation_shape(&t);
    r.set_read_operation_shape(&t);
    r.set_update_operation_shape(&t);
    r.set_delete_operation_shape(&t);
    r.set_list_operation_shape(&t);
    r.add_operation_shape(&t);
    r.add_collection_operation_shape(&t);
    r.add_resource_shape(&t);
    let has = [r.has_create(), r.has_put(), r.has_read(), r.has_update(), r.has_delete(), r.has_list(), r.has_operations(), r.has_collection_operations()];
    for h in has {
        check(h == (k == 7), "an operation slot takes exactly operations");
    }
    check(r.has_resources() == (k == 8), "a resource slot takes exactly resources");
    if k == 7 {
        for x in [r.create(), r.put(), r.read(), r.update(), r.delete(), r.list()] {
            check(x.as_ref() == Some(t.id()), "the slot holds that operation");
        }
        reach("operation");
    }
});
entry!(h_c07_traits, {
    let (a, b, q) = (Id::new("a.b", &name1()), Id::new("a.b", &name1()), Id::new("a.b", &name1()));
    assume(!a.same(&b));
    let mut m = MemberShape::new(Identifier::new_unchecked("m"), tgt().id());
    let mut s = TopLevelShape::new(tgt().id(), ShapeKind::Unresolved);
    check(!m.has_traits() & !s.has_traits(), "no traits at first");
    let v = Some(V::S(ascii(1)));
    let _ = m.apply_with_value(a.id(), v.as_ref().map(to_value));
    let _ = m.apply(b.id());
    let _ = s.apply_with_value(a.id(), v.as_ref().map(to_value));
    let _ = s.apply(b.id());
    let all: Vec<Tr> = vec![(a.clone(), v), (b.clone(), None)];
    let hit = q.same(&a) | q.same(&b);
    check((m.has_trait(&q.id()) == hit) & (s.has_trait(&q.id()) == hit), "has_trait");
    check((m.trait_named(&q.id()).is_some() == hit) & (s.trait_named(&q.id()).is_some() == hit), "trait_named");
    m.remove_trait(&q.id());
    s.remove_trait(&q.id());
    let left: Vec<Tr> = all.iter().filter(|t| !t.0.same(&q)).cloned().collect();
    check_traits(m.traits(), &left, Lax::default());
    check_traits(s.traits(), &left, Lax::default());
    check(m.has_traits() & s.has_traits(), "the other trait remains");
    check(!m.has_trait(&q.id()) & !s.has_trait(&q.id()), "the removed trait is gone");
    reach(if left.len() == 1 { "removed" } else { "absent" });
});

// ------------------------------------------------------------------------------------------ C08

fn c08(n: usize) {
    let mut d: Vec<Sh> = vec![];
    let mut unresolved = 0;
    for _ in 0..n {
        let id = Id { ns: name1(), name: name1() };
        let k = match choose(3) {
            0 => {
                unresolved += 1;
                Kd::Unresolved
            }
            1 => Kd::Simple(Simple::Boolean),
            _ => Kd::Struct(vec![]),
        };
        for s in &d {
            assume(!s.id.same(&id));
        }
        d.push(Sh::new(&id, k));
    }
    let m = to_model(&d);
    check(m.is_complete() == (unresolved == 0), "is_complete exactly when no shape is unresolved");
    check(m.shape_names().count() + m.unresolved_shape_names().count() == n, "shape_names and unresolved_shape_names partition the shapes");
    check(m.unresolved_shape_names().count() == unresolved, "unresolved_shape_names are the unresolved shapes");
    let nss = m.namespaces();
    for s in &d {
        let u = matches!(s.kind, Kd::Unresolved);
        check(m.shape_names().any(|i| is_id(i, &s.id)) == !u, "a defined shape is named by shape_names only");
        check(m.unresolved_shape_names().any(|i| is_id(i, &s.id)) == u, "an unresolved shape is named by unresolved_shape_names only");
        let mut want = false;
        for t in &d {
            if !matches!(t.kind, Kd::Unresolved) {
                want = want | eq_nocase(t.id.ns.as_bytes(), s.id.ns.as_bytes());
            }
        }
        let mut got = false;
        for x in &nss {
            got = got | eq_nocase(x.to_string().as_bytes(), s.id.ns.as_bytes());
        }
        check(want == got, "namespaces holds exactly the namespaces of the defined shapes");
    }
    // no more namespaces than those of the defined shapes
    let mut distinct: Vec<&String> = vec![];
    for t in &d {
        if !matches!(t.kind, Kd::Unresolved) {
            let mut seen = false;
            for x in &distinct {
                if eq_nocase(x.as_bytes(), t.id.ns.as_bytes()) {
                    seen = true;
                }
            }
            if !seen {
                distinct.push(&t.id.ns);
            }
        }
    }
    check(nss.len() == distinct.len(), "each namespace appears once");
    reach(if unresolved == 0 { "complete" } else { "incomplete" });
}
fn c08_named(d: Vec<Sh>) {
    let m = to_model(&d);
    let (un, de): (Vec<&Sh>, Vec<&Sh>) = d.iter().partition(|s| matches!(s.kind, Kd::Unresolved));
    check(m.is_complete() == un.is_empty(), "is_complete exactly when no shape is unresolved");
    check(m.shape_names().count() == de.len() && de.iter().all(|s| m.shape_names().any(|i| is_id(i, &s.id))), "shape_names are the defined shapes");
    check(m.unresolved_shape_names().count() == un.len() && un.iter().all(|s| m.unresolved_shape_names().any(|i| is_id(i, &s.id))), "unresolved_shape_names are the unresolved shapes");
    let mut ns: Vec<String> = de.iter().map(|s| s.id.ns.clone()).collect();
    ns.sort();
    ns.dedup();
    let got = m.namespaces();
    check(got.len() == ns.len() && ns.iter().all(|n| got.iter().any(|g| g.to_string() == *n)), "namespaces holds exactly the namespaces of the defined shapes");
    reach(if un.is_empty() { "complete" } else { "incomplete" });
}
entry!(h_c08_many, {
    // eight shapes, each of six of which may be unresolved, in four namespaces of one or more segments
    let nss = ["a", "a.b", "a.b.c", "b.a"];
    let mut d: Vec<Sh> = (0..6).map(|i| Sh::new(&Id::new(nss[i % 4], &format!("S{}", i)), if pick(2) == 1 { Kd::Unresolved } else { crate::actions::bare(i as u32) })).collect();
    d.push(Sh { id: Id::new("c.d", "T"), traits: vec![(Id::new("e.f", "t"), None)], kind: Kd::Service(Svc { version: "1".to_string(), ops: vec![Id::new("g.h", "O")], ..Svc::default() }) });
    d.push(Sh { id: Id::new("a", "U"), traits: vec![(Id::new("e.f", "t"), None)], kind: if pick(2) == 1 { Kd::Unresolved } else { Kd::Simple(Simple::Blob) } });
    c08_named(d);
});
entry!(h_c08_two, { c08(2) });
entry!(h_c08_three, { c08(3) });
entry!(h_c08_empty, {
    let m = Model::default();
    check(m.is_complete() & m.namespaces().is_empty() & (m.shape_names().count() == 0) & (m.unresolved_shape_names().count() == 0), "an empty model is complete");
    let mut m = Model::default();
    let id = Id { ns: name1(), name: name1() };
    check(m.add_shape(to_shape(&Sh::new(&id, Kd::Unresolved))).is_ok(), "added");
    check(!m.is_complete(), "one unresolved shape makes the model incomplete");
    check(m.add_shape(to_shape(&Sh::new(&id, Kd::Simple(Simple::Blob)))).is_ok(), "resolved");
    check(m.is_complete() & (m.shape_names().count() == 1), "resolving it completes the model");
    if let Some(s) = m.shape_mut(&id.id()) {
        s.set_body(ShapeKind::Unresolved);
    }
    check(!m.is_complete() & (m.shape_names().count() == 0), "is_complete reflects the current bodies");
    reach("resolved");
});

// ------------------------------------------------------------------------------------------ C19

fn one_variant(v: &Value, k: usize) {
    let is = [v.is_array(), v.is_object(), v.is_number(), v.is_boolean(), v.is_string(), v.is_none()];
    let has = [v.as_array().is_some(), v.as_object().is_some(), v.as_number().is_some(), v.as_boolean().is_some(), v.as_string().is_some()];
    for i in 0..6 {
        check(is[i] == (i == k), "is_x is true for exactly the variant held");
        if i < 5 {
            check(has[i] == (i == k), "as_x is Some for exactly the variant held");
        }
    }
}
entry!(h_c19_ints, {
    let x = any_u64() as i64;
    let (v, n, want) = match choose(4) {
        0 => (Value::from(x as i8), Number::from(x as i8), (x as i8) as i64),
        1 => (Value::from(x as i16), Number::from(x as i16), (x as i16) as i64),
        2 => (Value::from(x as i32), Number::from(x as i32), (x as i32) as i64),
        _ => (Value::from(x), Number::from(x), x),
    };
    check(matches!(n, Number::Integer(i) if i == want), "an integer keeps its value");
    check(matches!(v, Value::Number(Number::Integer(i)) if i == want), "an integer value keeps its value");
    check(matches!(v.as_number(), Some(Number::Integer(i)) if *i == want), "as_number returns the stored integer");
    check(matches!(Value::from(n), Value::Number(Number::Integer(i)) if i == want), "From<Number>");
    one_variant(&v, 2);
    reach("int");
});
entry!(h_c19_floats, {
    // the bit pattern is symbolic for f64; f32 widens, checked on representative patterns
    let b = any_u64();
    let f = f64::from_bits(b);
    check(matches!(Value::from(f), Value::Number(Number::Float(g)) if g.to_bits() == b), "f64 keeps its bits");
    check(matches!(Number::from(f), Number::Float(g) if g.to_bits() == b), "f64 keeps its bits as a number");
    one_variant(&Value::from(f), 2);
    let t = [0.0f32, -0.0, 1.5, -3.25, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, 1.0e-45];
    let g = t[choose(8) as usize];
    check(matches!(Value::from(g), Value::Number(Number::Float(h)) if h.to_bits() == (g as f64).to_bits()), "f32 widens exactly");
    check(matches!(Number::from(g), Number::Float(h) if h.to_bits() == (g as f64).to_bits()), "f32 widens exactly as a number");
    reach("float");
});
entry!(h_c19_text, {
    let s = utf8(choose(4) as usize);
    for v in [Value::from(s.as_str()), Value::from(s.clone())] {
        one_variant(&v, 4);
        check(matches!(v.as_string(), Some(t) if eq_bytes(t.as_bytes(), s.as_bytes())), "a string keeps every byte");
    }
    let id = Id::new(&name1(), &name1());
    for v in [Value::from(id.id()), Value::from(&id.id())] {
        one_variant(&v, 4);
        check(matches!(v.as_string(), Some(t) if eq_bytes(t.as_bytes(), id.text().as_bytes())), "a shape ID becomes its text");
    }
    let b = any_bool();
    let v = Value::from(b);
    one_variant(&v, 3);
    check(v.as_boolean() == Some(&b), "a boolean keeps its value");
    one_variant(&Value::None, 5);
    reach("text");
});
entry!(h_c19_composite, {
    let (a, b) = (any_value(1), any_scalar());
    let d = V::A(vec![a.clone(), b.clone()]);
    let l = vec![to_value(&a), to_value(&b)];
    for v in [Value::from(l.clone()), Value::from(&l[..])] {
        one_variant(&v, 0);
        check(is_value(&v, &d), "an array keeps its elements in order");
        check(matches!(v.as_array(), Some(x) if x.len() == 2), "as_array");
    }
    let k = ascii(1);
    let v = Value::from([(k.clone(), to_value(&a))].into_iter().collect::<std::collections::HashMap<_, _>>());
    one_variant(&v, 1);
    check(is_value(&v, &V::O(vec![(k, a)])), "an object keeps its entries");
    reach("composite");
});
entry!(h_c19_many, {
    // arrays of nine and objects of five values that differ in at most one place
    let (x, y) = (any_scalar(), any_scalar());
    let at = choose(9) as usize;
    let mk = |v: &V| V::A((0..9).map(|i| if i == at { v.clone() } else { V::O(vec![("k".to_string(), V::I(i as i64))]) }).collect());
    let ob = |v: &V| V::O((0..5).map(|i| (format!("k{}", i), if i == at % 5 { v.clone() } else { V::A(vec![V::I(i as i64), V::N]) })).collect());
    let (a, b) = if choose(2) == 0 { (mk(&x), mk(&y)) } else { (ob(&x), ob(&y)) };
    let want = same_v(&x, &y);
    check((to_value(&a) == to_value(&b)) == want, "equality of values is structural");
    check(is_value(&to_value(&a), &a), "a value keeps its content");
    reach(if want { "equal" } else { "different" });
});
entry!(h_c19_eq, {
    let (a, b) = (any_value(1), any_value(1));
    let (x, y) = (to_value(&a), to_value(&b));
    let want = same_v(&a, &b);
    check((x == y) == want, "equality of values is structural");
    check((y == x) == want, "equality of values is symmetric");
    check(x == x.clone(), "a clone is equal");
    reach(if want { "equal" } else { "different" });
});
