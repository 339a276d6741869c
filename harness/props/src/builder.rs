//! C09..C11: the model builder.
use crate::desc::*;
use crate::gen::*;
use crate::model::{apply_tr, some_kind, tgt};
use atelier_core::builder::traits as tr;
use atelier_core::builder::traits::ErrorSource;
use atelier_core::builder::{
    ArrayBuilder, ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, ObjectBuilder, OperationBuilder, ReferenceBuilder, ResourceBuilder, ServiceBuilder, ShapeTraits, SimpleShapeBuilder,
    StructureBuilder, TraitBuilder, ValueBuilder,
};
use atelier_core::error::ErrorKind;
use atelier_core::model::shapes::*;
use atelier_core::model::values::{Number, Value};
use atelier_core::model::{Model, ShapeID};
use atelier_core::Version;
use std::convert::TryFrom;

const NS: &str = "my.ns";

// ------------------------------------------------------------------------------------------ C09

/// A name of 4 characters, the first and last of which are symbolic: `_lo_` or `_ut_`.
fn b4(mid: &str) -> String {
    let c = bytes::<2>();
    assume(is_alpha(c[0]) & is_word(c[1]));
    format!("{}{}{}", c[0] as char, mid, c[1] as char)
}
fn nocase(a: &str, b: &str) -> bool {
    eq_nocase(a.as_bytes(), b.as_bytes())
}
fn is_one_of(t: &str, l: &[&str]) -> bool {
    let mut r = false;
    for x in l {
        r = r | eq_bytes(t.as_bytes(), x.as_bytes());
    }
    r
}
/// Equal to one of the names, but only when case is ignored.
fn near_one_of(t: &str, l: &[&str]) -> bool {
    let mut r = false;
    for x in l {
        r = r | (nocase(t, x) & !eq_bytes(t.as_bytes(), x.as_bytes()));
    }
    r
}
// the names of 4 letters of the Smithy 1.0 prelude
const SHAPES4: [&str; 3] = ["Blob", "Byte", "Long"];
const TRAITS4: [&str; 5] = ["auth", "cors", "enum", "http", "tags"];

const SLOTN: u32 = 22;
/// Adds to the builder a shape `Src` that refers to `t` in slot `s`.
fn refer(mb: &mut ModelBuilder, s: u32, t: &str) {
    let api = "smithy.api#String";
    match s {
        0 => drop(mb.list(ListBuilder::new("Src", t))),
        1 => drop(mb.set(ListBuilder::new("Src", t))),
        2 => drop(mb.map(MapBuilder::new("Src", t, api))),
        3 => drop(mb.map(MapBuilder::new("Src", api, t))),
        4 => drop(mb.structure(StructureBuilder::new("Src").member("m", t).into())),
        5 => drop(mb.union(StructureBuilder::new("Src").add_member(MemberBuilder::new("m", t)).into())),
        6 => drop(mb.operation(OperationBuilder::new("Src").input(t).into())),
        7 => drop(mb.operation(OperationBuilder::new("Src").output(t).into())),
        8 => drop(mb.operation(OperationBuilder::new("Src").error(t).into())),
        9 => drop(mb.resource(ResourceBuilder::new("Src").identifier("m", t).into())),
        10 => drop(mb.resource(ResourceBuilder::new("Src").create(t).into())),
        11 => drop(mb.resource(ResourceBuilder::new("Src").put(t).into())),
        12 => drop(mb.resource(ResourceBuilder::new("Src").read(t).into())),
        13 => drop(mb.resource(ResourceBuilder::new("Src").update(t).into())),
        14 => drop(mb.resource(ResourceBuilder::new("Src").delete(t).into())),
        15 => drop(mb.resource(ResourceBuilder::new("Src").list(t).into())),
        16 => drop(mb.resource(ResourceBuilder::new("Src").operation(t).into())),
        17 => drop(mb.resource(ResourceBuilder::new("Src").collection_operation(t).into())),
        18 => drop(mb.resource(ResourceBuilder::new("Src").resource(t).into())),
        19 => drop(mb.service(ServiceBuilder::new("Src", "1").operation(t).into())),
        20 => drop(mb.service(ServiceBuilder::new("Src", "1").resource(t).into())),
        _ => {
            let mut l = ListBuilder::new("Src", api);
            l.target(MemberBuilder::new("member", t));
            drop(mb.list(l))
        }
    }
}
/// The ID in slot `s` of the built shape.
fn referred(k: &ShapeKind, s: u32) -> Option<ShapeID> {
    match (k, s) {
        (ShapeKind::List(l), 0) | (ShapeKind::Set(l), 1) | (ShapeKind::List(l), 21) => Some(l.member().target().clone()),
        (ShapeKind::Map(m), 2) => Some(m.key().target().clone()),
        (ShapeKind::Map(m), 3) => Some(m.value().target().clone()),
        (ShapeKind::Structure(m), 4) | (ShapeKind::Union(m), 5) => m.members().next().map(|m| m.target().clone()),
        (ShapeKind::Operation(o), 6) => o.input().clone(),
        (ShapeKind::Operation(o), 7) => o.output().clone(),
        (ShapeKind::Operation(o), 8) => o.errors().next().cloned(),
        (ShapeKind::Resource(r), 9) => r.identifiers().next().map(|(_, i)| i.clone()),
        (ShapeKind::Resource(r), 10) => r.create().clone(),
        (ShapeKind::Resource(r), 11) => r.put().clone(),
        (ShapeKind::Resource(r), 12) => r.read().clone(),
        (ShapeKind::Resource(r), 13) => r.update().clone(),
        (ShapeKind::Resource(r), 14) => r.delete().clone(),
        (ShapeKind::Resource(r), 15) => r.list().clone(),
        (ShapeKind::Resource(r), 16) => r.operations().next().cloned(),
        (ShapeKind::Resource(r), 17) => r.collection_operations().next().cloned(),
        (ShapeKind::Resource(r), 18) => r.resources().next().cloned(),
        (ShapeKind::Service(r), 19) => r.operations().next().cloned(),
        (ShapeKind::Service(r), 20) => r.resources().next().cloned(),
        _ => None,
    }
}
/// A trait application `t` on the shape, or on the only member, of a structure `Src`.
fn refer_trait(mb: &mut ModelBuilder, on_member: bool, t: &str) {
    let mut m = MemberBuilder::new("m", "smithy.api#String");
    let mut s = StructureBuilder::new("Src");
    if on_member {
        m.apply_trait(TraitBuilder::new(t));
    } else {
        s.apply_trait(TraitBuilder::new(t));
    }
    s.add_member(m);
    mb.structure(s);
}
fn referred_trait(s: &TopLevelShape, on_member: bool) -> Option<ShapeID> {
    if on_member {
        match s.body() {
            ShapeKind::Structure(b) => b.members().next().and_then(|m| m.traits().keys().next().cloned()),
            _ => None,
        }
    } else {
        s.traits().keys().next().cloned()
    }
}
struct Scope {
    imports: Vec<Id>,
    defined: Vec<String>,
}
/// Where a relative name must lead: the ID and whether it is unresolved; `None` if ambiguous.
fn resolve(sc: &Scope, t: &str, is_trait: bool) -> Option<(Id, bool)> {
    let mut hits: Vec<&Id> = vec![];
    for i in &sc.imports {
        if nocase(&i.name, t) && !hits.iter().any(|h| h.same(i)) {
            hits.push(i);
        }
    }
    if hits.len() > 1 {
        return None;
    }
    if let Some(h) = hits.first() {
        return Some(((*h).clone(), false));
    }
    for d in &sc.defined {
        if nocase(d, t) {
            return Some((Id::new(NS, t), false));
        }
    }
    if is_one_of(t, if is_trait { &TRAITS4 } else { &SHAPES4 }) {
        return Some((Id::api(t), false));
    }
    Some((Id::new(NS, t), true))
}
fn run_scope(sc: &Scope, t: &str, slot: Option<u32>, on_member: bool) {
    let mut mb = ModelBuilder::new(Version::V10, NS);
    for i in &sc.imports {
        mb.uses(&i.text());
    }
    for d in &sc.defined {
        mb.simple_shape(SimpleShapeBuilder::boolean(d));
    }
    match slot {
        Some(s) => refer(&mut mb, s, t),
        None => refer_trait(&mut mb, on_member, t),
    }
    let exp = resolve(sc, t, slot.is_none());
    match (Model::try_from(&mut mb), exp) {
        (Err(e), None) => {
            check(matches!(e.kind(), ErrorKind::AmbiguousShape(_)), "two imports of one name are an AmbiguousShape error");
            reach("ambiguous");
        }
        (Ok(_), None) => check(false, "two imports of one name are an AmbiguousShape error"),
        (Err(_), Some(_)) => check(false, "a name that resolves does not fail"),
        (Ok(m), Some((id, un))) => {
            let src = m.shape(&Id::new(NS, "Src").id());
            check(src.is_some(), "the shape is built");
            let src = src.unwrap();
            let got = match slot {
                Some(s) => referred(src.body(), s),
                None => referred_trait(src, on_member),
            };
            check(got.is_some(), "the reference is kept");
            let got = got.unwrap();
            check(is_id_nocase(&got, &id), "the name resolves by the precedence of scopes");
            check(eq_bytes(got.namespace().to_string().as_bytes(), id.ns.as_bytes()), "to the exact namespace");
            let entry = m.shape(&id.id());
            if un {
                check(matches!(entry, Some(s) if s.is_unresolved()), "an unknown name leaves an unresolved entry");
            }
            let mut n = 1 + sc.defined.len() + un as usize;
            for (k, i) in sc.imports.iter().enumerate() {
                let dup = sc.imports[..k].iter().any(|j| j.same(i));
                n += !dup as usize;
                check(matches!(m.shape(&i.id()), Some(s) if s.is_unresolved()), "an import is an unresolved entry");
            }
            check(m.shapes().count() == n, "nothing else is added");
            reach(if un { "unknown" } else if eq_bytes(id.ns.as_bytes(), NS.as_bytes()) { "defined" } else if eq_bytes(id.ns.as_bytes(), b"smithy.api") { "prelude" } else { "imported" });
        }
    }
}
fn is_id_nocase(s: &ShapeID, d: &Id) -> bool {
    !s.is_member() & nocase(&s.namespace().to_string(), &d.ns) & nocase(&s.shape_name().to_string(), &d.name)
}
/// Imports and definitions of names around `t`; no import names a definition.
fn any_scope(t: &str, imports: u32, defs: u32) -> Scope {
    let mut sc = Scope { imports: vec![], defined: vec![] };
    for i in 0..choose(imports + 1) {
        let ns = if i > 0 && any_bool() { "in.b" } else { "in.a" };
        sc.imports.push(Id::new(ns, &b4(t)));
    }
    for _ in 0..choose(defs + 1) {
        let d = b4(t);
        for i in &sc.imports {
            assume(!nocase(&i.name, &d));
        }
        for e in &sc.defined {
            assume(!nocase(e, &d));
        }
        sc.defined.push(d);
    }
    sc
}
entry!(h_c09_target, {
    let t = b4("lo");
    assume(!near_one_of(&t, &SHAPES4));
    let sc = any_scope("lo", 1, 1);
    run_scope(&sc, &t, Some(4), false);
});
entry!(h_c09_imports, {
    let t = b4("lo");
    assume(!near_one_of(&t, &SHAPES4));
    let sc = any_scope("lo", 2, 0);
    run_scope(&sc, &t, Some(0), false);
});
entry!(h_c09_trait, {
    let t = b4("ut");
    assume(!near_one_of(&t, &TRAITS4));
    let sc = any_scope("ut", 1, 1);
    run_scope(&sc, &t, None, any_bool());
});
entry!(h_c09_slots, {
    // every slot: a name of 4 characters that is defined, imported, of the prelude or unknown
    let s = choose(SLOTN);
    let t = b4("lo");
    assume(!near_one_of(&t, &SHAPES4));
    let sc = match choose(3) {
        0 => Scope { imports: vec![], defined: vec![t.clone()] },
        1 => Scope { imports: vec![Id::new("in.a", &t)], defined: vec![] },
        _ => Scope { imports: vec![], defined: vec![] },
    };
    run_scope(&sc, &t, Some(s), false);
});
// the shapes and traits of the Smithy 1.0 prelude
const PRELUDE_SHAPES: [&str; 20] = [
    "String", "Blob", "BigInteger", "BigDecimal", "Timestamp", "Document", "Boolean", "PrimitiveBoolean", "Byte", "PrimitiveByte", "Short", "PrimitiveShort", "Integer", "PrimitiveInteger", "Long",
    "PrimitiveLong", "Float", "PrimitiveFloat", "Double", "PrimitiveDouble",
];
const PRELUDE_TRAITS: [&str; 57] = [
    "auth", "authDefinition", "box", "cors", "deprecated", "documentation", "endpoint", "enum", "error", "eventHeader", "eventPayload", "examples", "externalDocumentation", "hostLabel", "http",
    "httpApiKeyAuth", "httpBasicAuth", "httpBearerAuth", "httpChecksumRequired", "httpDigestAuth", "httpError", "httpHeader", "httpLabel", "httpPayload", "httpPrefixHeaders", "httpQuery", "idRef",
    "idempotencyToken", "idempotent", "jsonName", "length", "mediaType", "noReplace", "optionalAuth", "paginated", "pattern", "private", "protocolDefinition", "range", "readonly", "recommended",
    "references", "required", "requiresLength", "resourceIdentifier", "retryable", "sensitive", "since", "streaming", "suppress", "tags", "timestampFormat", "title", "trait", "uniqueItems",
    "unstable", "xmlName",
];
entry!(h_c09_prelude, {
    // every name of the prelude, alone, one letter changed, and as the other sort of name
    let is_trait = any_bool();
    let names: &[&str] = if is_trait { &PRELUDE_TRAITS } else { &PRELUDE_SHAPES };
    let n = names[choose(names.len() as u32) as usize];
    let mut t = n.as_bytes().to_vec();
    let c = bytes::<1>();
    assume(is_word(c[0]));
    let last = t.len() - 1;
    let same = c[0] == t[last];
    assume(same | (lower(c[0]) != lower(t[last])));
    t[last] = c[0];
    let t = text(&t);
    if !same {
        assume(!is_one_of(&t, names));
    }
    let mut mb = ModelBuilder::new(Version::V10, NS);
    if is_trait {
        refer_trait(&mut mb, false, &t);
    } else {
        refer(&mut mb, 4, &t);
    }
    let m = Model::try_from(&mut mb);
    check(m.is_ok(), "the model is built");
    let m = m.unwrap();
    let src = m.shape(&Id::new(NS, "Src").id()).unwrap();
    let got = if is_trait { referred_trait(src, false) } else { referred(src.body(), 4) };
    let want = if same { Id::api(&t) } else { Id::new(NS, &t) };
    check(matches!(&got, Some(g) if is_id(g, &want)), "exactly the names of the prelude resolve to the prelude");
    check(m.is_complete() == same, "only an unknown name is unresolved");
    reach(if same { "prelude" } else { "near" });
});
entry!(h_c09_absolute, {
    // an absolute name is used unchanged, whatever is in scope
    let slot = choose(SLOTN + 1);
    let id = Id::new(&ident(1), &ident(2));
    let mut mb = ModelBuilder::new(Version::V10, NS);
    match choose(3) {
        0 => drop(mb.uses(&Id::new("in.a", &id.name).text())),
        1 => drop(mb.simple_shape(SimpleShapeBuilder::string(&id.name))),
        _ => (),
    }
    if slot == SLOTN {
        refer_trait(&mut mb, any_bool(), &id.text());
    } else {
        refer(&mut mb, slot, &id.text());
    }
    let m = Model::try_from(&mut mb);
    check(m.is_ok(), "the model is built");
    let m = m.unwrap();
    let src = m.shape(&Id::new(NS, "Src").id()).unwrap();
    let got = if slot == SLOTN { referred_trait(src, false).or_else(|| referred_trait(src, true)) } else { referred(src.body(), slot) };
    check(matches!(&got, Some(g) if is_id(g, &id)), "an absolute name is used unchanged");
    reach("absolute");
});
entry!(h_c09_qualified_def, {
    // a shape defined under its absolute ID is a shape of the namespace like any other
    let n = ["Blob", "Other"][choose(2) as usize];
    let mut mb = ModelBuilder::new(Version::V10, NS);
    mb.simple_shape(SimpleShapeBuilder::string(&format!("{}#{}", NS, n)));
    let slot = choose(SLOTN);
    refer(&mut mb, slot, n);
    let m = Model::try_from(&mut mb);
    check(m.is_ok(), "the model is built");
    let m = m.unwrap();
    let got = referred(m.shape(&Id::new(NS, "Src").id()).unwrap().body(), slot);
    check(matches!(&got, Some(g) if is_id(g, &Id::new(NS, n))), "the shape of the current namespace comes before the prelude");
    check(m.is_complete(), "nothing is left unresolved");
    reach("qualified");
});
entry!(h_c09_apply_scope, {
    // applying a trait to a shape of another namespace imports nothing
    let n = ["Blob", "Other"][choose(2) as usize];
    let mut mb = ModelBuilder::new(Version::V10, NS);
    let imported = any_bool();
    let first = any_bool();
    let ap = |mb: &mut ModelBuilder| drop(mb.apply(&format!("in.b#{}", n), TraitBuilder::new("a.b#tr")));
    if first {
        ap(&mut mb);
    }
    if imported {
        mb.uses(&format!("in.a#{}", n));
    }
    if !first {
        ap(&mut mb);
    }
    let slot = choose(SLOTN);
    refer(&mut mb, slot, n);
    let m = Model::try_from(&mut mb);
    check(m.is_ok(), "the model is built");
    let m = m.unwrap();
    let got = referred(m.shape(&Id::new(NS, "Src").id()).unwrap().body(), slot);
    let want = if imported { Id::new("in.a", n) } else if n == "Blob" { Id::api(n) } else { Id::new(NS, n) };
    check(matches!(&got, Some(g) if is_id(g, &want)), "only a use statement imports a shape");
    let t = m.shape(&Id::new("in.b", n).id());
    check(matches!(t, Some(s) if s.is_unresolved() && s.has_trait(&Id::new("a.b", "tr").id())), "the trait is applied to the shape named");
    reach("scope");
});

// ------------------------------------------------------------------------------------------ C10

fn to_trait(t: &Tr) -> TraitBuilder {
    let at_once = t.1.is_some() && any_bool();
    to_trait_by(t, at_once)
}
fn to_trait_by(t: &Tr, at_once: bool) -> TraitBuilder {
    match &t.1 {
        None => TraitBuilder::new(&t.0.text()),
        Some(v) => {
            if at_once {
                TraitBuilder::with_value(&t.0.text(), to_value(v))
            } else {
                let mut b = TraitBuilder::new(&t.0.text());
                match v {
                    V::S(s) => drop(b.string(s)),
                    V::I(i) => drop(b.integer(*i)),
                    V::B(x) => drop(b.boolean(*x)),
                    V::F(x) => drop(b.float(*x)),
                    _ => drop(b.value(to_value(v))),
                }
                b
            }
        }
    }
}
fn with_traits<B: ShapeTraits>(b: &mut B, t: &[Tr]) {
    for (i, x) in t.iter().enumerate() {
        // all the ways to make them for a few, turns for many
        b.apply_trait(if t.len() > 2 { to_trait_by(x, i % 2 == 0) } else { to_trait(x) });
    }
}
fn to_mb(m: &Mem) -> MemberBuilder {
    let mut b = MemberBuilder::new(&m.name, &m.target.text());
    with_traits(&mut b, &m.traits);
    b
}
fn fill_struct(b: &mut StructureBuilder, ms: &[Mem]) {
    for m in ms {
        if m.traits.is_empty() && any_bool() {
            b.member(&m.name, &m.target.text());
        } else {
            b.add_member(to_mb(m));
        }
    }
}
/// The builder program of a description; shapes of the default namespace may be named relatively.
fn put(mb: &mut ModelBuilder, s: &Sh, relative: bool) {
    let id = if relative { s.id.name.clone() } else { s.id.text() };
    let txt = |v: &[Id]| v.iter().map(|i| i.text()).collect::<Vec<String>>();
    match &s.kind {
        Kd::Simple(k) => {
            let mut b = SimpleShapeBuilder::new(&id, k.clone());
            with_traits(&mut b, &s.traits);
            mb.simple_shape(b);
        }
        Kd::List(m) | Kd::Set(m) => {
            let mut b = if any_bool() { ListBuilder::new(&id, &m.target.text()) } else { ListBuilder::new(&id, "smithy.api#Blob") };
            b.target(to_mb(m));
            with_traits(&mut b, &s.traits);
            if matches!(s.kind, Kd::List(_)) {
                mb.list(b);
            } else {
                mb.set(b);
            }
        }
        Kd::Map(k, v) => {
            let mut b = MapBuilder::new(&id, &k.target.text(), &v.target.text());
            if any_bool() {
                b.key(to_mb(k));
                b.value(to_mb(v));
            } else {
                assume(k.traits.is_empty() && v.traits.is_empty());
            }
            with_traits(&mut b, &s.traits);
            mb.map(b);
        }
        Kd::Struct(ms) => {
            let mut b = StructureBuilder::new(&id);
            fill_struct(&mut b, ms);
            with_traits(&mut b, &s.traits);
            mb.structure(b);
        }
        Kd::Union(ms) => {
            let mut b = StructureBuilder::new(&id);
            fill_struct(&mut b, ms);
            with_traits(&mut b, &s.traits);
            mb.union(b);
        }
        Kd::Service(d) => {
            let mut b = ServiceBuilder::new(&id, if any_bool() { "x" } else { &d.version });
            b.version(&d.version);
            let (o, r) = (txt(&d.ops), txt(&d.res));
            if any_bool() {
                b.operations(&o.iter().map(|x| x.as_str()).collect::<Vec<&str>>());
                b.resources(&r.iter().map(|x| x.as_str()).collect::<Vec<&str>>());
            } else {
                o.iter().for_each(|x| drop(b.operation(x)));
                r.iter().for_each(|x| drop(b.resource(x)));
            }
            for (i, n) in &d.renames {
                b.rename(&i.text(), n);
            }
            with_traits(&mut b, &s.traits);
            mb.service(b);
        }
        Kd::Operation(d) => {
            let mut b = OperationBuilder::new(&id);
            d.input.iter().for_each(|x| drop(b.input(&x.text())));
            d.output.iter().for_each(|x| drop(b.output(&x.text())));
            let e = txt(&d.errors);
            if any_bool() {
                b.errors(&e.iter().map(|x| x.as_str()).collect::<Vec<&str>>());
            } else {
                e.iter().for_each(|x| drop(b.error(x)));
            }
            with_traits(&mut b, &s.traits);
            mb.operation(b);
        }
        Kd::Resource(d) => {
            let mut b = ResourceBuilder::new(&id);
            for (n, i) in &d.ids {
                b.identifier(n, &i.text());
            }
            for (k, x) in d.slots.iter().enumerate() {
                if let Some(x) = x {
                    let x = &x.text();
                    match k {
                        0 => b.create(x),
                        1 => b.put(x),
                        2 => b.read(x),
                        3 => b.update(x),
                        4 => b.delete(x),
                        _ => b.list(x),
                    };
                }
            }
            let (o, c, r) = (txt(&d.ops), txt(&d.cops), txt(&d.res));
            if any_bool() {
                b.operations(&o.iter().map(|x| x.as_str()).collect::<Vec<&str>>());
                b.collection_operations(&c.iter().map(|x| x.as_str()).collect::<Vec<&str>>());
                b.resources(&r.iter().map(|x| x.as_str()).collect::<Vec<&str>>());
            } else {
                o.iter().for_each(|x| drop(b.operation(x)));
                c.iter().for_each(|x| drop(b.collection_operation(x)));
                r.iter().for_each(|x| drop(b.resource(x)));
            }
            with_traits(&mut b, &s.traits);
            mb.resource(b);
        }
        Kd::Unresolved => {
            let mut b = ReferenceBuilder::new(&s.id.text());
            with_traits(&mut b, &s.traits);
            mb.reference(b);
        }
    }
}
/// A full definition of kind `k`: every slot filled, every target symbolic.
pub fn rich(k: u32) -> Kd {
    // one of the targets has a symbolic letter, the others tell the slots apart
    let t = |c: char| {
        if c == 'A' {
            let x = bytes::<1>();
            assume(is_alpha(x[0]));
            Id::new("t.t", &format!("A{}", x[0] as char))
        } else {
            Id::new("t.t", &c.to_string())
        }
    };
    let mt = |n: &str, c: char| Mem { name: n.to_string(), target: t(c), traits: vec![(Id::new("a.b", "tr"), Some(V::S(ascii(1))))] };
    match k {
        0 => Kd::Simple(SIMPLES[choose(13) as usize].clone()),
        1 => Kd::List(mt("member", 'A')),
        2 => Kd::Set(mt("member", 'A')),
        3 => Kd::Map(mt("key", 'A'), mt("value", 'B')),
        4 => Kd::Struct(vec![mt("a", 'A'), mt("b", 'B')]),
        5 => Kd::Union(vec![mt("a", 'A'), mt("b", 'B')]),
        6 => Kd::Service(Svc { version: name1(), ops: vec![t('A'), t('B')], res: vec![t('C')], renames: vec![(t('D'), "Ren".to_string())] }),
        7 => Kd::Operation(Op { input: Some(t('A')), output: Some(t('B')), errors: vec![t('C'), t('D')] }),
        8 => {
            let mut r = Res::default();
            let absent = choose(7) as usize;
            for (i, c) in ['A', 'B', 'C', 'D', 'E', 'F'].iter().enumerate() {
                r.slots[i] = if i != absent { Some(Id::new("t.t", &format!("{}x", c))) } else { None };
            }
            r.ids = vec![("i".to_string(), t('G'))];
            r.ops = vec![t('H')];
            r.cops = vec![t('I')];
            r.res = vec![t('J')];
            Kd::Resource(r)
        }
        _ => Kd::Unresolved,
    }
}
/// A definition of kind `k` in which every slot refers to the one shape `i`.
pub fn one(k: u32, i: &Id) -> Kd {
    let mt = |n: &str| Mem { name: n.to_string(), target: i.clone(), traits: vec![(i.clone(), None)] };
    match k {
        0 => Kd::Simple(Simple::Blob),
        1 => Kd::List(mt("member")),
        2 => Kd::Set(mt("member")),
        3 => Kd::Map(mt("key"), mt("value")),
        4 => Kd::Struct(vec![mt("a"), mt("b")]),
        5 => Kd::Union(vec![mt("a"), mt("b")]),
        6 => Kd::Service(Svc {
            version: "1".to_string(),
            ops: vec![i.clone()],
            res: vec![i.clone()],
            renames: vec![(i.clone(), "Ren".to_string()), (Id::new("u.u", "U"), "Other".to_string())],
        }),
        7 => Kd::Operation(Op { input: Some(i.clone()), output: Some(i.clone()), errors: vec![i.clone()] }),
        8 => {
            let mut r = Res::default();
            for s in r.slots.iter_mut() {
                *s = Some(i.clone());
            }
            r.ids = vec![("a".to_string(), i.clone()), ("b".to_string(), i.clone())];
            r.ops = vec![i.clone()];
            r.cops = vec![i.clone()];
            r.res = vec![i.clone()];
            Kd::Resource(r)
        }
        _ => Kd::Unresolved,
    }
}
/// A shape of each kind with six of everything it may have several of, and traits of every form.
pub fn wide(ns: &str) -> Vec<Sh> {
    wide_with(ns, &named('q'))
}
pub fn wide_with(ns: &str, c: &str) -> Vec<Sh> {
    let t = |i: usize| Id::new("t.t", &format!("T{}", i));
    let six = |o: usize| (o..o + 6).map(t).collect::<Vec<Id>>();
    let txt = |x: &str| V::S(x.to_string());
    let deep = V::O(vec![
        ("a".to_string(), V::A((0..12).map(V::I).collect())),
        ("b".to_string(), V::O(vec![("c".to_string(), V::A(vec![V::A(vec![V::O(vec![("d".to_string(), V::B(true))]), txt("e")]), V::F(0.5)]))])),
        ("f".to_string(), txt("a rather long text that is not broken into lines by any of the writers, and has more than one hundred and twenty characters")),
    ]);
    let values = [None, Some(txt("v")), Some(V::I(-7)), Some(V::F(1.5)), Some(V::B(true)), Some(V::A(vec![txt("x"), V::I(2)])), Some(deep)];
    let trs = |o: usize| (0..7).map(|i| (Id::new("a.b", &format!("t{}", i)), values[(i + o) % 7].clone())).collect::<Vec<Tr>>();
    let mem = |n: &str, o: usize| Mem { name: n.to_string(), target: t(o), traits: trs(o) };
    let ms = |o: usize| (0..6).map(|i| if i == 5 { mem(c, o) } else { mem(&format!("m{}", i), o + i) }).collect::<Vec<Mem>>();
    let mut r = Res { ops: six(10), cops: six(20), res: six(30), ..Res::default() };
    for i in 0..6 {
        r.slots[i] = Some(t(40 + i));
        r.ids.push((format!("i{}", i), t(50 + i)));
    }
    let kinds = vec![
        Kd::Simple(Simple::BigDecimal),
        Kd::List(mem("member", 1)),
        Kd::Set(mem("member", 2)),
        Kd::Map(mem("key", 3), mem("value", 4)),
        Kd::Struct(ms(0)),
        Kd::Union(ms(2)),
        Kd::Service(Svc { version: "2020-01-01".to_string(), ops: six(0), res: six(6), renames: (0..6).map(|i| (t(i), format!("R{}", 9 - i))).collect() }),
        Kd::Operation(Op { input: Some(t(0)), output: Some(t(1)), errors: six(3) }),
        Kd::Resource(r),
    ];
    kinds.into_iter().enumerate().map(|(i, k)| Sh { id: Id::new(ns, &format!("Sh{}", i)), traits: trs(i), kind: k }).collect()
}
/// A shape of any kind that refers, in every slot and as a trait, to itself, to a shape that
/// refers to it, or to one that is not defined.
pub fn ones(ns: &str, kinds: u32) -> Vec<Sh> {
    let a = Id::new(ns, "Aa");
    let b = Id::new(ns, "bb");
    let k = pick(kinds);
    let of = |i: &Id, k: u32, t: &Id| Sh { id: i.clone(), traits: vec![(t.clone(), None)], kind: one(k, t) };
    match pick(3) {
        0 => vec![of(&a, k, &a)],
        1 => vec![of(&a, k, &b), of(&b, pick(kinds), &a)],
        _ => vec![of(&a, k, &b)],
    }
}
fn built(mut mb: ModelBuilder, by_ref: bool) -> Model {
    let m = if by_ref { Model::try_from(&mut mb) } else { Model::try_from(mb) };
    check(m.is_ok(), "the model is built");
    m.unwrap()
}
entry!(h_c10_kinds, {
    let k = choose(10);
    let s = Sh { id: Id::new(NS, &name1()), traits: vec![(Id::new("a.b", "tr"), Some(any_scalar()))], kind: rich(k) };
    let mut mb = ModelBuilder::new(Version::V10, NS);
    put(&mut mb, &s, k != 9 && any_bool());
    let m = built(mb, k % 2 == 0);
    check_model(&m, &[s], Lax::default());
    reach("built");
});
entry!(h_c10_one, {
    // one shape in every slot: itself, one that refers back, or one that is not defined
    let d = ones(NS, 10);
    let mut mb = ModelBuilder::new(Version::V10, NS);
    for s in &d {
        put(&mut mb, s, !matches!(s.kind, Kd::Unresolved) && pick(2) == 1);
    }
    let m = built(mb, true);
    check_model(&m, &d, Lax::default());
    reach("one");
});
entry!(h_c10_wide, {
    let d = vec![wide(NS).swap_remove(pick(9) as usize)];
    let mut mb = ModelBuilder::new(Version::V10, NS);
    for s in &d {
        put(&mut mb, s, true);
    }
    let m = built(mb, true);
    check_model(&m, &d, Lax::default());
    reach("wide");
});
entry!(h_c10_two, {
    let (a, b) = (choose(10), choose(10));
    let x = Sh::new(&Id::new(NS, "A"), some_kind(a));
    let y = Sh::new(&Id::new(NS, "B"), some_kind(b));
    let mut mb = ModelBuilder::new(Version::V10, NS);
    let d = vec![x, y];
    for s in &d {
        put(&mut mb, s, !matches!(s.kind, Kd::Unresolved));
    }
    let m = built(mb, a % 2 == 0);
    check_model(&m, &d, Lax::default());
    reach("two");
});
entry!(h_c10_simple, {
    // the constructor of each simple kind, and of each member with a simple target
    let n = name1();
    let k = choose(13) as usize;
    type C = fn(&str) -> SimpleShapeBuilder;
    let cons: [C; 13] = [
        SimpleShapeBuilder::blob,
        SimpleShapeBuilder::boolean,
        SimpleShapeBuilder::document,
        SimpleShapeBuilder::string,
        SimpleShapeBuilder::byte,
        SimpleShapeBuilder::short,
        SimpleShapeBuilder::integer,
        SimpleShapeBuilder::long,
        SimpleShapeBuilder::float,
        SimpleShapeBuilder::double,
        SimpleShapeBuilder::big_integer,
        SimpleShapeBuilder::big_decimal,
        SimpleShapeBuilder::timestamp,
    ];
    type M = fn(&str) -> MemberBuilder;
    let mems: [M; 13] = [
        MemberBuilder::blob,
        MemberBuilder::boolean,
        MemberBuilder::document,
        MemberBuilder::string,
        MemberBuilder::byte,
        MemberBuilder::short,
        MemberBuilder::integer,
        MemberBuilder::long,
        MemberBuilder::float,
        MemberBuilder::double,
        MemberBuilder::big_integer,
        MemberBuilder::big_decimal,
        MemberBuilder::timestamp,
    ];
    let names = ["Blob", "Boolean", "Document", "String", "Byte", "Short", "Integer", "Long", "Float", "Double", "BigInteger", "BigDecimal", "Timestamp"];
    let mut st = StructureBuilder::new("St");
    match k {
        0 => st.blob(&n),
        1 => st.boolean(&n),
        2 => st.document(&n),
        3 => st.string(&n),
        4 => st.byte(&n),
        5 => st.short(&n),
        6 => st.integer(&n),
        7 => st.long(&n),
        8 => st.float(&n),
        9 => st.double(&n),
        10 => st.big_integer(&n),
        11 => st.big_decimal(&n),
        _ => st.timestamp(&n),
    };
    let mut un = StructureBuilder::new("Un");
    un.add_member(mems[k](&n));
    let mut mb = ModelBuilder::new(Version::V10, NS);
    mb.simple_shape(cons[k]("Si"));
    mb.structure(st);
    mb.union(un);
    let m = built(mb, true);
    let mem = vec![Mem::new(&n, &Id::api(names[k]))];
    check_model(
        &m,
        &[Sh::new(&Id::new(NS, "Si"), Kd::Simple(SIMPLES[k].clone())), Sh::new(&Id::new(NS, "St"), Kd::Struct(mem.clone())), Sh::new(&Id::new(NS, "Un"), Kd::Union(mem))],
        Lax::default(),
    );
    reach("simple");
});
entry!(h_c10_meta, {
    let (a, b) = ((ascii(1), any_value(1)), (ascii(1), any_value(1)));
    assume(!eq_bytes(a.0.as_bytes(), b.0.as_bytes()));
    let mut mb = ModelBuilder::new(Version::V10, NS);
    mb.meta_data(a.0.clone(), to_value(&a.1));
    let mut rest = atelier_core::model::values::ValueMap::new();
    rest.insert(b.0.clone(), to_value(&b.1));
    mb.meta_data_from(rest);
    let m = built(mb, true);
    check_meta(&m, &[a, b]);
    check(!m.has_shapes(), "no shape is added");
    check(*m.smithy_version() == Version::V10, "the version is kept");
    reach("meta");
});
entry!(h_c10_apply, {
    // apply adds the trait to exactly the element it names
    let k = choose(10);
    let relative = k != 9 && any_bool();
    let mut s = Sh { id: Id::new(NS, "A"), traits: vec![], kind: some_kind(k) };
    let mut other = Sh { id: Id::new(NS, "B"), traits: vec![], kind: Kd::Struct(vec![Mem::new("member", &Id::api("Blob"))]) };
    let mut mb = ModelBuilder::new(Version::V10, NS);
    put(&mut mb, &s, relative);
    put(&mut mb, &other, true);
    let t: Tr = (Id::new("a.b", "tr"), Some(V::S(ascii(1))));
    let mut d = vec![];
    match choose(4) {
        // the shape, under its absolute ID
        0 => {
            mb.apply("my.ns#A", to_trait(&t));
            s.traits.push(t);
            reach("shape");
        }
        // the shape, under its name
        1 => {
            mb.apply("A", to_trait(&t));
            s.traits.push(t);
            reach("relative");
        }
        // a shape that is not there
        2 => {
            mb.apply("zz#A", to_trait(&t));
            d.push(Sh { id: Id::new("zz", "A"), traits: vec![t], kind: Kd::Unresolved });
            reach("absent");
        }
        // a member
        _ => {
            let which = choose(2) as usize;
            let target = match &mut s.kind {
                Kd::List(m) | Kd::Set(m) => vec![m],
                Kd::Map(k, v) => vec![k, v],
                Kd::Struct(ms) | Kd::Union(ms) => ms.iter_mut().collect(),
                _ => vec![],
            }
            .into_iter()
            .nth(which);
            match target {
                Some(m) => {
                    mb.apply(&format!("my.ns#A${}", m.name), to_trait(&t));
                    m.traits.push(t);
                    reach("member");
                }
                None => {
                    mb.apply("my.ns#B$member", to_trait(&t));
                    match &mut other.kind {
                        Kd::Struct(ms) => ms[0].traits.push(t),
                        _ => (),
                    }
                    reach("other");
                }
            }
        }
    }
    d.push(s);
    d.push(other);
    let m = built(mb, true);
    check_model(&m, &d, Lax::default());
});
entry!(h_c10_traits, {
    // one trait given twice to one element follows the conflict rules
    let v = |c: u32| match c {
        0 => None,
        1 => Some(V::S(ascii(1))),
        2 => Some(V::A(vec![])),
        _ => Some(V::A(vec![V::S(ascii(1))])),
    };
    let (a, b): (Tr, Tr) = ((Id::new("a.b", "tr"), v(choose(4))), (Id::new("a.b", "tr"), v(choose(4))));
    let mut exp = vec![];
    let ok = apply_tr(&mut exp, &a) && apply_tr(&mut exp, &b);
    let on = choose(4);
    let mut mb = ModelBuilder::new(Version::V10, NS);
    let mut mem = MemberBuilder::new("m", "smithy.api#Blob");
    let mut st = StructureBuilder::new("A");
    match on {
        // on a member
        0 => {
            mem.apply_trait(to_trait(&a));
            mem.apply_trait(to_trait(&b));
            st.add_member(mem);
            mb.structure(st);
        }
        // on a shape
        1 => {
            st.apply_trait(to_trait(&a));
            st.apply_trait(to_trait(&b));
            st.add_member(mem);
            mb.structure(st);
        }
        // on a shape, once by apply
        2 => {
            st.apply_trait(to_trait(&a));
            st.add_member(mem);
            mb.structure(st);
            mb.apply("my.ns#A", to_trait(&b));
        }
        // on a member, once by apply
        _ => {
            mem.apply_trait(to_trait(&a));
            st.add_member(mem);
            mb.structure(st);
            mb.apply("my.ns#A$m", to_trait(&b));
        }
    }
    match Model::try_from(mb) {
        Ok(m) => {
            check(ok, "conflicting values of a trait are an error");
            let member = on == 0 || on == 3;
            let mem = Mem { name: "m".to_string(), target: Id::api("Blob"), traits: if member { exp.clone() } else { vec![] } };
            check_model(&m, &[Sh { id: Id::new(NS, "A"), traits: if member { vec![] } else { exp }, kind: Kd::Struct(vec![mem]) }], Lax::default());
            reach("merged");
        }
        Err(e) => {
            check(!ok, "compatible values of a trait are kept");
            check(matches!(e.kind(), ErrorKind::MergeTraitConflict(_)), "the error is MergeTraitConflict");
            reach("conflict");
        }
    }
});
entry!(h_c10_same_id, {
    // a relative and an absolute definition of one ID are reconciled, or an error
    let (a, b) = (if any_bool() { Simple::Blob } else { Simple::Byte }, if any_bool() { Simple::Blob } else { Simple::Byte });
    let mut mb = ModelBuilder::new(Version::V10, NS);
    mb.simple_shape(SimpleShapeBuilder::new("A", a.clone()));
    mb.simple_shape(SimpleShapeBuilder::new("my.ns#A", b.clone()));
    match Model::try_from(mb) {
        Ok(m) => {
            check(a == b, "two definitions of one ID are not dropped silently");
            check_model(&m, &[Sh::new(&Id::new(NS, "A"), Kd::Simple(a))], Lax::default());
            reach("same");
        }
        Err(e) => {
            check(a != b, "equal definitions are one");
            check(matches!(e.kind(), ErrorKind::MergeShapeConflict(_)), "the error is MergeShapeConflict");
            reach("conflict");
        }
    }
});

// ------------------------------------------------------------------------------------------ C11

/// The trait and value that a `TraitBuilder` gives to a shape.
fn applied(t: TraitBuilder) -> (ShapeID, Option<Value>) {
    let mut mb = ModelBuilder::new(Version::V10, NS);
    let mut s = SimpleShapeBuilder::string("A");
    s.apply_trait(t);
    mb.simple_shape(s);
    let m = Model::try_from(mb);
    check(m.is_ok(), "the model is built");
    let m = m.unwrap();
    let s = m.shape(&Id::new(NS, "A").id()).unwrap();
    check(s.traits().len() == 1, "one trait is applied");
    let (i, v) = s.traits().iter().next().unwrap();
    (i.clone(), v.clone())
}
fn c11(t: TraitBuilder, name: &str, v: Option<V>) {
    let (i, got) = applied(t);
    check(is_id(&i, &Id::api(name)), "the trait of the prelude that is documented");
    match v {
        Some(v) => check(matches!(&got, Some(g) if is_value(g, &v)), "the value holds exactly the arguments"),
        None => check(
            match &got {
                None => true,
                Some(Value::Object(o)) => o.is_empty(),
                _ => false,
            },
            "an annotation trait has no content",
        ),
    }
    reach(name);
}
fn opt(n: usize) -> Option<String> {
    if any_bool() {
        Some(ascii(n))
    } else {
        None
    }
}
fn obj(e: &[(&str, &Option<String>)]) -> Option<V> {
    Some(V::O(e.iter().filter_map(|(k, v)| v.as_ref().map(|v| (k.to_string(), V::S(v.clone())))).collect()))
}
entry!(h_c11_annotations, {
    match choose(13) {
        0 => c11(tr::boxed(), "box", None),
        1 => c11(tr::idempotent(), "idempotent", None),
        2 => c11(tr::no_replace(), "noReplace", None),
        3 => c11(tr::private(), "private", None),
        4 => c11(tr::readonly(), "readonly", None),
        5 => c11(tr::required(), "required", None),
        6 => c11(tr::requires_length(), "requiresLength", None),
        7 => c11(tr::sensitive(), "sensitive", None),
        8 => c11(tr::streaming(), "streaming", None),
        9 => c11(tr::a_trait(), "trait", None),
        10 => c11(tr::unique_items(), "uniqueItems", None),
        11 => c11(tr::unstable(), "unstable", None),
        _ => {
            let s = if any_bool() { ErrorSource::Client } else { ErrorSource::Server };
            let t = if s == ErrorSource::Client { "client" } else { "server" };
            c11(tr::error_source(s), "error", Some(V::S(t.to_string())))
        }
    }
});
entry!(h_c11_strings, {
    let s = ascii(2);
    match choose(7) {
        0 => c11(tr::documentation(&s), "documentation", Some(V::S(s.clone()))),
        1 => c11(tr::pattern(&s), "pattern", Some(V::S(s.clone()))),
        2 => c11(tr::since(&s), "since", Some(V::S(s.clone()))),
        3 => c11(tr::title(&s), "title", Some(V::S(s.clone()))),
        4 => {
            let (a, b) = (ascii(1), ascii(1));
            let all = [a.as_str(), b.as_str()];
            let n = choose(3) as usize;
            c11(tr::tagged(&all[..n]), "tags", Some(V::A(all[..n].iter().map(|x| V::S(x.to_string())).collect())))
        }
        5 => {
            let (a, b, c) = (ascii(1), ascii(1), ascii(1));
            assume(!eq_bytes(a.as_bytes(), b.as_bytes()));
            let all = [(a.as_str(), c.as_str()), (b.as_str(), s.as_str())];
            let n = choose(3) as usize;
            c11(tr::external_documentation(&all[..n]), "externalDocumentation", Some(V::O(all[..n].iter().map(|(k, v)| (k.to_string(), V::S(v.to_string()))).collect())))
        }
        _ => {
            let v = V::A(vec![any_value(1)]);
            c11(tr::references(to_value(&v)), "references", Some(v))
        }
    }
});
entry!(h_c11_options, {
    if any_bool() {
        let (m, s) = (opt(1), opt(1));
        c11(tr::deprecated(m.as_deref(), s.as_deref()), "deprecated", obj(&[("message", &m), ("since", &s)]))
    } else {
        let (a, b, c, d) = (opt(1), opt(1), opt(1), opt(1));
        c11(
            tr::paginated(a.as_deref(), b.as_deref(), c.as_deref(), d.as_deref()),
            "paginated",
            obj(&[("inputToken", &a), ("outputToken", &b), ("items", &c), ("pageSize", &d)]),
        )
    }
});
entry!(h_c11_numbers, {
    // every size that a value can hold is the value
    let (a, b) = (any_u64(), any_u64());
    assume((a < 1 << 63) & (b < 1 << 63));
    let (x, y) = (a as usize, b as usize);
    let both = |n: u32| if n == 0 { (Some(x), None) } else if n == 1 { (None, Some(y)) } else { (Some(x), Some(y)) };
    let range = any_bool();
    let name = if range { "range" } else { "length" };
    let k = choose(5);
    let (mi, ma) = both(if k < 3 { k } else { k - 3 });
    let t = match (k, range) {
        (0..=2, true) => tr::range(mi, ma),
        (0..=2, false) => tr::length(mi, ma),
        (3, true) => tr::range_min(x),
        (3, false) => tr::length_min(x),
        (_, true) => tr::range_max(y),
        (_, false) => tr::length_max(y),
    };
    let mut e = vec![];
    if mi.is_some() {
        e.push(("min".to_string(), V::I(x as i64)));
    }
    if ma.is_some() {
        e.push(("max".to_string(), V::I(y as i64)));
    }
    c11(t, name, Some(V::O(e)))
});
entry!(h_c11_wide, {
    // a size that no value can hold is refused, never turned into another number
    let a = any_u64();
    assume(a >= 1 << 63);
    reach("wide");
    panic_ends();
    let t = match choose(4) {
        0 => tr::range_min(a as usize),
        1 => tr::range_max(a as usize),
        2 => tr::length_min(a as usize),
        _ => tr::length_max(a as usize),
    };
    let _ = t;
    check(false, "a size out of range is refused");
});
entry!(h_c11_values, {
    // the value builders hold exactly what they are given, in order
    let v: Vec<V> = vec![V::I(any_u64() as i64), V::S(ascii(1)), V::B(any_bool()), V::F(f64::from_bits(any_u64()))];
    let put_a = |a: &mut ArrayBuilder, x: &V| match x {
        V::I(i) => drop(if any_bool() { a.integer(*i) } else { a.number(Number::Integer(*i)) }),
        V::S(s) => drop(a.string(s)),
        V::B(b) => drop(a.boolean(*b)),
        V::F(f) => drop(a.float(*f)),
        _ => (),
    };
    let put_o = |a: &mut ObjectBuilder, k: &str, x: &V| match x {
        V::I(i) => drop(if any_bool() { a.integer(k, *i) } else { a.number(k, Number::Integer(*i)) }),
        V::S(s) => drop(if any_bool() { a.string(k, s) } else { a.reference(k, s) }),
        V::B(b) => drop(a.boolean(k, *b)),
        V::F(f) => drop(a.float(k, *f)),
        _ => (),
    };
    let (i, j) = (choose(4) as usize, choose(4) as usize);
    match choose(3) {
        0 => {
            let mut a = ValueBuilder::array();
            put_a(&mut a, &v[i]);
            put_a(&mut a, &v[j]);
            let got: Value = if any_bool() { (&mut a).into() } else { a.into() };
            check(is_value(&got, &V::A(vec![v[i].clone(), v[j].clone()])), "an array holds its elements in order");
            reach("array");
        }
        1 => {
            let (k, l) = (ascii(1), ascii(1));
            assume(!eq_bytes(k.as_bytes(), l.as_bytes()));
            let mut a = ValueBuilder::object();
            put_o(&mut a, &k, &v[i]);
            put_o(&mut a, &l, &v[j]);
            let got: Value = if any_bool() { (&mut a).into() } else { a.into() };
            check(is_value(&got, &V::O(vec![(k, v[i].clone()), (l, v[j].clone())])), "an object holds its entries");
            reach("object");
        }
        _ => {
            let mut b = match &v[i] {
                V::I(i) => if any_bool() { ValueBuilder::integer(*i) } else { ValueBuilder::number(Number::Integer(*i)) },
                V::S(s) => ValueBuilder::string(s),
                V::B(b) => ValueBuilder::boolean(*b),
                V::F(f) => ValueBuilder::float(*f),
                _ => unreachable!(),
            };
            let got: Value = if any_bool() { (&mut b).into() } else { b.into() };
            check(is_value(&got, &v[i]), "a value is the one given");
            reach("value");
        }
    }
});
