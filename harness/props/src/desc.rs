//! Descriptions of models: the independent account against which built, read and merged models
//! are compared.
use crate::gen::*;
use atelier_core::model::shapes::*;
use atelier_core::model::values::{Number, Value, ValueMap};
use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};

#[derive(Clone)]
pub enum V {
    S(String),
    I(i64),
    F(f64),
    B(bool),
    A(Vec<V>),
    O(Vec<(String, V)>),
    N,
}
pub fn to_value(v: &V) -> Value {
    match v {
        V::S(s) => Value::String(s.clone()),
        V::I(i) => Value::Number(Number::Integer(*i)),
        V::F(f) => Value::Number(Number::Float(*f)),
        V::B(b) => Value::Boolean(*b),
        V::A(a) => Value::Array(a.iter().map(to_value).collect()),
        V::O(o) => {
            let mut m = ValueMap::new();
            for (k, v) in o {
                m.insert(k.clone(), to_value(v));
            }
            Value::Object(m)
        }
        V::N => Value::None,
    }
}
/// Structural equality of a value with its description, without the `==` under test.
pub fn is_value(v: &Value, d: &V) -> bool {
    match (v, d) {
        (Value::String(a), V::S(b)) => eq_bytes(a.as_bytes(), b.as_bytes()),
        (Value::Number(Number::Integer(a)), V::I(b)) => *a == *b,
        (Value::Number(Number::Float(a)), V::F(b)) => a.to_bits() == b.to_bits(),
        (Value::Boolean(a), V::B(b)) => *a == *b,
        (Value::Array(a), V::A(b)) => {
            if a.len() != b.len() {
                return false;
            }
            let mut r = true;
            for i in 0..a.len() {
                r = r & is_value(&a[i], &b[i]);
            }
            r
        }
        (Value::Object(a), V::O(b)) => {
            if a.len() != b.len() {
                return false;
            }
            let mut r = true;
            for (k, x) in b {
                match a.get(k) {
                    Some(y) => r = r & is_value(y, x),
                    None => return false,
                }
            }
            r
        }
        (Value::None, V::N) => true,
        _ => false,
    }
}
/// Equality of two descriptions (object keys are distinct and in the same order in both).
pub fn same_v(a: &V, b: &V) -> bool {
    is_value(&to_value(a), b)
}

#[derive(Clone)]
pub struct Id {
    pub ns: String,
    pub name: String,
}
impl Id {
    pub fn new(ns: &str, name: &str) -> Id {
        Id { ns: ns.to_string(), name: name.to_string() }
    }
    pub fn api(name: &str) -> Id {
        Id::new("smithy.api", name)
    }
    pub fn id(&self) -> ShapeID {
        ShapeID::new(NamespaceID::new_unchecked(&self.ns), Identifier::new_unchecked(&self.name), None)
    }
    pub fn text(&self) -> String {
        let mut s = self.ns.clone();
        s.push('#');
        s.push_str(&self.name);
        s
    }
    /// Same identifier, ignoring case.
    pub fn same(&self, o: &Id) -> bool {
        eq_nocase(self.ns.as_bytes(), o.ns.as_bytes()) & eq_nocase(self.name.as_bytes(), o.name.as_bytes())
    }
}
pub fn is_id(s: &ShapeID, d: &Id) -> bool {
    !s.is_member() & eq_bytes(s.namespace().to_string().as_bytes(), d.ns.as_bytes()) & eq_bytes(s.shape_name().to_string().as_bytes(), d.name.as_bytes())
}
pub fn is_ident(i: &Identifier, d: &str) -> bool {
    eq_bytes(i.to_string().as_bytes(), d.as_bytes())
}
pub type Tr = (Id, Option<V>);
#[derive(Clone)]
pub struct Mem {
    pub name: String,
    pub target: Id,
    pub traits: Vec<Tr>,
}
impl Mem {
    pub fn new(name: &str, target: &Id) -> Mem {
        Mem { name: name.to_string(), target: target.clone(), traits: vec![] }
    }
}
#[derive(Clone, Default)]
pub struct Svc {
    pub version: String,
    pub ops: Vec<Id>,
    pub res: Vec<Id>,
    pub renames: Vec<(Id, String)>,
}
#[derive(Clone, Default)]
pub struct Op {
    pub input: Option<Id>,
    pub output: Option<Id>,
    pub errors: Vec<Id>,
}
#[derive(Clone, Default)]
pub struct Res {
    pub ids: Vec<(String, Id)>,
    /// create, put, read, update, delete, list
    pub slots: [Option<Id>; 6],
    pub ops: Vec<Id>,
    pub cops: Vec<Id>,
    pub res: Vec<Id>,
}
#[derive(Clone)]
pub enum Kd {
    Simple(Simple),
    List(Mem),
    Set(Mem),
    Map(Mem, Mem),
    Struct(Vec<Mem>),
    Union(Vec<Mem>),
    Service(Svc),
    Operation(Op),
    Resource(Res),
    Unresolved,
}
#[derive(Clone)]
pub struct Sh {
    pub id: Id,
    pub traits: Vec<Tr>,
    pub kind: Kd,
}
impl Sh {
    pub fn new(id: &Id, kind: Kd) -> Sh {
        Sh { id: id.clone(), traits: vec![], kind }
    }
}
pub const SLOTS: [&str; 6] = ["create", "put", "read", "update", "delete", "list"];

pub fn to_traits(t: &[Tr]) -> AppliedTraits {
    let mut m = AppliedTraits::new();
    for (i, v) in t {
        m.insert(i.id(), v.as_ref().map(to_value));
    }
    m
}
pub fn to_member(m: &Mem) -> MemberShape {
    MemberShape::with_traits(Identifier::new_unchecked(&m.name), m.target.id(), to_traits(&m.traits))
}
fn ids(v: &[Id]) -> Vec<ShapeID> {
    v.iter().map(|i| i.id()).collect()
}
pub fn to_kind(k: &Kd) -> ShapeKind {
    match k {
        Kd::Simple(s) => ShapeKind::Simple(s.clone()),
        Kd::List(m) => ShapeKind::List(ListOrSet::from(to_member(m))),
        Kd::Set(m) => ShapeKind::Set(ListOrSet::from(to_member(m))),
        Kd::Map(k, v) => ShapeKind::Map(Map::from(to_member(k), to_member(v))),
        Kd::Struct(ms) => {
            let mut s = StructureOrUnion::new();
            for m in ms {
                s.add_a_member(to_member(m));
            }
            ShapeKind::Structure(s)
        }
        Kd::Union(ms) => {
            let mut s = StructureOrUnion::new();
            for m in ms {
                s.add_a_member(to_member(m));
            }
            ShapeKind::Union(s)
        }
        Kd::Service(d) => {
            let mut s = Service::new(&d.version);
            s.set_operations(&ids(&d.ops));
            s.set_resources(&ids(&d.res));
            for (i, n) in &d.renames {
                s.insert_rename_shape(i.id(), Identifier::new_unchecked(n));
            }
            ShapeKind::Service(s)
        }
        Kd::Operation(d) => {
            let mut o = Operation::default();
            if let Some(i) = &d.input {
                o.set_input(i.id());
            }
            if let Some(i) = &d.output {
                o.set_output(i.id());
            }
            o.set_errors(&ids(&d.errors));
            ShapeKind::Operation(o)
        }
        Kd::Resource(d) => {
            let mut r = Resource::default();
            for (n, t) in &d.ids {
                r.add_identifier(Identifier::new_unchecked(n), t.id());
            }
            for (i, s) in d.slots.iter().enumerate() {
                if let Some(s) = s {
                    match i {
                        0 => r.set_create(s.id()),
                        1 => r.set_put(s.id()),
                        2 => r.set_read(s.id()),
                        3 => r.set_update(s.id()),
                        4 => r.set_delete(s.id()),
                        _ => r.set_list(s.id()),
                    }
                }
            }
            r.set_operations(&ids(&d.ops));
            r.set_collection_operations(&ids(&d.cops));
            r.set_resources(&ids(&d.res));
            ShapeKind::Resource(r)
        }
        Kd::Unresolved => ShapeKind::Unresolved,
    }
}
pub fn to_shape(s: &Sh) -> TopLevelShape {
    TopLevelShape::with_traits(s.id.id(), to_kind(&s.kind), to_traits(&s.traits))
}
pub fn to_model(shapes: &[Sh]) -> Model {
    let mut m = Model::default();
    for s in shapes {
        let r = m.add_shape(to_shape(s));
        check(r.is_ok(), "a new shape is added");
    }
    m
}

// ---------------------------------------------------------------------------------- comparison

fn list_is<'a>(it: impl Iterator<Item = &'a ShapeID>, d: &[Id]) -> bool {
    let v: Vec<&ShapeID> = it.collect();
    if v.len() != d.len() {
        return false;
    }
    let mut r = true;
    for i in 0..d.len() {
        r = r & is_id(v[i], &d[i]);
    }
    r
}
fn opt_is(a: &Option<ShapeID>, d: &Option<Id>) -> bool {
    match (a, d) {
        (None, None) => true,
        (Some(a), Some(d)) => is_id(a, d),
        _ => false,
    }
}
/// `none_is_object`: an annotation trait without a value may come back as an empty object.
#[derive(Clone, Copy, Default)]
pub struct Lax {
    pub none_is_object: bool,
}
pub fn check_traits(t: &AppliedTraits, d: &[Tr], lax: Lax) {
    check(t.len() == d.len(), "exactly the given number of traits");
    for (i, v) in d {
        match t.get(&i.id()) {
            None => check(false, "an applied trait is present under its ID"),
            Some(x) => match (x, v) {
                (None, None) => (),
                (Some(x), Some(v)) => check(is_value(x, v), "the trait has the given value"),
                (Some(Value::Object(o)), None) if lax.none_is_object => check(o.is_empty(), "an annotation trait has no content"),
                (None, Some(V::O(o))) if lax.none_is_object => check(o.is_empty(), "the trait value is not lost"),
                (Some(_), None) => check(false, "an annotation trait gets no value"),
                (None, Some(_)) => check(false, "the trait value is not lost"),
            },
        }
    }
}
pub fn check_member(m: &MemberShape, d: &Mem, lax: Lax) {
    check(is_ident(m.id(), &d.name), "member name");
    check(is_id(m.target(), &d.target), "member target");
    check_traits(m.traits(), &d.traits, lax);
}
fn check_members(s: &StructureOrUnion, d: &[Mem], lax: Lax) {
    check(s.members().count() == d.len(), "exactly the given number of members");
    for m in d {
        match s.member(&Identifier::new_unchecked(&m.name)) {
            Some(x) => check_member(x, m, lax),
            None => check(false, "a member is present under its name"),
        }
    }
}
pub fn check_kind(k: &ShapeKind, d: &Kd, lax: Lax) {
    match (k, d) {
        (ShapeKind::Simple(a), Kd::Simple(b)) => check(a == b, "simple kind"),
        (ShapeKind::List(a), Kd::List(b)) => check_member(a.member(), b, lax),
        (ShapeKind::Set(a), Kd::Set(b)) => check_member(a.member(), b, lax),
        (ShapeKind::Map(a), Kd::Map(k, v)) => {
            check_member(a.key(), k, lax);
            check_member(a.value(), v, lax);
        }
        (ShapeKind::Structure(a), Kd::Struct(b)) => check_members(a, b, lax),
        (ShapeKind::Union(a), Kd::Union(b)) => check_members(a, b, lax),
        (ShapeKind::Service(a), Kd::Service(b)) => {
            check(eq_bytes(a.version().as_bytes(), b.version.as_bytes()), "service version");
            check(list_is(a.operations(), &b.ops), "service operations");
            check(list_is(a.resources(), &b.res), "service resources");
            check(a.renames().count() == b.renames.len(), "number of renames");
            for (i, n) in &b.renames {
                match a.renames().find(|(k, _)| **k == i.id()) {
                    Some((_, x)) => check(is_ident(x, n), "renamed to the given name"),
                    None => check(false, "a rename is present"),
                }
            }
        }
        (ShapeKind::Operation(a), Kd::Operation(b)) => {
            check(opt_is(a.input(), &b.input), "operation input");
            check(opt_is(a.output(), &b.output), "operation output");
            check(list_is(a.errors(), &b.errors), "operation errors");
        }
        (ShapeKind::Resource(a), Kd::Resource(b)) => {
            check(a.identifiers().count() == b.ids.len(), "number of resource identifiers");
            for (n, t) in &b.ids {
                match a.identifiers().find(|(k, _)| **k == Identifier::new_unchecked(n)) {
                    Some((k, x)) => {
                        check(is_ident(k, n), "resource identifier name");
                        check(is_id(x, t), "resource identifier target");
                    }
                    None => check(false, "a resource identifier is present"),
                }
            }
            check(opt_is(a.create(), &b.slots[0]), "resource create");
            check(opt_is(a.put(), &b.slots[1]), "resource put");
            check(opt_is(a.read(), &b.slots[2]), "resource read");
            check(opt_is(a.update(), &b.slots[3]), "resource update");
            check(opt_is(a.delete(), &b.slots[4]), "resource delete");
            check(opt_is(a.list(), &b.slots[5]), "resource list");
            check(list_is(a.operations(), &b.ops), "resource operations");
            check(list_is(a.collection_operations(), &b.cops), "resource collection operations");
            check(list_is(a.resources(), &b.res), "resource resources");
        }
        (ShapeKind::Unresolved, Kd::Unresolved) => (),
        _ => check(false, "the shape has the kind it was given"),
    }
}
pub fn check_shape(s: &TopLevelShape, d: &Sh, lax: Lax) {
    check(is_id(s.id(), &d.id), "shape ID");
    check_traits(s.traits(), &d.traits, lax);
    check_kind(s.body(), &d.kind, lax);
}
/// The model holds exactly these shapes.
pub fn check_model(m: &Model, d: &[Sh], lax: Lax) {
    check(m.shapes().count() == d.len(), "exactly the given number of shapes");
    for s in d {
        match m.shape(&s.id.id()) {
            Some(x) => check_shape(x, s, lax),
            None => check(false, "a shape is present under its ID"),
        }
    }
}
pub fn check_meta(m: &Model, d: &[(String, V)]) {
    check(m.metadata().count() == d.len(), "exactly the given number of metadata entries");
    for (k, v) in d {
        match m.metadata_value(k) {
            Some(x) => check(is_value(x, v), "metadata value"),
            None => check(false, "a metadata entry is present under its key"),
        }
    }
}

// ---------------------------------------------------------------------------------- generators

pub const SIMPLES: [Simple; 13] = [
    Simple::Blob,
    Simple::Boolean,
    Simple::Document,
    Simple::String,
    Simple::Byte,
    Simple::Short,
    Simple::Integer,
    Simple::Long,
    Simple::Float,
    Simple::Double,
    Simple::BigInteger,
    Simple::BigDecimal,
    Simple::Timestamp,
];
/// A scalar of any kind but float, with any content (text of 1 byte).
pub fn any_scalar() -> V {
    match choose(4) {
        0 => V::S(ascii(1)),
        1 => V::I(any_u64() as i64),
        2 => V::B(choose(2) == 1),
        _ => V::N,
    }
}
pub fn any_value(depth: u32) -> V {
    if depth == 0 {
        return any_scalar();
    }
    match choose(7) {
        0 => V::S(ascii(1)),
        1 => V::I(any_u64() as i64),
        2 => V::B(choose(2) == 1),
        3 => V::N,
        4 => V::A(vec![]),
        5 => V::A(vec![any_value(depth - 1)]),
        _ => V::O(vec![(ascii(1), any_value(depth - 1))]),
    }
}
pub fn name1() -> String {
    ident(1)
}
/// A name whose first character is fixed and whose second is any identifier character.
pub fn named(first: char) -> String {
    let c = bytes::<1>();
    assume(is_word(c[0]));
    let mut s = first.to_string();
    s.push(c[0] as char);
    s
}
