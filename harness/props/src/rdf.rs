//! R01: shape IDs as URNs.
use crate::gen::*;
use atelier_core::model::ShapeID;
use atelier_rdf::urn::{iri_to_shape, is_shape_iri, shape_to_iri};
use rdftk_iri::{Path, Scheme, IRI};
use std::str::FromStr;
use std::sync::Arc;

struct P {
    ns: String,
    name: String,
    member: Option<String>,
}
impl P {
    fn id(&self) -> ShapeID {
        ShapeID::new_unchecked(&self.ns, &self.name, self.member.as_deref())
    }
    fn urn(&self) -> String {
        match &self.member {
            None => format!("urn:smithy:{}:{}", self.ns, self.name),
            Some(m) => format!("urn:smithy:{}:{}/{}", self.ns, self.name, m),
        }
    }
}
fn same_text(a: &ShapeID, p: &P) -> bool {
    let m = match (a.member_name(), &p.member) {
        (None, None) => true,
        (Some(a), Some(b)) => eq_bytes(a.to_string().as_bytes(), b.as_bytes()),
        _ => false,
    };
    m & eq_bytes(a.namespace().to_string().as_bytes(), p.ns.as_bytes()) & eq_bytes(a.shape_name().to_string().as_bytes(), p.name.as_bytes())
}
fn round(p: &P) {
    let iri = shape_to_iri(&p.id());
    check(eq_bytes(iri.to_string().as_bytes(), p.urn().as_bytes()), "the URN has the documented form");
    check(is_shape_iri(iri.clone()), "the URN of a shape is a shape URN");
    match iri_to_shape(iri) {
        Ok(id) => check(same_text(&id, p), "the URN of a shape gives that shape"),
        Err(_) => check(false, "the URN of a shape gives that shape"),
    }
}
entry!(h_r01_round, {
    let ns = match choose(3) {
        0 => ident(1),
        1 => ident(2),
        _ => format!("{}.b", ident(1)),
    };
    round(&P { ns, name: "Nn".to_string(), member: if any_bool() { Some("mm".to_string()) } else { None } });
    reach("round");
});
entry!(h_r01_long, {
    // long names; namespaces of many segments
    let long: String = (0..60).map(|i| b"aB_c9"[i % 5] as char).collect();
    let (n, c) = (format!("{}{}", long, ident(1)), pick(3));
    round(&P {
        ns: if c == 0 { n.clone() } else { "a.b.c.d.e.f.g.h".to_string() },
        name: if c == 1 { n.clone() } else { "Nn".to_string() },
        member: if c == 2 { Some(n) } else { None },
    });
    reach("round");
});
entry!(h_r01_round_name, {
    let (n, m) = (ident_upto(2), if any_bool() { Some(ident(1)) } else { None });
    round(&P { ns: "a.b".to_string(), name: n, member: m });
    reach("round");
});
/// `urn:` with any path: a shape exactly for `smithy:` ID.
fn path(t: &str) {
    let iri = Arc::new(match Path::from_str(t) {
        Ok(p) => {
            let mut i = IRI::new(&p);
            i.set_scheme(Some(Scheme::from_str("urn").unwrap()));
            i
        }
        Err(_) => {
            reach("no-path");
            return;
        }
    });
    let b = t.as_bytes();
    let mut want = false;
    if b.len() > 7 && eq_bytes(&b[..7], b"smithy:") {
        let b = &b[7..];
        if let Some(c) = b.iter().position(|c| *c == b':') {
            let (ns, rest) = (&b[..c], &b[c + 1..]);
            let (n, m) = match rest.iter().position(|c| *c == b'/') {
                None => (rest, None),
                Some(s) => (&rest[..s], Some(&rest[s + 1..])),
            };
            let mut ok = true;
            for part in ns.split(|c| *c == b'.') {
                ok = ok & ident_ok(part);
            }
            want = ok & ident_ok(n) & m.map_or(true, ident_ok);
        }
    }
    check(is_shape_iri(iri.clone()) == want, "exactly the URNs of shapes are shape URNs");
    match iri_to_shape(iri) {
        Ok(id) => {
            reach("shape");
            check(want, "text that is no URN of a shape is an error");
            let s = format!("urn:{}", t);
            check(eq_bytes(shape_to_iri(&id).to_string().as_bytes(), s.as_bytes()), "a shape URN gives the shape it is the URN of");
        }
        Err(_) => {
            reach("error");
            check(!want, "the URN of a shape gives that shape")
        }
    }
}
entry!(h_r01_near, {
    // one byte replaced, inserted or removed
    let mut b = b"smithy:a:b/c".to_vec();
    let e = choose(3);
    let i = choose(b.len() as u32 + (e == 1) as u32) as usize;
    if e == 2 {
        b.remove(i);
    } else {
        let mut c = [0u8; 1];
        fill(&mut c);
        assume(c[0] < 128);
        if e == 0 {
            b[i] = c[0];
        } else {
            b.insert(i, c[0]);
        }
    }
    path(&text(&b));
});
entry!(h_r01_any, {
    // any short namespace-specific string
    let k = choose(4) as usize;
    path(&format!("smithy:{}", ascii(k)));
});
entry!(h_r01_other, {
    // what the other components of an IRI say is not lost silently
    let c = bytes::<1>();
    assume(is_alpha(c[0]));
    let c = c[0] as char;
    let t = match choose(5) {
        0 => format!("urn:smithy:a:b?{}", c),
        1 => format!("urn:smithy:a:b#{}", c),
        2 => format!("{}rn:smithy:a:b", c),
        3 => format!("smithy:a:{}", c),
        _ => format!("urn://{}/smithy:a:b", c),
    };
    let ok = match IRI::from_str(&t) {
        Ok(i) => iri_to_shape(Arc::new(i)).is_ok(),
        Err(_) => false,
    };
    // the scheme of an IRI is compared ignoring case (RFC 3986)
    let urn = t.len() == 14 && eq_nocase(t.as_bytes()[..3].as_ref(), b"urn") && eq_bytes(&t.as_bytes()[3..], b":smithy:a:b");
    check(ok == urn, "text that is no URN of a shape is an error");
    reach(if ok { "shape" } else { "error" });
});

// --------------------------------------------------------------------------------------------- R02

use crate::desc::*;
use atelier_rdf::model_to_rdf;
use rdftk_core::model::literal::DataType;
use rdftk_core::simple::graph_factory;
use rdftk_iri::IRIRef;

type T = Vec<u8>;
enum Ob {
    Node(T),
    Lit(T, u32),
}
/// The statements of a graph; `used` counts those that a description accounts for.
struct G {
    st: Vec<(T, String, Ob)>,
    used: usize,
}
fn node(blank: Option<&String>, iri: Option<&IRIRef>) -> T {
    match (blank, iri) {
        (Some(b), _) => format!("_:{}", b).into_bytes(),
        (_, Some(i)) => i.to_string().into_bytes(),
        _ => {
            check(false, "a node is blank or has an IRI");
            vec![]
        }
    }
}
const SMITHY: &str = "https://awslabs.github.io/smithy/rdf-1.0#";
const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
fn sm(n: &str) -> String {
    format!("{}{}", SMITHY, n)
}
fn rdf(n: &str) -> String {
    format!("{}{}", RDF, n)
}
fn urn(i: &Id) -> T {
    format!("urn:smithy:{}:{}", i.ns, i.name).into_bytes()
}
impl G {
    /// The objects of a property of a node.
    fn all(&self, s: &[u8], p: &str) -> Vec<&Ob> {
        self.st.iter().filter(|x| x.1 == p && eq_bytes(&x.0, s)).map(|x| &x.2).collect()
    }
    fn nodes(&mut self, s: &[u8], p: &str) -> Vec<T> {
        let r: Vec<T> = self.all(s, p).iter().filter_map(|o| if let Ob::Node(n) = o { Some(n.clone()) } else { None }).collect();
        check(r.len() == self.all(s, p).len(), "the values of the property are nodes");
        self.used += r.len();
        r
    }
    /// The node has exactly these nodes as values of the property.
    fn iris(&mut self, s: &[u8], p: &str, want: &[T]) {
        let got = self.nodes(s, p);
        check(got.len() == want.len(), "a statement for each value of the property");
        let n = |l: &[T], x: &[u8]| {
            let mut n = 0u32;
            for y in l {
                n += eq_bytes(y, x) as u32;
            }
            n
        };
        for w in want {
            check(n(&got, w) == n(want, w), "the property has the values of the model");
        }
    }
    fn text(&mut self, s: &[u8], p: &str, want: &str, kind: u32) {
        let got = self.all(s, p);
        let e = format!("{:?}", want);
        check(got.len() == 1, "the property has one value");
        for g in got {
            match g {
                Ob::Lit(t, k) => check(*k == kind && eq_bytes(t, e[1..e.len() - 1].as_bytes()), "the literal is that of the model"),
                _ => check(false, "the value is a literal"),
            }
        }
        self.used += 1;
    }
    /// The blank node that is the only value of a property.
    fn blank(&mut self, s: &[u8], p: &str) -> T {
        let v = self.nodes(s, p);
        check(v.len() == 1 && v[0].starts_with(b"_:"), "the property has one blank node");
        v.into_iter().next().unwrap_or_default()
    }
    /// The members `rdf:_1` to `rdf:_n` of a container.
    fn members(&mut self, s: &[u8], kind: &str, n: usize) -> Vec<T> {
        self.iris(s, &rdf("type"), &[rdf(kind).into_bytes()]);
        (0..n).map(|i| self.blank(s, &rdf(&format!("_{}", i + 1)))).collect()
    }
    /// Among blank nodes, the one whose property has the literal (left out of the rest).
    fn named(&mut self, v: &mut Vec<T>, p: &str, name: &str) -> Option<T> {
        let i = v.iter().position(|b| self.all(b, p).iter().any(|o| matches!(o, Ob::Lit(t, _) if eq_bytes(t, name.as_bytes()))));
        check(i.is_some(), "an entry is present under its name");
        i.map(|i| {
            let b = v.remove(i);
            self.text(&b, p, name, 0);
            b
        })
    }
    fn value(&mut self, s: &[u8], p: &str, v: &V) {
        match v {
            V::S(t) => self.text(s, p, t, 0),
            V::I(i) => self.text(s, p, &i.to_string(), 1),
            V::F(f) => self.text(s, p, &f.to_string(), 2),
            V::B(b) => self.text(s, p, &b.to_string(), 3),
            V::N => self.iris(s, p, &[sm("null").into_bytes()]),
            V::A(a) => {
                let b = self.blank(s, p);
                self.iris(&b, &rdf("type"), &[rdf("Seq").into_bytes()]);
                for (i, x) in a.iter().enumerate() {
                    self.value(&b, &rdf(&format!("_{}", i + 1)), x);
                }
            }
            V::O(o) => {
                let b = self.blank(s, p);
                let mut m = self.members(&b, "Bag", o.len());
                for (k, x) in o {
                    if let Some(e) = self.named(&mut m, &sm("key"), k) {
                        self.value(&e, &sm("value"), x);
                    }
                }
            }
        }
    }
    fn traits(&mut self, s: &[u8], t: &[Tr]) {
        let mut v = self.nodes(s, &sm("apply"));
        check(v.len() == t.len(), "a node for each trait");
        for (i, x) in t {
            let u = urn(i);
            match v.iter().position(|b| self.all(b, &sm("trait")).iter().any(|o| matches!(o, Ob::Node(n) if eq_bytes(n, &u)))) {
                None => check(false, "a trait is present under its ID"),
                Some(k) => {
                    let b = v.remove(k);
                    self.iris(&b, &sm("trait"), &[u]);
                    if let Some(x) = x {
                        self.value(&b, &sm("value"), x);
                    }
                }
            }
        }
    }
    fn mems(&mut self, s: &[u8], ms: &[&Mem]) {
        let mut v = self.nodes(s, &sm("member"));
        check(v.len() == ms.len(), "a node for each member");
        for m in ms {
            if let Some(b) = self.named(&mut v, &sm("name"), &m.name) {
                self.iris(&b, &rdf("type"), &[urn(&m.target)]);
                self.traits(&b, &m.traits);
            }
        }
    }
}
fn type_name(k: &Kd) -> String {
    let n = crate::describe::kind_name(k);
    n[..1].to_uppercase() + &n[1..]
}
fn check_rdf(meta: &[(String, V)], shapes: &[Sh], blank: bool) {
    let mut m = to_model(shapes);
    for (k, v) in meta {
        let _ = m.add_metadata(k.clone(), to_value(v));
    }
    let iri = if blank { None } else { Some(Arc::new(IRI::from_str("https://m.n/").unwrap())) };
    let graph = match model_to_rdf(&m, iri, graph_factory()) {
        Ok(g) => g,
        Err(_) => return check(false, "a model has a graph"),
    };
    let graph = graph.borrow();
    let mut g = G { st: vec![], used: 0 };
    for s in graph.statements() {
        let o = match s.object().as_literal() {
            Some(l) => {
                check(!l.has_language(), "literals have no language");
                let k = match l.data_type() {
                    None | Some(DataType::String) => 0,
                    Some(DataType::Long) => 1,
                    Some(DataType::Double) => 2,
                    Some(DataType::Boolean) => 3,
                    _ => 4,
                };
                Ob::Lit(l.lexical_form().clone().into_bytes(), k)
            }
            None => Ob::Node(node(s.object().as_blank(), s.object().as_iri())),
        };
        g.st.push((node(s.subject().as_blank(), s.subject().as_iri()), s.predicate().to_string(), o));
    }
    let is_model = sm("Model").into_bytes();
    let subjects: Vec<T> = g.st.iter().filter(|x| x.1 == rdf("type") && matches!(&x.2, Ob::Node(n) if eq_bytes(n, &is_model))).map(|x| x.0.clone()).collect();
    check(subjects.len() == 1, "one node is the model");
    let s = match subjects.into_iter().next() {
        Some(s) => s,
        None => return,
    };
    check(if blank { s.starts_with(b"_:") } else { s == b"https://m.n/" }, "the model is the given or a blank node");
    g.used += 1;
    g.text(&s, &sm("smithy_version"), "1.0", 0);
    if !meta.is_empty() {
        g.value(&s, &sm("metadata"), &V::O(meta.to_vec()));
    }
    let def: Vec<&Sh> = shapes.iter().filter(|x| !matches!(x.kind, Kd::Unresolved)).collect();
    g.iris(&s, &sm("shape"), &def.iter().map(|x| urn(&x.id)).collect::<Vec<_>>());
    for x in def {
        let s = urn(&x.id);
        g.iris(&s, &rdf("type"), &[sm(&type_name(&x.kind)).into_bytes()]);
        g.traits(&s, &x.traits);
        let opt = |o: &Option<Id>| o.iter().map(urn).collect::<Vec<_>>();
        let many = |o: &[Id]| o.iter().map(urn).collect::<Vec<_>>();
        match &x.kind {
            Kd::List(m) | Kd::Set(m) => g.mems(&s, &[m]),
            Kd::Map(k, v) => g.mems(&s, &[k, v]),
            Kd::Struct(ms) | Kd::Union(ms) => g.mems(&s, &ms.iter().collect::<Vec<_>>()),
            Kd::Service(d) => {
                g.text(&s, &sm("version"), &d.version, 0);
                g.iris(&s, &sm("operation"), &many(&d.ops));
                g.iris(&s, &sm("resource"), &many(&d.res));
                if !d.renames.is_empty() {
                    let b = g.blank(&s, &sm("rename"));
                    let mut v = g.members(&b, "Bag", d.renames.len());
                    for (i, n) in &d.renames {
                        if let Some(e) = g.named(&mut v, &sm("name"), n) {
                            g.iris(&e, &sm("shape"), &[urn(i)]);
                        }
                    }
                }
            }
            Kd::Operation(d) => {
                g.iris(&s, &sm("input"), &opt(&d.input));
                g.iris(&s, &sm("output"), &opt(&d.output));
                g.iris(&s, &sm("error"), &many(&d.errors));
            }
            Kd::Resource(d) => {
                if !d.ids.is_empty() {
                    let b = g.blank(&s, &sm("identifiers"));
                    let mut v = g.members(&b, "Bag", d.ids.len());
                    for (n, i) in &d.ids {
                        if let Some(e) = g.named(&mut v, &sm("key"), n) {
                            g.iris(&e, &sm("target"), &[urn(i)]);
                        }
                    }
                }
                for (i, n) in SLOTS.iter().enumerate() {
                    g.iris(&s, &sm(n), &opt(&d.slots[i]));
                }
                g.iris(&s, &sm("operation"), &many(&d.ops));
                g.iris(&s, &sm("collectionOperation"), &many(&d.cops));
                g.iris(&s, &sm("resource"), &many(&d.res));
            }
            _ => (),
        }
    }
    check(g.used == g.st.len(), "no other statements");
    reach("graph");
}
/// The regular expressions and caches of the libraries, made before the first choice.
fn warm() {
    let m = to_model(&[]);
    for iri in [None, Some(Arc::new(IRI::from_str("https://m.n/").unwrap()))] {
        check(model_to_rdf(&m, iri, graph_factory()).is_ok(), "a model has a graph");
    }
    let _ = shape_to_iri(&ShapeID::new_unchecked("a", "b", None)).to_string();
}
entry!(h_r02_kinds, {
    warm();
    let k = pick(10);
    let x = Sh { id: Id::new("x.y", "N"), traits: vec![(Id::new("a.b", "t"), None)], kind: crate::builder::rich(k) };
    check_rdf(&[], &[x], pick(2) == 0);
});
entry!(h_r02_one, {
    warm();
    check_rdf(&[], &crate::builder::ones("x.y", 10), true);
});
entry!(h_r02_wide, {
    warm();
    check_rdf(&[], &[crate::builder::wide("x.y").swap_remove(pick(9) as usize)], true);
});
entry!(h_r02_two, {
    warm();
    let (j, k) = (pick(10), pick(10));
    let a = Sh::new(&Id::new("x.y", "A"), crate::model::some_kind(j));
    let b = Sh::new(&Id::new(if (j + k) % 2 == 0 { "x.y" } else { "x.z" }, "B"), crate::model::some_kind(k));
    check_rdf(&[], &[a, b], true);
});
entry!(h_r02_names, {
    warm();
    // any first character of a name, in every place of a name
    let at = pick(8);
    let p = |i: u32, c: char| if i == at { named(c) } else { c.to_string() };
    let m = Mem { name: p(3, 'm'), target: Id::new("t.t", &p(2, 'T')), traits: vec![(Id::new("a.b", &p(1, 't')), None)] };
    let kind = match at {
        5 => Kd::Service(Svc { version: p(5, 'v'), ..Svc::default() }),
        6 => Kd::Service(Svc { version: "1".to_string(), renames: vec![(Id::new("t.t", "w"), p(6, 'r'))], ..Svc::default() }),
        7 => Kd::Resource(Res { ids: vec![(p(7, 'i'), Id::new("t.t", "I"))], ..Res::default() }),
        _ => Kd::Struct(vec![m]),
    };
    check_rdf(&[(p(4, 'k'), V::O(vec![(p(4, 'o'), V::I(1))]))], &[Sh::new(&Id::new("x.y", &p(0, 'N')), kind)], true);
});
fn form(depth: u32) -> V {
    match pick(if depth == 0 { 6 } else { 10 }) {
        0 => V::S(ascii(1)),
        1 => V::I(pick(3) as i64 * 50 - 50),
        2 => V::F(1.5),
        3 => V::B(any_bool()),
        4 => V::N,
        5 => V::S(String::new()),
        6 => V::A(vec![]),
        7 => V::A(vec![V::S("e".to_string()), form(depth - 1), V::S("e".to_string())]),
        8 => V::O(vec![]),
        _ => V::O(vec![("k".to_string(), form(depth - 1)), ("l".to_string(), V::I(7))]),
    }
}
fn traits(depth: u32) {
    let v = form(depth);
    let t = vec![(Id::new("a.b", "t"), Some(v)), (Id::new("a.b", "u"), Some(V::S("e".to_string())))];
    let m = |n: &str| Mem { name: n.to_string(), target: Id::api("String"), traits: t.clone() };
    let (kind, t) = match pick(5) {
        0 => (Kd::List(m("member")), vec![]),
        1 => (Kd::Map(m("key"), m("value")), vec![]),
        2 => (Kd::Struct(vec![m("a"), m("b")]), vec![]),
        3 => (Kd::Union(vec![m("a")]), t.clone()),
        _ => (Kd::Simple(atelier_core::model::shapes::Simple::Blob), t.clone()),
    };
    check_rdf(&[], &[Sh { id: Id::new("x.y", "N"), traits: t, kind }], false);
}
entry!(h_r02_traits, {
    warm();
    // values of any form, of shapes and members
    traits(1)
});
entry!(h_r02_traits2, {
    warm();
    traits(2)
});
entry!(h_r02_metadata, {
    warm();
    check_rdf(&[("k".to_string(), form(1)), ("l".to_string(), V::I(0))], &[], pick(2) == 0);
});
entry!(h_r02_many, {
    warm();
    // several renames, identifiers and targets
    let v = |p: char, n: u32| (0..n).map(|i| Id::new("t.t", &format!("{}{}", p, i))).collect::<Vec<_>>();
    let n = pick(4);
    let kind = match pick(3) {
        0 => Kd::Service(Svc { version: ascii(1), ops: v('o', n), res: v('r', n), renames: v('w', n).into_iter().enumerate().map(|(i, x)| (x, format!("n{}", i))).collect() }),
        1 => Kd::Resource(Res { ids: v('i', n).into_iter().enumerate().map(|(i, x)| (format!("n{}", i), x)).collect(), ops: v('o', n), cops: v('c', n), res: v('r', n), ..Res::default() }),
        _ => Kd::Operation(Op { input: v('i', n).pop(), output: v('o', n).pop(), errors: v('e', n) }),
    };
    check_rdf(&[], &[Sh::new(&Id::new("x.y", "N"), kind)], true);
});
