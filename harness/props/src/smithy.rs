//! S01..S03: the Smithy IDL reader and writer.
use crate::builder::rich;
use crate::desc::*;
use crate::gen::*;
use crate::actions::bare;
use atelier_core::io::{read_model_from_string, write_model_to_string};
use atelier_core::model::shapes::{HasTraits, ShapeKind, Simple};
use atelier_core::model::{Model, NamespaceID};
use atelier_smithy::{SmithyReader, SmithyWriter};

fn read(t: &[u8]) -> Option<Model> {
    match read_model_from_string(&mut SmithyReader::default(), t) {
        Ok(m) => {
            reach("accepted");
            Some(m)
        }
        Err(_) => {
            reach("rejected");
            None
        }
    }
}

// ------------------------------------------------------------------------------------------ S01

entry!(h_s01_bytes, {
    let mut b = vec![0u8; pick(3) as usize];
    fill(&mut b);
    read(&b);
});
const DOCS: [&str; 22] = [
    "$version: ~",
    "$version: \"~\"",
    "metadata ~ = 1",
    "metadata k = ~",
    "metadata k = [~]",
    "metadata \"~\" = {\"~\": 1}",
    "namespace a.~",
    "namespace a use ~#c",
    "namespace a use b#~",
    "namespace a string ~",
    "namespace a @~ string B",
    "namespace a @c(~) string B",
    "namespace a /// ~\nstring B",
    "namespace a list B {~: C}",
    "namespace a map B {key: C, value: ~}",
    "namespace a structure B {b: C~}",
    "namespace a apply B~ @c",
    "namespace a service B {version: ~}",
    "namespace a service B {version: \"~\"}",
    "namespace a operation B {~: C}",
    "namespace a resource B {identifiers: {~: C}}",
    "namespace a resource B {read: ~}",
];
fn hole(doc: &str, n: usize) -> Vec<u8> {
    let mut h = vec![0u8; n];
    fill(&mut h);
    let mut out = vec![];
    for b in doc.bytes() {
        if b == b'~' {
            out.extend_from_slice(&h);
        } else {
            out.push(b);
        }
    }
    out
}
entry!(h_s01_holes, {
    let d = DOCS[pick(DOCS.len() as u32) as usize];
    let n = pick(2) as usize;
    read(&hole(d, n));
});
const VALUES: [&str; 13] = ["null", "true", "0", "-1.5e3", "1e5", "9223372036854775808", "\"\"", "\"a b\"", "a#b$c", "Foo", "[]", "{}", "[{\"x y\": [1]}]"];
fn val() -> &'static str {
    VALUES[pick(VALUES.len() as u32) as usize]
}
const KINDS: [(&str, &str); 22] = [
    ("service", "version"), ("service", "operations"), ("service", "resources"), ("service", "rename"), ("service", "unknown"),
    ("operation", "input"), ("operation", "output"), ("operation", "errors"), ("operation", "unknown"),
    ("resource", "identifiers"), ("resource", "create"), ("resource", "put"), ("resource", "read"), ("resource", "update"), ("resource", "delete"),
    ("resource", "list"), ("resource", "operations"), ("resource", "collectionOperations"), ("resource", "resources"), ("resource", "unknown"),
    ("resource", "\"read\""), ("service", "\"version\""),
];
entry!(h_s01_types, {
    // any kind of value as a property of a service, operation or resource
    let (kind, key) = KINDS[pick(KINDS.len() as u32) as usize];
    let base = if kind == "service" && key != "version" && any_bool() { "version: \"1\"," } else { "" };
    let v = val();
    let w = match pick(3) {
        0 => v.to_string(),
        1 => format!("[{}]", v),
        _ => format!("{{a: {}}}", v),
    };
    read(format!("namespace a {} B {{{} {}: {}}}", kind, base, key, w).as_bytes());
});

// ------------------------------------------------------------------------------------------ S02

/// How a document is spelt.
#[derive(Clone)]
pub struct Style {
    /// between tokens
    ws: &'static str,
    /// keys of objects are quoted
    quoted: bool,
    /// traits with an object are written as an object, not as members
    braces: bool,
}
const GAPS: [&str; 7] = [" ", "\n", "\t", "\r\n", " , ", "// c @x {\n", "\n\n  "];
impl Style {
    fn plain() -> Style {
        Style { ws: " ", quoted: false, braces: false }
    }
    fn value(&self, v: &V) -> String {
        let w = self.ws;
        match v {
            V::S(s) => format!("\"{}\"", s),
            V::I(i) => format!("{}", i),
            V::F(f) => format!("{:?}", f),
            V::B(b) => (if *b { "true" } else { "false" }).to_string(),
            V::N => "null".to_string(),
            V::A(a) => format!("[{}{}{}]", w, a.iter().map(|x| self.value(x)).collect::<Vec<_>>().join(&format!("{},", w)), w),
            // quoted keys of objects are a known finding: see h_s02_quoted
            V::O(o) => format!("{{{}{}{}}}", w, Style { quoted: false, ..self.clone() }.pairs(o), w),
        }
    }
    fn key(&self, k: &str) -> String {
        if self.quoted {
            format!("\"{}\"", k)
        } else {
            k.to_string()
        }
    }
    fn pairs(&self, o: &[(String, V)]) -> String {
        let w = self.ws;
        o.iter().map(|(k, x)| format!("{}{}:{}{}", self.key(k), w, w, self.value(x))).collect::<Vec<_>>().join(&format!("{},", w))
    }
    fn a_trait(&self, t: &Tr) -> String {
        let w = self.ws;
        match &t.1 {
            None => format!("@{}", t.0.text()),
            Some(V::O(o)) if !self.braces && !o.is_empty() => format!("@{}({}{}{})", t.0.text(), w, self.pairs(o), w),
            Some(v) => format!("@{}({}{}{})", t.0.text(), w, self.value(v), w),
        }
    }
    fn traits(&self, t: &[Tr]) -> String {
        t.iter().map(|t| format!("{}{}", self.a_trait(t), self.ws)).collect::<Vec<_>>().concat()
    }
    fn members(&self, m: &[Mem]) -> String {
        let w = self.ws;
        let ms = m.iter().map(|m| format!("{}{}{}:{}{}", self.traits(&m.traits), m.name, w, w, m.target.text())).collect::<Vec<_>>();
        format!("{{{}{}{}}}", w, ms.join(&format!("{},{}", w, w)), w)
    }
    fn ids(&self, v: &[Id]) -> String {
        let w = self.ws;
        format!("[{}{}{}]", w, v.iter().map(|i| i.text()).collect::<Vec<_>>().join(&format!("{},", w)), w)
    }
    fn props(&self, p: &[(&str, String)]) -> String {
        let w = self.ws;
        format!("{{{}{}{}}}", w, p.iter().map(|(k, v)| format!("{}{}:{}{}", self.key(k), w, w, v)).collect::<Vec<_>>().join(&format!("{},", w)), w)
    }
    fn shape(&self, s: &Sh) -> String {
        let w = self.ws;
        let (kind, body) = match &s.kind {
            Kd::Simple(k) => (k.to_string(), String::new()),
            Kd::List(m) => ("list".to_string(), self.members(&[m.clone()])),
            Kd::Set(m) => ("set".to_string(), self.members(&[m.clone()])),
            Kd::Map(k, v) => ("map".to_string(), self.members(&[k.clone(), v.clone()])),
            Kd::Struct(m) => ("structure".to_string(), self.members(m)),
            Kd::Union(m) => ("union".to_string(), self.members(m)),
            Kd::Service(d) => {
                let mut p = vec![("version", format!("\"{}\"", d.version))];
                if !d.ops.is_empty() {
                    p.push(("operations", self.ids(&d.ops)));
                }
                if !d.res.is_empty() {
                    p.push(("resources", self.ids(&d.res)));
                }
                if !d.renames.is_empty() {
                    let r = d.renames.iter().map(|(i, n)| format!("\"{}\"{}:{}\"{}\"", i.text(), w, w, n)).collect::<Vec<_>>().join(",");
                    p.push(("rename", format!("{{{}}}", r)));
                }
                ("service".to_string(), self.props(&p))
            }
            Kd::Operation(d) => {
                let mut p = vec![];
                if let Some(i) = &d.input {
                    p.push(("input", i.text()));
                }
                if let Some(i) = &d.output {
                    p.push(("output", i.text()));
                }
                if !d.errors.is_empty() {
                    p.push(("errors", self.ids(&d.errors)));
                }
                ("operation".to_string(), self.props(&p))
            }
            Kd::Resource(d) => {
                let mut p = vec![];
                if !d.ids.is_empty() {
                    let q = d.ids.iter().map(|(n, t)| (n.as_str(), t.text())).collect::<Vec<_>>();
                    p.push(("identifiers", self.props(&q)));
                }
                for (i, s) in d.slots.iter().enumerate() {
                    if let Some(s) = s {
                        p.push((SLOTS[i], s.text()));
                    }
                }
                if !d.ops.is_empty() {
                    p.push(("operations", self.ids(&d.ops)));
                }
                if !d.cops.is_empty() {
                    p.push(("collectionOperations", self.ids(&d.cops)));
                }
                if !d.res.is_empty() {
                    p.push(("resources", self.ids(&d.res)));
                }
                ("resource".to_string(), self.props(&p))
            }
            Kd::Unresolved => return s.traits.iter().map(|t| format!("apply{}{}{}{}{}", w, s.id.text(), w, self.a_trait(t), w)).collect::<Vec<_>>().concat(),
        };
        format!("{}{}{}{}{}{}", self.traits(&s.traits), kind, w, s.id.name, w, body)
    }
    fn document(&self, meta: &[(String, V)], ns: &str, uses: &[Id], shapes: &[Sh]) -> String {
        let w = self.ws;
        let mut t = format!("$version:{}\"1.0\"\n", w);
        for (k, v) in meta {
            t.push_str(&format!("metadata{}{}{}={}{}\n", w, self.key(k), w, w, self.value(v)));
        }
        t.push_str(&format!("namespace{}{}\n", w, ns));
        for u in uses {
            t.push_str(&format!("use{}{}\n", w, u.text()));
        }
        for s in shapes {
            t.push_str(&self.shape(s));
            t.push('\n');
        }
        t
    }
}
const LAX: Lax = Lax { none_is_object: true };
fn means(text: &str, shapes: &[Sh], meta: &[(String, V)]) {
    match read_model_from_string(&mut SmithyReader::default(), text) {
        Ok(m) => {
            check_model(&m, shapes, LAX);
            check_meta(&m, meta);
            reach("read");
        }
        Err(_) => check(false, "a valid document is read"),
    }
}
/// Text that is spelt as it is.
fn unescaped(v: &V) {
    match v {
        V::S(s) => {
            let mut ok = true;
            for c in s.bytes() {
                ok = ok & (c >= 0x20) & (c != b'"') & (c != b'\\');
            }
            assume(ok);
        }
        V::A(a) => a.iter().for_each(unescaped),
        V::O(o) => o.iter().for_each(|(_, v)| unescaped(v)),
        _ => (),
    }
}
fn unescaped_shape(s: &Sh) {
    let tr = |t: &[Tr]| t.iter().for_each(|t| t.1.iter().for_each(unescaped));
    let me = |m: &Mem| tr(&m.traits);
    tr(&s.traits);
    match &s.kind {
        Kd::List(m) | Kd::Set(m) => me(m),
        Kd::Map(k, v) => {
            me(k);
            me(v)
        }
        Kd::Struct(m) | Kd::Union(m) => m.iter().for_each(me),
        _ => (),
    }
}
/// Traits of the members of lists, sets and maps are lost by the reader: see h_s02_member_traits.
fn drop_member_traits(s: &mut Sh) {
    match &mut s.kind {
        Kd::List(m) | Kd::Set(m) => m.traits.clear(),
        Kd::Map(k, v) => {
            k.traits.clear();
            v.traits.clear();
        }
        _ => (),
    }
}
fn sv(t: &str) -> V {
    V::S(t.to_string())
}
entry!(h_s02_kinds, {
    // every statement with every property
    let k = pick(10);
    let mut x = Sh { id: Id::new("n.n", &name1()), traits: vec![(Id::new("a.b", "tr"), Some(sv("v"))), (Id::new("a.b", "un"), None)], kind: rich(k) };
    unescaped_shape(&x);
    if k == 9 {
        x.id.ns = "m.m".to_string();
    }
    drop_member_traits(&mut x);
    let s = vec![x];
    means(&Style::plain().document(&[], "n.n", &[], &s), &s, &[]);
});
entry!(h_s02_one, {
    let mut s = crate::builder::ones("n.n", 9);
    s.iter_mut().for_each(drop_member_traits);
    means(&Style::plain().document(&[], "n.n", &[], &s), &s, &[]);
});
entry!(h_s02_wide, {
    let mut s = crate::builder::wide("n.n");
    s.iter_mut().for_each(drop_member_traits);
    means(&Style::plain().document(&[], "n.n", &[], &s), &s, &[]);
});
entry!(h_s02_two, {
    // two statements of any kinds
    let x = Sh::new(&Id::new("n.n", &named('P')), bare(pick(9)));
    let y = Sh { id: Id::new("n.n", "Qq"), traits: vec![(Id::new("a.b", "un"), None)], kind: bare(pick(9)) };
    let mut s = vec![x, y];
    s.iter_mut().for_each(drop_member_traits);
    means(&Style::plain().document(&[], "n.n", &[], &s), &s, &[]);
});
entry!(h_s02_style, {
    // separators, comments and quoted keys make no difference
    let quoted = any_bool();
    let st = Style { ws: GAPS[pick(7) as usize], quoted, braces: quoted };
    let c = named('c');
    let t = |n: &str| Id::new("t.t", n);
    // keys in the values of traits are not quoted here: see h_s02_quoted
    let tr = vec![
        (Id::new("a.b", "tr"), Some(V::O(vec![("k".to_string(), V::A(vec![V::I(1), V::O(vec![("q".to_string(), V::N)])])), ("l".to_string(), V::B(true))]))),
        (Id::new("a.b", "un"), None),
    ];
    let m = |n: &str, x: &str| Mem { name: n.to_string(), target: t(x), traits: tr.clone() };
    let k = match pick(9) {
        0 => Kd::Simple(Simple::Blob),
        1 => Kd::List(m("member", &c)),
        2 => Kd::Set(m("member", &c)),
        3 => Kd::Map(m("key", &c), m("value", "B")),
        4 => Kd::Struct(vec![m("a", &c), m("b", "B")]),
        5 => Kd::Union(vec![m("a", &c), m("b", "B")]),
        6 => Kd::Service(Svc { version: "1".to_string(), ops: vec![t(&c), t("B")], res: vec![t("C")], renames: vec![(t("D"), "Ren".to_string())] }),
        7 => Kd::Operation(Op { input: Some(t(&c)), output: Some(t("B")), errors: vec![t("C"), t("D")] }),
        _ => {
            let mut r = Res::default();
            r.ids = vec![("i".to_string(), t("G")), ("j".to_string(), t("G"))];
            r.slots[2] = Some(t(&c));
            r.ops = vec![t("H"), t("I")];
            Kd::Resource(r)
        }
    };
    let mut s = vec![Sh { id: Id::new("n.n", "Aa"), traits: tr.clone(), kind: k }];
    s.iter_mut().for_each(drop_member_traits);
    let meta = vec![("meta".to_string(), V::A(vec![V::B(false), V::S(c)])), ("m2".to_string(), V::N)];
    means(&st.document(&meta, "n.n", &[], &s), &s, &meta);
});
entry!(h_s02_names, {
    // every identifier of up to two characters is a name, and so is one that starts with an underscore or as a keyword
    let n = match pick(4) {
        0 => ident(1),
        1 => ident(2),
        2 => {
            let mut n = "_".to_string();
            n.push_str(&ident(2));
            n
        }
        _ => {
            let k = ["true", "false", "null", "list", "use", "string", "metadata"][pick(7) as usize];
            format!("{}{}", k, named('x'))
        }
    };
    let t = Id::new("t.t", &n);
    let o = Id::new("t.t", "O");
    let x = match pick(9) {
        0 => Sh::new(&Id::new("n.n", &n), Kd::Simple(Simple::Long)),
        1 => Sh::new(&o, Kd::List(Mem::new("member", &t))),
        2 => Sh::new(&o, Kd::Struct(vec![Mem::new(&n, &o)])),
        3 => Sh { id: o.clone(), traits: vec![(t, None)], kind: Kd::Simple(Simple::Blob) },
        4 => Sh { id: o.clone(), traits: vec![(Id::new("t.t", "tr"), Some(V::O(vec![(n, V::B(false))])))], kind: Kd::Simple(Simple::Blob) },
        5 => Sh::new(&o, Kd::Resource(Res { ids: vec![(n, o.clone())], ops: vec![t], ..Res::default() })),
        6 => Sh::new(&Id::new("n.n", &n), Kd::Operation(Op { input: Some(t.clone()), output: None, errors: vec![o.clone(), t] })),
        7 => Sh::new(&Id::new(&n, "S"), Kd::Union(vec![])),
        _ => Sh { id: o.clone(), traits: vec![(Id::new("t.t", "tr"), Some(V::S(t.text())))], kind: Kd::Simple(Simple::Blob) },
    };
    let ns = x.id.ns.clone();
    // the text of a shape ID in a value is not quoted
    let text = Style::plain().document(&[], &ns, &[], &[x.clone()]).replace("\"t.t#", "t.t#").replace("\" )", " )");
    means(&text, &[x], &[]);
});
entry!(h_s02_bare, {
    // a shape ID in a value, a namespace or a target, every character of a name that starts as a keyword
    let k = ["true", "false", "null"][pick(3) as usize];
    let mut n = k.to_string();
    n.push_str(&{
        let c = bytes::<1>();
        assume(is_word(c[0]) | (c[0] == b'.') | (c[0] == b'#') | (c[0] == b'$'));
        text(&c)
    });
    n.push('q');
    let last = n.as_bytes()[n.len() - 2];
    assume((last != b'.') & (last != b'$'));
    let w = match pick(2) {
        0 => format!("[ {} ]", n),
        _ => n.clone(),
    };
    let v = if w.len() > n.len() { V::A(vec![V::S(n)]) } else { V::S(n) };
    let meta = vec![("m".to_string(), v)];
    means(&format!("metadata m = {}\nnamespace n.n", w), &[], &meta);
});
fn text_ok(t: &str) -> bool {
    let mut ok = true;
    for c in t.bytes() {
        ok = ok & (c >= 0x20) & (c != b'"') & (c != b'\\');
    }
    ok
}
entry!(h_s02_text, {
    // quoted text of any two characters
    let n = pick(3) as usize;
    let t = if any_bool() { ascii(n) } else { utf8(n + 1) };
    assume(text_ok(&t));
    let v = V::S(t);
    let meta = vec![("m".to_string(), v.clone())];
    let x = Sh { id: Id::new("n.n", "S"), traits: vec![(Id::new("a.b", "c"), Some(v))], kind: Kd::Simple(Simple::Blob) };
    means(&Style::plain().document(&meta, "n.n", &[], &[x.clone()]), &[x], &meta);
});
entry!(h_s02_escapes, {
    // a known finding: the reader keeps escapes as they are spelt
    let (esc, c) = [("\\n", "\n"), ("\\t", "\t"), ("\\\"", "\""), ("\\\\", "\\"), ("\\u0041", "A"), ("\\/", "/")][pick(6) as usize];
    let q = named('q');
    match read_model_from_string(&mut SmithyReader::default(), format!("metadata m = \"{}{}{}\"\nnamespace n.n", q, esc, q)) {
        Ok(m) => {
            let v = m.metadata_value("m");
            let raw = matches!(v, Some(v) if is_value(v, &V::S(format!("{}{}{}", q, esc, q))));
            let meant = matches!(v, Some(v) if is_value(v, &V::S(format!("{}{}{}", q, c, q))));
            check(raw | meant, "the text around an escape is kept");
            check_known(meant, "an escape in quoted text denotes its character", "idl-escapes");
            reach("read");
        }
        Err(_) => check(false, "quoted text with an escape is read"),
    }
});
entry!(h_s02_quoted, {
    // a known finding: quoted keys of objects in values keep their quotes
    let k = named('k');
    match read_model_from_string(&mut SmithyReader::default(), format!("metadata \"m\" = {{\"{}\": 1, \"a b\": 2, z: 3}}\nnamespace n.n", k)) {
        Ok(m) => match m.metadata_value("m") {
            Some(atelier_core::model::values::Value::Object(o)) => {
                check(o.len() == 3, "every key of an object is kept");
                for (key, n) in [(k.as_str(), 1), ("a b", 2), ("z", 3)] {
                    let plain = matches!(o.get(key), Some(v) if is_value(v, &V::I(n)));
                    let quoted = matches!(o.get(&format!("\"{}\"", key)), Some(v) if is_value(v, &V::I(n)));
                    check(plain | quoted, "a key of an object has its value");
                    if n != 3 {
                        check_known(plain, "a quoted key is read without its quotes", "idl-quoted-keys");
                    } else {
                        check(plain, "an unquoted key is read as it is");
                    }
                }
                reach("read");
            }
            _ => check(false, "metadata under a quoted key is read"),
        },
        Err(_) => check(false, "an object with quoted keys is read"),
    }
});
entry!(h_s02_member_traits, {
    // a known finding: traits of the members of lists, sets and maps
    let tr = vec![(Id::new("a.b", &named('t')), Some(sv("v")))];
    let m = |n: &str| Mem { name: n.to_string(), target: Id::new("t.t", "X"), traits: tr.clone() };
    let k = pick(3);
    let x = Sh::new(&Id::new("n.n", "S"), match k {
        0 => Kd::List(m("member")),
        1 => Kd::Set(m("member")),
        _ => Kd::Map(m("key"), m("value")),
    });
    match read_model_from_string(&mut SmithyReader::default(), Style::plain().document(&[], "n.n", &[], &[x.clone()])) {
        Ok(r) => {
            let s = r.shape(&x.id.id()).map(|s| s.body().clone());
            let found: Vec<_> = match &s {
                Some(ShapeKind::List(l)) | Some(ShapeKind::Set(l)) => vec![l.member()],
                Some(ShapeKind::Map(m)) => vec![m.key(), m.value()],
                _ => vec![],
            };
            check(found.len() == if k == 2 { 2 } else { 1 }, "the members are read");
            for f in found {
                check(f.traits().len() <= 1, "no other traits");
                check_known(f.traits().len() == 1, "the traits of a member are read", "idl-member-traits");
                if f.traits().len() == 1 {
                    check_traits(f.traits(), &tr, LAX);
                }
            }
            reach("read");
        }
        Err(_) => check(false, "a list with traits on its member is read"),
    }
});
entry!(h_s02_values, {
    // values of every form, as metadata and as trait values
    let v = |i: u32| match i {
        0 => (format!("true"), V::B(true)),
        1 => (format!("false"), V::B(false)),
        2 => (format!("null"), V::N),
        3 => (format!("[]"), V::A(vec![])),
        4 => (format!("{{}}"), V::O(vec![])),
        5 => (format!("\"\""), sv("")),
        6 => (format!("-0.5"), V::F(-0.5)),
        7 => (format!("1e5"), V::F(1e5)),
        8 => (format!("12E-2"), V::F(0.12)),
        9 => (format!("1.5e+2"), V::F(150.0)),
        10 => (format!("-9223372036854775808"), V::I(i64::MIN)),
        11 => (format!("a.b#C$d"), sv("a.b#C$d")),
        _ => (format!("Cde"), sv("Cde")),
    };
    let w = |(t, x): (String, V)| match pick(4) {
        0 => (t, x),
        1 => (format!("[{}]", t), V::A(vec![x])),
        2 => (format!("{{k: {}}}", t), V::O(vec![("k".to_string(), x)])),
        _ => (format!("[{}, {}, 0]", t, t), V::A(vec![x.clone(), x, V::I(0)])),
    };
    let (t, x) = w(w(v(pick(13))));
    let c = named('q');
    let meta = vec![(c.clone(), x.clone())];
    let s = Sh { id: Id::new("n.n", "S"), traits: vec![(Id::new("a.b", &c), Some(x))], kind: Kd::Simple(Simple::Blob) };
    means(&format!("metadata {} = {}\nnamespace n.n\n@a.b#{}({}) blob S", c, t, c, t), &[s], &meta);
});
entry!(h_s02_digits, {
    // every integer of up to three digits
    let mut b = vec![0u8; pick(3) as usize + 1];
    fill(&mut b);
    let mut ok = true;
    let mut n = 0i64;
    for &c in &b {
        ok = ok & is_digit(c);
        n = n * 10 + c.wrapping_sub(b'0') as i64;
    }
    assume(ok & ((b.len() == 1) | (b[0] != b'0')));
    let t = text(&b);
    let (t, n) = if any_bool() { (format!("-{}", t), -n) } else { (t, n) };
    let meta = vec![("m".to_string(), V::A(vec![V::I(n), V::I(n)]))];
    means(&format!("metadata m = [{}, {}]\nnamespace n.n", t, t), &[], &meta);
});
/// The namespace that a relative name denotes.
fn resolved(name: &str, imported: &Id, local: &[&str], prelude: &[&str]) -> Id {
    let is = |a: &str| eq_nocase(a.as_bytes(), name.as_bytes());
    if is(&imported.name) {
        Id::new(&imported.ns, name)
    } else if local.iter().any(|l| is(l)) {
        Id::new("n.n", name)
    } else if prelude.iter().any(|l| eq_bytes(l.as_bytes(), name.as_bytes())) {
        Id::api(name)
    } else {
        Id::new("n.n", name)
    }
}
entry!(h_s02_resolve, {
    // a name is an imported, local or prelude shape, or else an undefined local one
    let first = ["Blo", "Lon", "tag"][pick(3) as usize];
    let mk = || {
        let c = bytes::<1>();
        assume(c[0].wrapping_sub(b'a') < 26);
        format!("{}{}", first, c[0] as char)
    };
    let (name, local) = (mk(), mk());
    let imported = Id::new("u.u", &format!("{}{}", first, if any_bool() { 'b' } else { 'x' }));
    assume(!eq_bytes(imported.name.as_bytes(), local.as_bytes()));
    let shape = resolved(&name, &imported, &[&local, "User"], &["Blob", "Long"]);
    let (text, mut s) = match pick(4) {
        0 => (format!("list User {{member: {}}}", name), Sh::new(&Id::new("n.n", "User"), Kd::List(Mem::new("member", &shape)))),
        1 => (format!("structure User {{a: {}}}", name), Sh::new(&Id::new("n.n", "User"), Kd::Struct(vec![Mem::new("a", &shape)]))),
        2 => (format!("operation User {{input: {}, errors: [{}]}}", name, name), Sh::new(&Id::new("n.n", "User"), Kd::Operation(Op { input: Some(shape.clone()), output: None, errors: vec![shape.clone()] }))),
        _ => {
            let t = resolved(&name, &imported, &[&local, "User"], &["tags"]);
            (format!("@{} structure User {{}}", name), Sh { id: Id::new("n.n", "User"), traits: vec![(t, None)], kind: Kd::Struct(vec![]) })
        }
    };
    let used = match s.traits.get(0) {
        Some(t) => t.0.clone(),
        None => shape.clone(),
    };
    if used.ns == "smithy.api" {
        reach("prelude");
    } else if used.ns == "u.u" {
        reach("imported");
    }
    let mut d = vec![s.clone(), Sh::new(&Id::new("n.n", &local), Kd::Simple(Simple::Short)), Sh::new(&imported, Kd::Unresolved)];
    if used.ns == "n.n" && !eq_bytes(used.name.as_bytes(), local.as_bytes()) {
        d.push(Sh::new(&used, Kd::Unresolved));
        reach("undefined");
    }
    s.traits.clear();
    means(&format!("namespace n.n\nuse {}\nshort {}\n{}", imported.text(), local, text), &d, &[]);
});
entry!(h_s02_apply, {
    // traits applied before or after the definition, by any name, to a shape or a member
    let q = named('q');
    let tr = (Id::new("a.b", &q), Some(sv("v")));
    let mut x = Sh { id: Id::new("n.n", "Foo"), traits: vec![(Id::new("a.b", "own"), None)], kind: Kd::Struct(vec![Mem::new("m", &Id::new("t.t", "T"))]) };
    let mut extra = vec![];
    let name = match pick(6) {
        0 => "Foo",
        1 => "n.n#Foo",
        2 => "Foo$m",
        3 => "n.n#Foo$m",
        4 => "o.o#Foo",
        _ => "Bar",
    };
    let def = Style::plain().document(&[], "n.n", &[], &[x.clone()]);
    let (head, body) = def.split_at(def.find("@a.b#own").unwrap());
    let apply = format!("apply {} @a.b#{}(\"v\")\n", name, q);
    match name {
        "Foo" | "n.n#Foo" => x.traits.push(tr),
        "Foo$m" | "n.n#Foo$m" => {
            if let Kd::Struct(m) = &mut x.kind {
                m[0].traits.push(tr)
            }
        }
        "Bar" => extra.push(Sh { id: Id::new("n.n", "Bar"), traits: vec![tr], kind: Kd::Unresolved }),
        _ => extra.push(Sh { id: Id::new("o.o", "Foo"), traits: vec![tr], kind: Kd::Unresolved }),
    }
    let t = if any_bool() { format!("{}{}\n{}", head, body, apply) } else { format!("{}{}\n{}", head, apply, body) };
    extra.push(x);
    means(&t, &extra, &[]);
});
entry!(h_s02_docs, {
    // documentation comments are the documentation trait
    let (a, b) = (named('a'), named('b'));
    let one = any_bool();
    let c = if one { format!("/// {}\n", a) } else { format!("/// {}\n/// {}\n", a, b) };
    let v = if one { a } else { format!("{}\n{}", a, b) };
    let tr = vec![(Id::api("documentation"), Some(V::S(v)))];
    let (t, s) = if any_bool() {
        (format!("{}structure S {{}}", c), Sh { id: Id::new("n.n", "S"), traits: tr, kind: Kd::Struct(vec![]) })
    } else {
        (format!("structure S {{\n{}m: t.t#T }}", c), Sh::new(&Id::new("n.n", "S"), Kd::Struct(vec![Mem { name: "m".to_string(), target: Id::new("t.t", "T"), traits: tr }])))
    };
    means(&format!("namespace n.n\n{}", t), &[s], &[]);
});
entry!(h_s02_sections, {
    // sections may be absent; the last line may be a comment or not end
    let c = named('c');
    let meta = if any_bool() { vec![(c.clone(), sv("v"))] } else { vec![] };
    let mut t = ["", "$version: \"1.0\"\n", "$version: \"1\"\n"][pick(3) as usize].to_string();
    for (k, _) in &meta {
        t.push_str(&format!("metadata {} = \"v\"\n", k));
    }
    let mut d = vec![];
    match pick(4) {
        0 => (),
        1 => t.push_str("namespace n.n"),
        2 => {
            t.push_str("namespace n.n\nuse u.u#U\n");
            d.push(Sh::new(&Id::new("u.u", "U"), Kd::Unresolved));
        }
        _ => {
            t.push_str("namespace n.n\nblob B");
            d.push(Sh::new(&Id::new("n.n", "B"), Kd::Simple(Simple::Blob)));
        }
    }
    t.push_str(["", "\n", "\n// ", "\n\n", " // x\n"][pick(5) as usize]);
    if t.ends_with("// ") {
        t.push_str(&c);
    }
    means(&t, &d, &meta);
});

// ------------------------------------------------------------------------------------------ S03

/// Write the model in one namespace and read the text: what a reader of the text gets is `expected`.
fn written(ns: &str, shapes: &[Sh], meta: &[(String, V)], expected: &[Sh]) {
    let mut m = to_model(shapes);
    for (k, v) in meta {
        m.add_metadata(k.clone(), to_value(v));
    }
    let text = write_model_to_string(&mut SmithyWriter::new(NamespaceID::new_unchecked(ns)), &m);
    check(text.is_ok(), "the model is written");
    match read_model_from_string(&mut SmithyReader::default(), text.unwrap()) {
        Ok(m) => {
            check_model(&m, expected, LAX);
            check_meta(&m, meta);
            reach("round trip");
        }
        Err(_) => check(false, "the text that was written is read"),
    }
}
/// Text of one letter in place of any character.
fn lettered(s: &mut Sh) {
    fn v(v: &mut V) {
        match v {
            V::S(s) => *s = "v".to_string(),
            _ => (),
        }
    }
    let tr = |t: &mut Vec<Tr>| t.iter_mut().for_each(|t| t.1.iter_mut().for_each(v));
    match &mut s.kind {
        Kd::List(m) | Kd::Set(m) => tr(&mut m.traits),
        Kd::Map(k, v) => {
            tr(&mut k.traits);
            tr(&mut v.traits)
        }
        Kd::Struct(m) | Kd::Union(m) => m.iter_mut().for_each(|m| tr(&mut m.traits)),
        _ => (),
    }
}
entry!(h_s03_kinds, {
    // every kind of shape with every property
    let k = pick(10);
    let mut x = Sh { id: Id::new("n.n", &name1()), traits: vec![(Id::new("a.b", "tr"), Some(sv("v"))), (Id::new("a.b", "un"), None)], kind: rich(k) };
    lettered(&mut x);
    if k == 9 && any_bool() {
        x.id.ns = "m.m".to_string();
    }
    drop_member_traits(&mut x);
    let s = vec![x];
    written("n.n", &s, &[], &s);
});
entry!(h_s03_one, {
    let mut s = crate::builder::ones("n.n", 9);
    s.iter_mut().for_each(drop_member_traits);
    written("n.n", &s, &[], &s);
});
entry!(h_s03_wide, {
    let mut s = crate::builder::wide("n.n");
    s.iter_mut().for_each(drop_member_traits);
    written("n.n", &s, &[], &s);
});
entry!(h_s03_two, {
    // two shapes of any kinds
    let x = Sh::new(&Id::new("n.n", &named('P')), bare(pick(9)));
    let y = Sh { id: Id::new("n.n", "Qq"), traits: vec![(Id::new("a.b", "un"), None)], kind: bare(pick(9)) };
    let mut s = vec![x, y];
    s.iter_mut().for_each(drop_member_traits);
    written("n.n", &s, &[], &s);
});
entry!(h_s03_member_traits, {
    // the traits of the member of a list, set or map are written; the reader loses them
    let k = pick(3);
    let q = named('q');
    let m = |n: &str, t: bool| Mem { name: n.to_string(), target: Id::new("t.t", "T"), traits: if t { vec![(Id::new("a.b", &q), Some(V::B(true)))] } else { vec![] } };
    let mut x = Sh::new(&Id::new("n.n", "S"), match k {
        0 => Kd::List(m("member", true)),
        1 => Kd::Set(m("member", true)),
        _ => {
            let key = any_bool();
            Kd::Map(m("key", key), m("value", !key))
        }
    });
    let text = write_model_to_string(&mut SmithyWriter::new(NamespaceID::new_unchecked("n.n")), &to_model(&[x.clone()])).unwrap();
    check(text.contains(&format!("@a.b#{}(true)", q)), "the trait of a member is written");
    drop_member_traits(&mut x);
    written("n.n", &[x.clone()], &[], &[x]);
});
entry!(h_s03_names, {
    // names of the shapes of the model, the prelude, other namespaces and nowhere, imported or not
    let first = ["Blo", "Lon", "tag"][pick(3) as usize];
    let mk = || {
        let c = bytes::<1>();
        assume(c[0].wrapping_sub(b'a') < 26);
        format!("{}{}", first, c[0] as char)
    };
    let ns = ["n.n", "smithy.api", "u.u"][pick(3) as usize];
    let used = Id::new(ns, &mk());
    let local = mk();
    let (kind, traits) = match pick(5) {
        0 => (Kd::List(Mem::new("member", &used)), vec![]),
        1 => (Kd::Map(Mem::new("key", &used), Mem::new("value", &used)), vec![]),
        2 => (Kd::Union(vec![Mem { name: "a".to_string(), target: used.clone(), traits: vec![(used.clone(), None)] }]), vec![]),
        3 => (Kd::Resource(Res { ids: vec![("i".to_string(), used.clone())], ops: vec![used.clone()], slots: [Some(used.clone()), None, None, None, None, None], ..Res::default() }), vec![]),
        _ => (Kd::Service(Svc { version: "1".to_string(), ops: vec![used.clone()], res: vec![used.clone()], renames: vec![] }), vec![(used.clone(), None)]),
    };
    let mut s = vec![Sh { id: Id::new("n.n", "User"), traits, kind }, Sh::new(&Id::new("n.n", &local), Kd::Simple(Simple::Short))];
    match pick(3) {
        // an undefined shape of the same or another namespace, which is imported
        0 => {
            let i = Id::new("u.u", &format!("{}b", first));
            assume(!eq_nocase(i.name.as_bytes(), local.as_bytes()));
            s.push(Sh::new(&i, Kd::Unresolved));
        }
        1 => {
            let i = Id::new("n.n", &format!("{}g", first));
            assume(!eq_nocase(i.name.as_bytes(), local.as_bytes()));
            s.push(Sh::new(&i, Kd::Unresolved));
        }
        _ => (),
    }
    written("n.n", &s, &[], &s);
});
fn scalar() -> V {
    match pick(7) {
        0 => V::B(any_bool()),
        1 => V::N,
        2 => V::I([0, -1, i64::MIN, i64::MAX][pick(4) as usize]),
        3 => V::F([0.5, -2.0, 1e21, 1e-7, f64::MAX, -0.0, 123456789.0][pick(7) as usize]),
        4 => sv(["", "a b", "a#b", "//", "@x {", "é"][pick(6) as usize]),
        5 => V::A(vec![]),
        _ => V::O(vec![]),
    }
}
fn nested(leaf: V, k: &str) -> V {
    match pick(5) {
        0 => leaf,
        1 => V::A(vec![leaf.clone(), leaf]),
        2 => V::O(vec![(k.to_string(), leaf.clone()), ("zz".to_string(), leaf)]),
        3 => V::A(vec![V::O(vec![(k.to_string(), leaf)]), V::O(vec![])]),
        _ => V::O(vec![(k.to_string(), V::A(vec![leaf])), ("zz".to_string(), V::O(vec![("a".to_string(), V::N)]))]),
    }
}
entry!(h_s03_values, {
    // values of every form as metadata and as the value of a trait
    let c = named('q');
    let v = nested(scalar(), &c);
    let meta = vec![(c.clone(), v.clone()), ("other key".to_string(), V::I(1))];
    let s = vec![Sh { id: Id::new("n.n", "S"), traits: vec![(Id::new("a.b", &c), Some(v.clone())), (Id::api("tags"), Some(v))], kind: Kd::Simple(Simple::Blob) }];
    written("n.n", &s, &meta, &s);
});
entry!(h_s03_integers, {
    // every integer of up to three digits
    let n = any_u64() as i64;
    assume((n > -1000) & (n < 1000));
    let v = V::A(vec![V::I(n), V::O(vec![("k".to_string(), V::I(n))])]);
    let meta = vec![("m".to_string(), v)];
    written("n.n", &[], &meta, &[]);
});
entry!(h_s03_text, {
    // text of any characters but controls, quotes and backslashes, in every place of text
    let mut b = vec![0u8; pick(2) as usize + 1];
    fill(&mut b);
    let mut ok = true;
    for &c in &b {
        ok = ok & (c >= 0x20) & (c != b'"') & (c != b'\\') & (c < 0x7f);
    }
    assume(ok);
    let t = text(&b);
    let (mut meta, mut s) = (vec![], vec![]);
    match pick(4) {
        0 => meta.push(("m".to_string(), V::S(t))),
        1 => meta.push((t, V::B(true))),
        2 => s.push(Sh::new(&Id::new("n.n", "S"), Kd::Service(Svc { version: t, ..Svc::default() }))),
        _ => s.push(Sh { id: Id::new("n.n", "S"), traits: vec![(Id::new("a.b", "tr"), Some(V::A(vec![V::S(t)])))], kind: Kd::Simple(Simple::Blob) }),
    }
    written("n.n", &s, &meta, &s);
});
entry!(h_s03_unresolved, {
    // traits applied to shapes that are not defined, of any namespace
    let q = named('q');
    let ns = ["n.n", "m.m"][pick(2) as usize];
    let tr = |n: &str| (Id::new("a.b", n), Some(V::B(true)));
    let two = any_bool();
    let s = vec![
        Sh { id: Id::new(ns, &named('U')), traits: if two { vec![tr(&q), (Id::api("tags"), None)] } else { vec![tr(&q)] }, kind: Kd::Unresolved },
        Sh::new(&Id::new("x.x", "Free"), Kd::Unresolved),
        Sh { id: Id::new("n.n", "User"), traits: vec![tr("own")], kind: Kd::Struct(vec![Mem::new("a", &Id::new(ns, "Uu")), Mem::new("b", &Id::new("x.x", "Free"))]) },
    ];
    written("n.n", &s, &[], &s);
});
entry!(h_s03_scope, {
    // the shapes of the other namespaces are not written
    let (a, b) = (named('A'), named('B'));
    let ns = any_bool();
    let ns = if ns { "n.n" } else { "m.m" };
    let s = vec![
        Sh::new(&Id::new("n.n", &a), Kd::Struct(vec![Mem::new("a", &Id::new("m.m", &b))])),
        Sh::new(&Id::new("m.m", &b), Kd::List(Mem::new("member", &Id::new("n.n", &a)))),
    ];
    let expected: Vec<Sh> = s.iter().filter(|s| s.id.ns == ns).cloned().collect();
    written(ns, &s, &[("k".to_string(), V::N)], &expected);
});
