//! J01..J04: the JSON AST reader and writer.
use crate::builder::rich;
use crate::desc::*;
use crate::gen::*;
use crate::model::some_kind;
use atelier_core::io::{read_model_from_string, write_model_to_string};
use atelier_core::model::shapes::{HasTraits, Simple};
use atelier_core::model::values::{Number, Value};
use atelier_core::model::Model;
use atelier_json::{JsonReader, JsonWriter};

fn read(t: &[u8]) -> Option<Model> {
    match read_model_from_string(&mut JsonReader::default(), t) {
        Ok(m) => {
            reach("accepted");
            Some(m)
        }
        Err(_) => {
            reach("rejected");
            None
        }
    }
}
fn write(m: &Model, pretty: bool) -> String {
    match write_model_to_string(&mut JsonWriter::new(pretty), m) {
        Ok(t) => t,
        Err(_) => {
            check(false, "a model is written");
            String::new()
        }
    }
}

// ------------------------------------------------------------------------------------------ J01

entry!(h_j01_bytes, {
    // any document of up to 3 bytes
    let mut b = vec![0u8; pick(4) as usize];
    fill(&mut b);
    read(&b);
});
const DOCS: [&str; 14] = [
    r#"{"smithy":"1.~"}"#,
    r#"{"smithy":"1.0","shapes":{"a~b":{"type":"string"}}}"#,
    r#"{"smithy":"1.0","shapes":{"a#b~":{"type":"apply"}}}"#,
    r#"{"smithy":"1.0","shapes":{"a#b$c":{"type":"~"}}}"#,
    r#"{"smithy":"1.0","shapes":{"a#b":{"type":"lis~","member":{"target":"a#c"}}}}"#,
    r#"{"smithy":"1.0","shapes":{"a#b":{"type":"list","member":{"target":"a~c"}}}}"#,
    r#"{"smithy":"1.0","shapes":{"a#b":{"type":"structure","members":{"m~":{"target":"a#c"}}}}}"#,
    r#"{"smithy":"1.0","shapes":{"a#b":{"type":"string","traits":{"a#~":1}}}}"#,
    r#"{"smithy":"1.0","shapes":{"a#b":{"type":"service","version":"~"}}}"#,
    r#"{"smithy":"1.0","shapes":{"a#b":{"type":"service","version":"1","rename":{"a#c":"~"}}}}"#,
    r#"{"smithy":"1.0","shapes":{"a#b":{"type":"resource","identifiers":{"~":{"target":"a#c"}}}}}"#,
    r#"{"smithy":"1.0","metadata":{"k":~}}"#,
    r#"{"smithy":"1.0","metadata":{"k":["~"]}}"#,
    r#"{"smithy":"1.0"~}"#,
];
fn hole(doc: &str, n: usize) -> Vec<u8> {
    let mut h = vec![0u8; n];
    fill(&mut h);
    let mut out = vec![];
    for b in doc.bytes() {
        if b == b'~' {
            out.extend_from_slice(&h);
        } else {
            out.push(b);
        }
    }
    out
}
entry!(h_j01_holes, {
    // any byte, or none, in a place of each document
    let d = DOCS[pick(DOCS.len() as u32) as usize];
    let n = pick(2) as usize;
    read(&hole(d, n));
});
entry!(h_j01_holes_t, {
    let d = DOCS[pick(DOCS.len() as u32) as usize];
    read(&hole(d, 2));
});
const VALUES: [&str; 13] = [
    "null", "true", "0", "-1.5e3", "18446744073709551615", "\"\"", "\"a#b\"", "\"x\"", "[]", "{}", "[{\"target\":\"a#b\"}]", "{\"target\":\"a#b\"}", "{\"x\":{\"target\":3}}",
];
fn val() -> &'static str {
    VALUES[pick(VALUES.len() as u32) as usize]
}
const PLACES: [(&str, &str); 34] = [
    ("list", "member"), ("list", "traits"), ("set", "member"), ("map", "key"), ("map", "value"), ("structure", "members"), ("structure", "traits"),
    ("union", "members"), ("union", "member"), ("service", "version"), ("service", "operations"), ("service", "resources"), ("service", "rename"),
    ("service", "traits"), ("operation", "input"), ("operation", "output"), ("operation", "errors"), ("operation", "traits"), ("resource", "identifiers"),
    ("resource", "create"), ("resource", "put"), ("resource", "read"), ("resource", "update"), ("resource", "delete"), ("resource", "list"),
    ("resource", "operations"), ("resource", "resources"), ("resource", "collectionOperations"), ("resource", "traits"), ("apply", "traits"),
    ("apply", "members"), ("string", "traits"), ("string", "member"), ("list", "list"),
];
entry!(h_j01_types, {
    // any kind of value in every place of a shape
    let (kind, key) = PLACES[pick(PLACES.len() as u32) as usize];
    let base = if kind == "service" && key != "version" {
        ",\"version\":\"1\""
    } else if kind == "map" && key == "value" {
        ",\"key\":{\"target\":\"a#k\"}"
    } else {
        ""
    };
    read(format!(r#"{{"smithy":"1.0","shapes":{{"a#b":{{"type":"{}"{},"{}":{}}}}}}}"#, kind, base, key, val()).as_bytes());
});
/// Places inside the properties of a shape; `~` is the value.
const INNER: [&str; 40] = [
    r#""type":"service","version":"1","rename":{"a#c":~}"#,
    r#""type":"service","version":"1","rename":{"c":~}"#,
    r#""type":"service","version":"1","operations":[~]"#,
    r#""type":"service","version":"1","operations":[{"target":~}]"#,
    r#""type":"service","version":"1","resources":[~]"#,
    r#""type":"service","version":"1","resources":[{"target":~}]"#,
    r#""type":"resource","identifiers":{"x":~}"#,
    r#""type":"resource","identifiers":{"x":{"target":~}}"#,
    r#""type":"resource","identifiers":{"1":{"target":~}}"#,
    r#""type":"resource","create":{"target":~}"#,
    r#""type":"resource","put":{"target":~}"#,
    r#""type":"resource","read":{"target":~}"#,
    r#""type":"resource","update":{"target":~}"#,
    r#""type":"resource","delete":{"target":~}"#,
    r#""type":"resource","list":{"target":~}"#,
    r#""type":"resource","operations":[~]"#,
    r#""type":"resource","operations":[{"target":~}]"#,
    r#""type":"resource","collectionOperations":[{"target":~}]"#,
    r#""type":"resource","resources":[~]"#,
    r#""type":"resource","resources":[{"target":~}]"#,
    r#""type":"operation","input":{"target":~}"#,
    r#""type":"operation","output":{"target":~}"#,
    r#""type":"operation","errors":[~]"#,
    r#""type":"operation","errors":[{"target":~}]"#,
    r#""type":"structure","members":{"m":~}"#,
    r#""type":"structure","members":{"m":{"target":~}}"#,
    r#""type":"structure","members":{"1":{"target":~}}"#,
    r#""type":"structure","members":{"m":{"target":"a#c","traits":~}}"#,
    r#""type":"structure","members":{"m":{"target":"a#c","traits":{"1":~}}}"#,
    r#""type":"union","members":{"m":{"traits":~}}"#,
    r#""type":"list","member":{"target":~}"#,
    r#""type":"list","member":{"traits":~}"#,
    r#""type":"set","member":{"target":~,"traits":{"a#t":null}}"#,
    r#""type":"map","key":{"target":~},"value":{"target":"a#c"}"#,
    r#""type":"map","key":{"target":"a#c"},"value":{"target":~}"#,
    r#""type":"map","key":{"target":"a#c"},"value":{"target":"a#c","traits":~}"#,
    r#""type":"apply","traits":{"c#d":[~]}"#,
    r#""type":"apply","traits":{"c#d":{"k":~}}"#,
    r#""type":"apply","traits":{"c":~}"#,
    r#""type":"string","traits":{"c#d$e":~}"#,
];
entry!(h_j01_inner, {
    // any kind of value inside the properties of a shape
    let p = INNER[pick(INNER.len() as u32) as usize].replace('~', val());
    read(format!(r#"{{"smithy":"1.0","shapes":{{"a#b":{{{}}}}}}}"#, p).as_bytes());
});
entry!(h_j01_pairs, {
    // two members of a map, a service or a resource
    let d = match pick(3) {
        0 => format!(r#"{{"smithy":"1.0","shapes":{{"a#b":{{"type":"map","key":{},"value":{}}}}}}}"#, val(), val()),
        1 => format!(r#"{{"smithy":"1.0","shapes":{{"a#b":{{"type":"structure","members":{{"x":{},"X":{}}}}}}}}}"#, val(), val()),
        _ => format!(r#"{{"smithy":"1.0","shapes":{{"a#b":{},"A#b":{}}}}}"#, val(), val()),
    };
    read(d.as_bytes());
});
entry!(h_j01_top, {
    // any kind of value at the top, as version, metadata or shapes, as a shape, its type or a trait
    let v = val();
    let d = match pick(9) {
        0 => v.to_string(),
        1 => format!(r#"{{"smithy":{}}}"#, v),
        2 => format!(r#"{{"smithy":"1.0","metadata":{}}}"#, v),
        3 => format!(r#"{{"smithy":"1.0","shapes":{}}}"#, v),
        4 => format!(r#"{{"smithy":"1.0","shapes":{{"a#b":{}}}}}"#, v),
        5 => format!(r#"{{"smithy":"1.0","shapes":{{"a#b":{{"type":{}}}}}}}"#, v),
        6 => format!(r#"{{"smithy":"1.0","shapes":{{"a#b":{{"type":"apply","traits":{{"c#d":{}}}}}}}}}"#, v),
        7 => format!(r#"{{"smithy":"1.0","shapes":{{"a#b":{{"type":"list","member":{{"target":"a#c","traits":{{"c#d":{}}}}}}}}}}}"#, v),
        _ => format!(r#"{{"smithy":"1.0","shapes":{{"a#b":{{"type":"union","members":{{"m":{{"target":{},"traits":{}}}}}}}}}}}"#, v, val()),
    };
    read(d.as_bytes());
});

// ------------------------------------------------------------------------------------------ J02

fn round(m: &Model, shapes: &[Sh], meta: &[(String, V)], pretty: bool) {
    let t = write(m, pretty);
    match read_model_from_string(&mut JsonReader::default(), &t) {
        Ok(n) => {
            check_model(&n, shapes, Lax { none_is_object: true });
            check_meta(&n, meta);
            check(n.smithy_version().to_string() == m.smithy_version().to_string(), "the version is kept");
        }
        Err(_) => check(false, "what is written is read"),
    }
    reach("round");
}
fn with_meta(shapes: &[Sh], meta: &[(String, V)]) -> Model {
    let mut m = to_model(shapes);
    for (k, v) in meta {
        let r = m.add_metadata(k.clone(), to_value(v));
        check(r.is_ok(), "new metadata is added");
    }
    m
}
/// A value of any kind; numbers are concrete, J03 has the others.
fn small(depth: u32) -> V {
    match pick(if depth > 0 { 10 } else { 6 }) {
        0 => V::S(ascii(1)),
        1 => V::I(-42),
        2 => V::I(i64::MAX),
        3 => V::F(-0.25),
        4 => V::B(pick(2) == 1),
        5 => V::N,
        6 => V::A(vec![]),
        7 => V::A(vec![small(depth - 1), V::I(0)]),
        8 => V::O(vec![]),
        _ => V::O(vec![(ascii(1), small(depth - 1)), ("kk".to_string(), V::N)]),
    }
}
entry!(h_j02_kinds, {
    let k = pick(10);
    let p = pick(2) == 1;
    let tr = (Id::new("a.b", "tr"), if p { Some(V::S("v".to_string())) } else { None });
    let s = vec![Sh { id: Id::new("n.n", "Aa"), traits: vec![tr], kind: rich(k) }];
    round(&to_model(&s), &s, &[], p);
});
entry!(h_j02_one, {
    let s = crate::builder::ones("n.n", 10);
    round(&to_model(&s), &s, &[], pick(2) == 1);
});
entry!(h_j02_wide, {
    let s = crate::builder::wide("n.n");
    round(&to_model(&s), &s, &[], pick(2) == 1);
});
entry!(h_j02_names, {
    // names of one character, or of two that begin with q
    let w = pick(3);
    let at = |i: u32, d: &str| if w != i { d.to_string() } else if pick(2) == 0 { ident(1) } else { named('q') };
    let s = vec![
        Sh::new(&Id::new("n.n", &at(0, "Aa")), Kd::Struct(vec![Mem::new(&at(1, "mm"), &Id::new("t.t", "T"))])),
        Sh::new(&Id::new(&at(2, "q"), "Other"), Kd::Simple(Simple::Blob)),
    ];
    round(&to_model(&s), &s, &[], false);
});
entry!(h_j02_values, {
    values(1);
});
entry!(h_j02_values_t, {
    values(2);
});
fn values(depth: u32) {
    let v = small(depth);
    if any_bool() {
        let s = vec![Sh { id: Id::new("n.n", "Aa"), traits: vec![(Id::new("a.b", "tr"), Some(v))], kind: Kd::Simple(Simple::String) }];
        round(&to_model(&s), &s, &[], any_bool());
    } else {
        let e = vec![("key".to_string(), v)];
        round(&with_meta(&[], &e), &[], &e, any_bool());
    }
}
entry!(h_j02_two, {
    let (a, b) = (pick(10), pick(10));
    let s = vec![Sh::new(&Id::new("n.n", "A"), some_kind(a)), Sh::new(&Id::new("n.n", "B"), some_kind(b))];
    round(&to_model(&s), &s, &[("k".to_string(), V::I(1))][..0], false);
});
entry!(h_j02_traits, {
    // traits of members and shapes, several at once
    let t = |n: &str, v: Option<V>| (Id::new("a.b", n), v);
    let mut m = Mem::new("m", &Id::new("t.t", "T"));
    m.traits = vec![t(&ident(1), Some(small(0))), t("tt", None)];
    let k = match pick(5) {
        0 => Kd::List(Mem { name: "member".to_string(), ..m.clone() }),
        1 => Kd::Set(Mem { name: "member".to_string(), ..m.clone() }),
        2 => Kd::Map(Mem { name: "key".to_string(), ..m.clone() }, Mem { name: "value".to_string(), traits: vec![t("vv", Some(V::B(true)))], ..m.clone() }),
        3 => Kd::Struct(vec![m.clone(), Mem { name: "n".to_string(), traits: vec![t("vv", Some(V::N))], ..m.clone() }]),
        _ => Kd::Union(vec![m.clone()]),
    };
    let s = vec![Sh { id: Id::new("n.n", "Aa"), traits: vec![t("ss", Some(V::I(3))), t("uu", None)], kind: k }];
    round(&to_model(&s), &s, &[], false);
});

// ------------------------------------------------------------------------------------------ J03

/// The value read from the JSON text, as metadata or as the value of a trait.
fn value_of(t: &str) -> Option<Value> {
    let on_trait = any_bool();
    let d = if on_trait {
        format!(r#"{{"smithy":"1.0","shapes":{{"a#b":{{"type":"string","traits":{{"c#d":{}}}}}}}}}"#, t)
    } else {
        format!(r#"{{"smithy":"1.0","metadata":{{"k":{}}}}}"#, t)
    };
    let m = match read_model_from_string(&mut JsonReader::default(), &d) {
        Ok(m) => m,
        Err(_) => return None,
    };
    let v = if on_trait {
        let i = Id::new("a", "b").id();
        match m.shape(&i).and_then(|s| s.traits().get(&Id::new("c", "d").id())) {
            Some(Some(v)) => v.clone(),
            _ => {
                check(false, "the trait has the value");
                return None;
            }
        }
    } else {
        match m.metadata_value(&"k".to_string()) {
            Some(v) => v.clone(),
            None => {
                check(false, "the metadata has the value");
                return None;
            }
        }
    };
    // what is written for it reads the same
    let out = write(&m, false);
    match read_model_from_string(&mut JsonReader::default(), &out) {
        Ok(n) => {
            let w = if on_trait {
                n.shape(&Id::new("a", "b").id()).and_then(|s| s.traits().get(&Id::new("c", "d").id()).cloned()).flatten()
            } else {
                n.metadata_value(&"k".to_string()).cloned()
            };
            match (&v, &w) {
                (Value::Number(Number::Float(a)), Some(Value::Number(Number::Float(b)))) => check(a.to_bits() == b.to_bits(), "a value written is read the same"),
                _ => check(w.as_ref() == Some(&v), "a value written is read the same"),
            }
        }
        Err(_) => check(false, "a value written is read"),
    }
    Some(v)
}
fn digit() -> u8 {
    let c = bytes::<1>();
    assume(is_digit(c[0]));
    c[0]
}
entry!(h_j03_int, {
    // every integer of up to two digits
    let neg = any_bool();
    let n = pick(2) as usize + 1;
    let mut t = if neg { "-".to_string() } else { String::new() };
    let mut want: i64 = 0;
    for i in 0..n {
        let d = digit();
        assume(i > 0 || n == 1 || d != b'0');
        want = want * 10 + (d - b'0') as i64;
        t.push(d as char);
    }
    assume(!(neg & (want == 0)));
    if neg {
        want = -want;
    }
    match value_of(&t) {
        Some(Value::Number(Number::Integer(i))) => check(i == want, "an integer keeps its value"),
        _ => check(false, "an integer is read as an integer"),
    }
    reach("int");
});
entry!(h_j03_edge, {
    // integers next to the ends of the 64-bit ranges
    let (t, base, neg) = match pick(3) {
        0 => ("922337203685477580", 922337203685477580i128, false),
        1 => ("-922337203685477580", 922337203685477580, true),
        _ => ("1844674407370955161", 1844674407370955161, false),
    };
    let d = digit();
    let u = base * 10 + (d - b'0') as i128;
    let want = if neg { -u } else { u };
    let fits = want >= i64::MIN as i128 && want <= i64::MAX as i128;
    assume(want <= u64::MAX as i128);
    assume(want >= i64::MIN as i128);
    match value_of(&format!("{}{}", t, d as char)) {
        Some(Value::Number(Number::Integer(i))) => {
            reach("fits");
            check(i as i128 == want, "an integer keeps its value")
        }
        None => {
            reach("refused");
            check(!fits, "an integer that fits is read")
        }
        Some(_) => check(false, "an integer is read as an integer or refused"),
    }
});
entry!(h_j03_float, {
    // numbers with a fraction or exponent are floats of that value
    let d = digit();
    let x = (d - b'0') as f64;
    let (t, want) = match pick(4) {
        0 => (format!("{}.5", d as char), x + 0.5),
        1 => (format!("-{}.25", d as char), -(x + 0.25)),
        2 => (format!("{}e1", d as char), x * 10.0),
        _ => (format!("{}.0", d as char), x),
    };
    match value_of(&t) {
        Some(Value::Number(Number::Float(f))) => check(f == want, "a float keeps its value"),
        _ => check(false, "a number with a fraction or exponent is a float"),
    }
    reach("float");
});
entry!(h_j03_string, {
    // any text of up to two characters, as itself or escaped
    let (json, want) = match pick(4) {
        0 => {
            let s = utf8(1 + pick(2) as usize);
            let mut ok = true;
            for c in s.bytes() {
                ok = ok & (c >= 0x20) & (c != b'"') & (c != b'\\');
            }
            assume(ok);
            (s.clone(), s)
        }
        1 => {
            const E: [(&str, &str); 8] = [("\\\"", "\""), ("\\\\", "\\"), ("\\/", "/"), ("\\b", "\u{8}"), ("\\f", "\u{c}"), ("\\n", "\n"), ("\\r", "\r"), ("\\t", "\t")];
            let (e, w) = E[pick(8) as usize];
            (format!("a{}z", e), format!("a{}z", w))
        }
        2 => {
            // \u00XY
            let (x, y) = (digit(), digit());
            assume(x < b'8');
            let c = (x - b'0') * 16 + (y - b'0');
            (format!("\\u00{}{}", x as char, y as char), (c as char).to_string())
        }
        _ => ("\\u20AC\\uD83D\\uDE00".to_string(), "\u{20ac}\u{1f600}".to_string()),
    };
    match value_of(&format!("\"{}\"", json)) {
        Some(Value::String(s)) => check(eq_bytes(s.as_bytes(), want.as_bytes()), "a string keeps every character"),
        _ => check(false, "a string is read as a string"),
    }
    reach("string");
});
fn json_text(v: &V) -> String {
    match v {
        V::S(s) => format!("\"{}\"", s),
        V::I(i) => format!("{}", i),
        V::F(f) => format!("{:?}", f),
        V::B(b) => (if *b { "true" } else { "false" }).to_string(),
        V::N => "null".to_string(),
        V::A(a) => format!("[{}]", a.iter().map(json_text).collect::<Vec<_>>().join(" , ")),
        V::O(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("\"{}\" : {}", k, json_text(v))).collect::<Vec<_>>().join(",")),
    }
}
fn plain(depth: u32) -> V {
    match pick(if depth > 0 { 9 } else { 5 }) {
        0 => V::S(ident(1)),
        1 => V::I(12),
        2 => V::F(2.5),
        3 => V::B(pick(2) == 1),
        4 => V::N,
        5 => V::A(vec![]),
        6 => V::A(vec![plain(depth - 1), V::S("z".to_string()), V::N]),
        7 => V::O(vec![]),
        _ => V::O(vec![(ident(1), plain(depth - 1)), ("kk".to_string(), V::A(vec![V::I(1), V::I(2)]))]),
    }
}
entry!(h_j03_nested, {
    let v = plain(2);
    match value_of(&json_text(&v)) {
        Some(r) => check(is_value(&r, &v), "nested values keep kind, order, keys and content"),
        None => check(false, "a JSON value is read"),
    }
    reach("nested");
});
entry!(h_j03_write, {
    // the text written for a number is the number
    let x = [0i64, 1, -1, i64::MIN, i64::MAX, 1 << 53, -4503599627370497][pick(7) as usize];
    let m = with_meta(&[], &[("k".to_string(), V::I(x))]);
    check(write(&m, false) == format!("{{\"metadata\":{{\"k\":{}}},\"shapes\":{{}},\"smithy\":\"1.0\"}}", x) || write(&m, false).contains(&format!("\"k\":{}}}", x)), "an integer is written in decimal");
    reach("write");
});

// ------------------------------------------------------------------------------------------ J04

fn occurrences(t: &[u8], p: &[u8]) -> u32 {
    let mut n = 0;
    if t.len() >= p.len() {
        for i in 0..=t.len() - p.len() {
            n += eq_bytes(&t[i..i + p.len()], p) as u32;
        }
    }
    n
}
entry!(h_j04_order, {
    let (x, y) = (ident(1), ident(1));
    assume(!eq_nocase(x.as_bytes(), y.as_bytes()));
    let id = |s: &str| Id::new("n.n", s);
    let two = [(id("T"), None), (id("U"), Some(V::O(vec![("p".to_string(), V::I(1)), ("q".to_string(), V::N)])))];
    let rev = |d: &[Tr]| d.iter().rev().cloned().collect::<Vec<Tr>>();
    let (ms, rs) = (vec![Mem::new(&x, &id("T")), Mem::new(&y, &id("U"))], vec![Mem::new(&y, &id("U")), Mem::new(&x, &id("T"))]);
    let (k1, k2) = match pick(5) {
        0 => (Kd::Struct(ms), Kd::Struct(rs)),
        1 => (Kd::Union(ms), Kd::Union(rs)),
        2 => {
            let f = |v: Vec<(Id, String)>| Kd::Service(Svc { version: "1".to_string(), renames: v, ..Svc::default() });
            let (p, q) = ((id(&x), "P".to_string()), (id(&y), "Q".to_string()));
            (f(vec![p.clone(), q.clone()]), f(vec![q, p]))
        }
        3 => {
            let f = |v: Vec<(String, Id)>| Kd::Resource(Res { ids: v, ..Res::default() });
            let (p, q) = ((x.clone(), id("T")), (y.clone(), id("U")));
            (f(vec![p.clone(), q.clone()]), f(vec![q, p]))
        }
        _ => (Kd::Simple(Simple::String), Kd::Simple(Simple::String)),
    };
    let (a, b) = (Sh { id: id("A"), traits: two.to_vec(), kind: k1 }, Sh { id: id("A"), traits: rev(&two), kind: k2 });
    let o = Sh::new(&id(&format!("A{}", x)), Kd::Simple(Simple::Blob));
    let (m1, m2) = ((x.clone(), V::I(1)), (y.clone(), V::A(vec![V::I(2), V::N])));
    let pretty = any_bool();
    hash_mode(1);
    let first = write(&with_meta(&[a, o.clone()], &[m1.clone(), m2.clone()]), pretty);
    hash_mode(2);
    let second = write(&with_meta(&[o, b], &[m2, m1]), pretty);
    check(eq_bytes(first.as_bytes(), second.as_bytes()), "the text does not depend on insertion or hash order");
    reach("order");
});
entry!(h_j04_wide, {
    // a model of a shape of each kind, put together backwards and hashed otherwise
    let s = crate::builder::wide_with("n.n", "q");
    let mut r: Vec<Sh> = s.iter().rev().cloned().collect();
    for x in r.iter_mut() {
        x.traits.reverse();
        match &mut x.kind {
            Kd::Struct(m) | Kd::Union(m) => m.reverse(),
            Kd::Service(d) => d.renames.reverse(),
            Kd::Resource(d) => d.ids.reverse(),
            _ => (),
        }
    }
    let meta: Vec<(String, V)> = (0..6).map(|i| (format!("k{}", i), V::I(i))).collect();
    let back: Vec<(String, V)> = meta.iter().rev().cloned().collect();
    let pretty = pick(2) == 1;
    hash_mode(1);
    let first = write(&with_meta(&s, &meta), pretty);
    hash_mode(2 + pick(4));
    let second = write(&with_meta(&r, &back), pretty);
    check(eq_bytes(first.as_bytes(), second.as_bytes()), "the text does not depend on insertion or hash order");
    reach("order");
});
entry!(h_j04_once, {
    // valid JSON that has every shape once, under its absolute ID
    let (a, b) = (pick(10), pick(10));
    let s = vec![Sh::new(&Id::new("n.n", &named('A')), some_kind(a)), Sh::new(&Id::new("m", &named('B')), some_kind(b))];
    let t = write(&to_model(&s), false);
    for x in &s {
        check(occurrences(t.as_bytes(), format!("\"{}\":{{", x.id.text()).as_bytes()) == 1, "each shape is written once under its absolute ID");
    }
    check(eq_bytes(&t.as_bytes()[..1], b"{") && t.ends_with('}'), "the text is a JSON object");
    reach("once");
});
