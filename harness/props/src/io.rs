//! C20, C21: the line-oriented form and the file helpers.
use crate::builder::rich;
use crate::desc::*;
use crate::gen::*;
use atelier_core::io::lines::{make_line_oriented_form, LineOrientedWriter};
use atelier_core::error::{ErrorKind, Result as ModelResult};
use atelier_core::io::debug::DebugWriter as Debugger;
use atelier_core::io::{read_model_from_file, read_model_from_string, write_model_to_file, write_model_to_string, ModelReader, ModelWriter};
use std::io::{Read, Write};
use std::path::PathBuf;
use atelier_core::model::shapes::Simple;
use atelier_core::model::Model;

// ------------------------------------------------------------------------------------------ C20

/// Values whose numbers are concrete: the digits of a number are not the subject here.
fn line_value(depth: u32) -> V {
    match choose(if depth > 0 { 11 } else { 6 }) {
        0 => V::S(ascii(1)),
        1 => V::S(String::new()),
        2 => V::I(-42),
        3 => V::F(1.5),
        4 => V::B(choose(2) == 1),
        5 => V::N,
        6 => V::A(vec![]),
        7 => V::A(vec![line_value(depth - 1)]),
        8 => V::A(vec![V::I(7), V::S(ascii(1))]),
        9 => V::O(vec![]),
        _ => V::O(vec![(ident(1), line_value(depth - 1)), ("kk".to_string(), V::I(0))]),
    }
}
fn value_lines(p: &str, v: &V, out: &mut Vec<String>) {
    match v {
        V::S(s) => out.push(format!("{}\"{}\"", p, s)),
        V::I(i) => out.push(format!("{}{}", p, i)),
        V::F(f) => out.push(format!("{}{}", p, f)),
        V::B(b) => out.push(format!("{}{}", p, if *b { "true" } else { "false" })),
        V::N => out.push(format!("{}()", p)),
        V::A(a) => {
            if a.is_empty() {
                out.push(format!("{}[]", p));
            }
            for (i, x) in a.iter().enumerate() {
                value_lines(&format!("{}[{}]=", p, i), x, out);
            }
        }
        V::O(o) => {
            if o.is_empty() {
                out.push(format!("{}{{}}", p));
            }
            for (k, x) in o {
                value_lines(&format!("{}{{{}}}=", p, k), x, out);
            }
        }
    }
}
fn trait_lines(p: &str, t: &[Tr], out: &mut Vec<String>) {
    for (i, v) in t {
        let q = format!("{}::trait::{}", p, i.text());
        match v {
            None => out.push(q),
            Some(v) => value_lines(&format!("{}<=", q), v, out),
        }
    }
}
fn mem_lines(p: &str, m: &Mem, out: &mut Vec<String>) {
    let q = format!("{}::{}", p, m.name);
    out.push(format!("{}=>{}", q, m.target.text()));
    trait_lines(&q, &m.traits, out);
}
fn simple_word(s: &Simple) -> &'static str {
    const W: [&str; 13] = ["blob", "boolean", "document", "string", "byte", "short", "integer", "long", "float", "double", "bigInteger", "bigDecimal", "timestamp"];
    for i in 0..13 {
        if SIMPLES[i] == *s {
            return W[i];
        }
    }
    ""
}
/// The lines the format prescribes for a shape, from its description.
fn shape_lines(s: &Sh, out: &mut Vec<String>) {
    let w = match &s.kind {
        Kd::Simple(x) => simple_word(x),
        Kd::List(_) => "list",
        Kd::Set(_) => "set",
        Kd::Map(..) => "map",
        Kd::Struct(_) => "structure",
        Kd::Union(_) => "union",
        Kd::Service(_) => "service",
        Kd::Operation(_) => "operation",
        Kd::Resource(_) => "resource",
        Kd::Unresolved => "unresolved",
    };
    let p = format!("{}::{}", w, s.id.text());
    out.push(p.clone());
    let tgt = |out: &mut Vec<String>, n: &str, t: &Id| out.push(format!("{}::{}=>{}", p, n, t.text()));
    match &s.kind {
        Kd::List(m) | Kd::Set(m) => mem_lines(&p, m, out),
        Kd::Map(k, v) => {
            mem_lines(&p, k, out);
            mem_lines(&p, v, out);
        }
        Kd::Struct(ms) | Kd::Union(ms) => ms.iter().for_each(|m| mem_lines(&p, m, out)),
        Kd::Service(d) => {
            out.push(format!("{}::version<=\"{}\"", p, d.version));
            d.ops.iter().for_each(|t| tgt(out, "operation", t));
            d.res.iter().for_each(|t| tgt(out, "resource", t));
            for (i, n) in &d.renames {
                out.push(format!("{}::rename::{}<={}", p, i.text(), n));
            }
        }
        Kd::Operation(d) => {
            d.input.iter().for_each(|t| tgt(out, "input", t));
            d.output.iter().for_each(|t| tgt(out, "output", t));
            d.errors.iter().for_each(|t| tgt(out, "error", t));
        }
        Kd::Resource(d) => {
            for (n, t) in &d.ids {
                out.push(format!("{}::identifier::{}=>{}", p, n, t.text()));
            }
            for (i, t) in d.slots.iter().enumerate() {
                if let Some(t) = t {
                    tgt(out, SLOTS[i], t);
                }
            }
            d.ops.iter().for_each(|t| tgt(out, "operation", t));
            d.cops.iter().for_each(|t| tgt(out, "collection_operation", t));
            d.res.iter().for_each(|t| tgt(out, "resource", t));
        }
        _ => (),
    }
    trait_lines(&p, &s.traits, out);
}
fn expected(shapes: &[Sh], meta: &[(String, V)]) -> Vec<String> {
    let mut out = vec![];
    for (k, v) in meta {
        value_lines(&format!("meta::{}<=", k), v, &mut out);
    }
    for s in shapes {
        shape_lines(s, &mut out);
    }
    out
}
/// The same lines, as multisets, as one formula.
fn same_lines(got: &[String], want: &[String]) -> bool {
    let n = |v: &[String], l: &String| v.iter().fold(0u32, |a, x| a + eq_bytes(x.as_bytes(), l.as_bytes()) as u32);
    let mut r = got.len() == want.len();
    for l in want {
        r = r & (n(got, l) == n(want, l));
    }
    r
}
fn c20(m: &Model, shapes: &[Sh], meta: &[(String, V)]) -> Vec<String> {
    let got = make_line_oriented_form(m);
    let want = expected(shapes, meta);
    check(got.len() == want.len(), "as many lines as the model has elements");
    check(same_lines(&got, &want), "exactly the lines of the elements of the model");
    for i in 1..got.len() {
        check(got[i - 1] <= got[i], "lines are sorted");
    }
    got
}
fn with_meta(shapes: &[Sh], meta: &[(String, V)]) -> Model {
    let mut m = to_model(shapes);
    for (k, v) in meta {
        let r = m.add_metadata(k.clone(), to_value(v));
        check(r.is_ok(), "new metadata is added");
    }
    m
}
entry!(h_c20_kinds, {
    let k = choose(10);
    let t = if k == 0 || k == 9 { line_value(0) } else { V::S(ascii(1)) };
    let s = vec![Sh { id: Id::new("n.n", &name1()), traits: vec![(Id::new("a.b", &ident(1)), if any_bool() { Some(t) } else { None })], kind: rich(k) }];
    c20(&to_model(&s), &s, &[]);
    reach("lines");
});
entry!(h_c20_one, {
    let s = crate::builder::ones("n.n", 10);
    c20(&to_model(&s), &s, &[]);
    reach("lines");
});
entry!(h_c20_wide, {
    let s = crate::builder::wide("n.n");
    c20(&to_model(&s), &s, &[]);
    reach("lines");
});
entry!(h_c20_values, {
    let on_trait = any_bool();
    let v = line_value(2);
    let (s, m) = if on_trait {
        (vec![Sh { id: Id::new("n.n", "Aa"), traits: vec![(Id::new("a.b", "tr"), Some(v))], kind: Kd::Unresolved }], vec![])
    } else {
        (vec![], vec![("key".to_string(), v)])
    };
    c20(&with_meta(&s, &m), &s, &m);
    reach("lines");
});
/// Two models of the same elements, put together in different orders and hashed differently.
fn c20_order(wide: bool) {
    let (x, y) = (ident(1), ident(1));
    assume(!eq_nocase(x.as_bytes(), y.as_bytes()));
    let id = |s: &str| Id::new("n.n", s);
    let two = [(id("T"), None), (id("U"), Some(V::I(1)))];
    let rev = |d: &[Tr]| d.iter().rev().cloned().collect::<Vec<Tr>>();
    let (k1, k2) = match choose(if wide { 5 } else { 4 }) {
        0 => {
            let f = |a: &str, b: &str| Kd::Struct(vec![Mem::new(a, &id("T")), Mem::new(b, &id("U"))]);
            (f(&x, &y), f(&y, &x))
        }
        1 => {
            let f = |a: &str, b: &str| Kd::Service(Svc { version: "1".to_string(), renames: vec![(id(a), "Q".to_string()), (id(b), "R".to_string())], ..Svc::default() });
            let g = Kd::Service(Svc { version: "1".to_string(), renames: vec![(id(&y), "R".to_string()), (id(&x), "Q".to_string())], ..Svc::default() });
            (f(&x, &y), g)
        }
        2 => {
            let a = vec![(x.clone(), id("T")), (y.clone(), id("U"))];
            let b = vec![(y.clone(), id("U")), (x.clone(), id("T"))];
            (Kd::Resource(Res { ids: a, ..Res::default() }), Kd::Resource(Res { ids: b, ..Res::default() }))
        }
        3 => (Kd::Simple(Simple::String), Kd::Simple(Simple::String)),
        _ => (Kd::Unresolved, Kd::Unresolved),
    };
    // for structures the second order swaps the members, so their targets move along
    let k2 = match k2 {
        Kd::Struct(_) => Kd::Struct(vec![Mem::new(&y, &id("U")), Mem::new(&x, &id("T"))]),
        k => k,
    };
    let (a, b) = (Sh { id: id("A"), traits: two.to_vec(), kind: k1 }, Sh { id: id("A"), traits: rev(&two), kind: k2 });
    let o = Sh::new(&id(&format!("A{}", x)), Kd::Simple(Simple::Blob));
    let (m1, m2) = ((x.clone(), V::I(1)), (y.clone(), V::A(vec![V::I(2), V::N])));
    hash_mode(1);
    let (d1, e1) = (vec![a, o.clone()], vec![m1.clone(), m2.clone()]);
    let first = c20(&with_meta(&d1, &e1), &d1, &e1);
    hash_mode(2);
    let (d2, e2) = (vec![o, b], vec![m2, m1]);
    let second = c20(&with_meta(&d2, &e2), &d2, &e2);
    check(first == second, "the form does not depend on insertion or hash order");
    reach("order");
}
entry!(h_c20_order, { c20_order(false) });
entry!(h_c20_wide_order, {
    // a model of a shape of each kind, put together backwards and hashed otherwise
    let s = crate::builder::wide_with("n.n", "q");
    let mut r: Vec<Sh> = s.iter().rev().cloned().collect();
    for x in r.iter_mut() {
        x.traits.reverse();
        match &mut x.kind {
            Kd::Struct(m) | Kd::Union(m) => m.reverse(),
            Kd::Service(d) => d.renames.reverse(),
            Kd::Resource(d) => d.ids.reverse(),
            _ => (),
        }
    }
    let meta: Vec<(String, V)> = (0..6).map(|i| (format!("k{}", i), V::I(i))).collect();
    let back: Vec<(String, V)> = meta.iter().rev().cloned().collect();
    hash_mode(1);
    let first = make_line_oriented_form(&with_meta(&s, &meta));
    hash_mode(2 + choose(4));
    let second = make_line_oriented_form(&with_meta(&r, &back));
    check(first == second, "the form does not depend on insertion or hash order");
    reach("order");
});
entry!(h_c20_text, {
    // the writer emits the lines of the form, each ended by a newline
    let s = vec![Sh { id: Id::new("n.n", &name1()), traits: vec![], kind: rich(choose(10)) }];
    let e = vec![("k".to_string(), V::S(ascii(1)))];
    let m = with_meta(&s, &e);
    let mut want = String::new();
    for l in make_line_oriented_form(&m) {
        want.push_str(&l);
        want.push('\n');
    }
    match write_model_to_string(&mut LineOrientedWriter::default(), &m) {
        Ok(t) => check(eq_bytes(t.as_bytes(), want.as_bytes()), "the text is the lines of the form"),
        Err(_) => check(false, "a model is written"),
    }
    reach("text");
});

// ------------------------------------------------------------------------------------------ C21

/// Writes the metadata value `t` in pieces; fails after `fail` of them.
struct Pieces {
    fail: u32,
}
impl ModelWriter for Pieces {
    fn write(&mut self, w: &mut impl Write, m: &Model) -> ModelResult<()> {
        let t = match m.metadata_value(&"t".to_string()) {
            Some(v) => v.as_string().cloned().unwrap_or_default(),
            None => String::new(),
        };
        let mut n = 0;
        for c in t.chars() {
            if n == self.fail {
                return Err(ErrorKind::InvalidRepresentation("stop".to_string()).into());
            }
            write!(w, "{}", c)?;
            n += 1;
        }
        w.flush()?;
        Ok(())
    }
}
/// Puts what it reads into the metadata value `t`; an `!` is an error.
struct Whole {
    step: usize,
}
impl ModelReader for Whole {
    fn read(&mut self, r: &mut impl Read) -> ModelResult<Model> {
        let mut t = vec![];
        if self.step == 0 {
            r.read_to_end(&mut t)?;
        } else {
            let mut b = vec![0u8; self.step];
            loop {
                let n = r.read(&mut b)?;
                if n == 0 {
                    break;
                }
                t.extend_from_slice(&b[..n]);
            }
        }
        if t.len() > 0 && t[0] == b'!' {
            return Err(ErrorKind::InvalidRepresentation("bad".to_string()).into());
        }
        let mut m = Model::default();
        m.add_metadata("t".to_string(), atelier_core::model::values::Value::String(String::from_utf8_lossy(&t).into_owned()))?;
        Ok(m)
    }
}
fn text_model(t: &str) -> Model {
    with_meta(&[], &[("t".to_string(), V::S(t.to_string()))])
}
fn content(m: &Model) -> String {
    m.metadata_value(&"t".to_string()).and_then(|v| v.as_string().cloned()).unwrap_or_default()
}
fn file(name: &str) -> Option<Vec<u8>> {
    let mut b = [0u8; 4096];
    vfs_get(name, &mut b).map(|n| b[..n].to_vec())
}
entry!(h_c21_write, {
    // over an absent file, a longer or a shorter one
    let t = ascii(choose(4) as usize);
    let old = choose(3);
    if old > 0 {
        vfs_put("out.txt", &b"previous content"[..if old == 1 { 16 } else { 1 }]);
    }
    let m = text_model(&t);
    let r = write_model_to_file(&mut Pieces { fail: 9 }, &m, PathBuf::from("out.txt"));
    check(r.is_ok(), "a model is written to a file");
    match file("out.txt") {
        Some(b) => check(eq_bytes(&b, t.as_bytes()), "the file holds exactly the text of the model"),
        None => check(false, "the file exists"),
    }
    match write_model_to_string(&mut Pieces { fail: 9 }, &m) {
        Ok(s) => check(eq_bytes(s.as_bytes(), t.as_bytes()), "the string is exactly the text of the model"),
        Err(_) => check(false, "a model is written to a string"),
    }
    match read_model_from_file(&mut Whole { step: 0 }, PathBuf::from("out.txt")) {
        Ok(n) => {
            reach("read-back");
            check(eq_bytes(content(&n).as_bytes(), t.as_bytes()), "what was written is read back")
        }
        Err(_) => {
            reach("refused");
            check(t.len() > 0 && t.as_bytes()[0] == b'!', "what was written is read back")
        }
    }
});
entry!(h_c21_large, {
    // more text than a buffer holds, over a file that is longer or absent
    let mut t = "0123456789abcde\n".repeat(1500);
    t.push_str(&ascii(1));
    if choose(2) == 1 {
        vfs_put("out.txt", "x".repeat(30000).as_bytes());
    }
    let m = text_model(&t);
    check(write_model_to_file(&mut Pieces { fail: u32::MAX }, &m, PathBuf::from("out.txt")).is_ok(), "a model is written to a file");
    let mut b = vec![0u8; 40000];
    match vfs_get("out.txt", &mut b) {
        Some(n) => check(n == t.len() && b[..n - 1] == t.as_bytes()[..n - 1] && b[n - 1] == t.as_bytes()[n - 1], "the file holds exactly the text of the model"),
        None => check(false, "the file exists"),
    }
    match write_model_to_string(&mut Pieces { fail: u32::MAX }, &m) {
        Ok(s) => check(s == t, "the string is exactly the text of the model"),
        Err(_) => check(false, "a model is written to a string"),
    }
    match read_model_from_file(&mut Whole { step: choose(2) as usize * 1000 }, PathBuf::from("out.txt")) {
        Ok(n) => check(content(&n) == t, "what was written is read back"),
        Err(_) => check(false, "what was written is read back"),
    }
    reach("large");
});
entry!(h_c21_read, {
    let t = ascii(choose(4) as usize);
    let step = choose(3) as usize;
    vfs_put("in.txt", t.as_bytes());
    let bad = t.len() > 0 && t.as_bytes()[0] == b'!';
    match (read_model_from_file(&mut Whole { step }, PathBuf::from("in.txt")), read_model_from_string(&mut Whole { step }, t.as_bytes())) {
        (Ok(a), Ok(b)) => {
            reach("ok");
            check(!bad, "the error of the reader is returned");
            check(eq_bytes(content(&a).as_bytes(), t.as_bytes()), "the reader gets the bytes of the file");
            check(eq_bytes(content(&b).as_bytes(), t.as_bytes()), "the reader gets the bytes of the string");
        }
        (Err(_), Err(_)) => {
            reach("error");
            check(bad, "a reader that succeeds is no error")
        }
        _ => check(false, "file and string are read alike"),
    }
    match file("in.txt") {
        Some(b) => check(eq_bytes(&b, t.as_bytes()), "reading leaves the file as it was"),
        None => check(false, "reading leaves the file as it was"),
    }
});
entry!(h_c21_faults, {
    let t = ident(2);
    let m = text_model(&t);
    match choose(7) {
        0 => check(read_model_from_file(&mut Whole { step: 1 }, PathBuf::from("absent.txt")).is_err(), "an absent file is an error"),
        1 => {
            vfs_put("in.txt", t.as_bytes());
            vfs_deny("in.txt");
            check(read_model_from_file(&mut Whole { step: 1 }, PathBuf::from("in.txt")).is_err(), "an unreadable file is an error");
        }
        2 => {
            vfs_dir("dir");
            check(read_model_from_file(&mut Whole { step: 1 }, PathBuf::from("dir")).is_err(), "a directory is an error");
        }
        3 => {
            vfs_dir("dir");
            check(write_model_to_file(&mut Pieces { fail: 9 }, &m, PathBuf::from("dir")).is_err(), "a directory is an error");
        }
        4 => check(write_model_to_file(&mut Pieces { fail: 9 }, &m, PathBuf::from("no/out.txt")).is_err(), "a file in no directory is an error"),
        5 => {
            vfs_put("out.txt", b"old");
            vfs_deny("out.txt");
            check(write_model_to_file(&mut Pieces { fail: 9 }, &m, PathBuf::from("out.txt")).is_err(), "an unwritable file is an error");
        }
        _ => {
            let f = choose(2);
            check(write_model_to_file(&mut Pieces { fail: f }, &m, PathBuf::from("out.txt")).is_err(), "the error of the writer is returned");
            check(write_model_to_string(&mut Pieces { fail: f }, &m).is_err(), "the error of the writer is returned");
        }
    }
    reach("fault");
});
entry!(h_c21_formats, {
    // every writer of the workspace: file and string agree
    let v = V::B(choose(2) == 1);
    let s = vec![Sh { id: Id::new("n.n", "Aa"), traits: vec![(Id::new("a.b", "tr"), Some(v))], kind: crate::actions::bare(choose(9)) }];
    let m = to_model(&s);
    let p = || PathBuf::from("model.out");
    let (a, r) = match choose(3) {
        0 => (write_model_to_string(&mut LineOrientedWriter::default(), &m), write_model_to_file(&mut LineOrientedWriter::default(), &m, p())),
        1 => (write_model_to_string(&mut Debugger::default(), &m), write_model_to_file(&mut Debugger::default(), &m, p())),
        _ => {
            use atelier_json::JsonWriter;
            (write_model_to_string(&mut JsonWriter::new(true), &m), write_model_to_file(&mut JsonWriter::new(true), &m, p()))
        }
    };
    check(r.is_ok(), "a model is written to a file");
    match (a, file("model.out")) {
        (Ok(a), Some(b)) => {
            check(b.len() < 4096, "the harness reads the whole file");
            check(eq_bytes(a.as_bytes(), &b), "file and string hold the same text")
        }
        _ => check(false, "a model is written to a string and to a file"),
    }
    reach("same");
});
