//! A01, A02: the file-type registry and the model assembler.
use crate::desc::*;
use crate::gen::*;
use atelier_assembler::{FileType, FileTypeRegistry, ModelAssembler};
use atelier_core::error::{ErrorKind, Result as ModelResult};
use atelier_core::model::shapes::Simple;
use atelier_core::model::values::Value;
use atelier_core::model::Model;
use std::convert::TryFrom;
use std::fs::File;
use std::io::Read;
use std::path::Path;
use std::rc::Rc;

// ------------------------------------------------------------------------------------------ A01

fn no_reader(_: &mut File) -> ModelResult<Model> {
    Ok(Model::default())
}
fn low(s: &str) -> String {
    s.bytes().map(|c| lower(c) as char).collect()
}
struct World {
    reg: FileTypeRegistry,
    types: Vec<Rc<FileType>>,
    /// extension, type: the latest comes last
    exts: Vec<(String, usize)>,
    mimes: Vec<(String, usize)>,
}
impl World {
    fn new() -> World {
        World { reg: FileTypeRegistry::empty(), types: vec![], exts: vec![], mimes: vec![] }
    }
    fn typ(&mut self, mime: Option<&str>) -> usize {
        let n = format!("type {}", self.types.len());
        let t = match mime {
            None => FileType::new(&n, no_reader),
            Some(m) => FileType::new_with_mime_type(&n, no_reader, m),
        };
        check(eq_bytes(t.name().as_bytes(), n.as_bytes()), "a file type has the name given");
        check(t.mime_type().as_deref() == mime, "a file type has the MIME type given");
        self.types.push(t);
        self.types.len() - 1
    }
    fn set(&mut self, e: &str, t: usize) {
        let e = low(e);
        self.exts.retain(|x| !eq_bytes(x.0.as_bytes(), e.as_bytes()));
        self.exts.push((e, t));
    }
    fn mime(&mut self, t: usize) {
        if let Some(m) = self.types[t].mime_type().clone() {
            let m = low(&m);
            self.mimes.retain(|x| !eq_bytes(x.0.as_bytes(), m.as_bytes()));
            self.mimes.push((m, t));
        }
    }
    fn register(&mut self, t: usize, e: &str) {
        self.reg.register(self.types[t].clone(), e);
        self.set(e, t);
        self.mime(t);
    }
    fn register_all(&mut self, t: usize, e: &[&str]) {
        self.reg.register_all(self.types[t].clone(), e);
        for x in e {
            self.set(x, t);
        }
        if !e.is_empty() {
            self.mime(t);
        }
    }
    fn remove(&mut self, e: &str) {
        let old = self.find(e);
        let r = self.reg.remove(e);
        self.is(r.as_ref(), old, "remove returns the type that was registered");
        let e = low(e);
        self.exts.retain(|x| !eq_bytes(x.0.as_bytes(), e.as_bytes()));
    }
    fn find(&self, e: &str) -> Option<usize> {
        self.exts.iter().find(|x| eq_nocase(x.0.as_bytes(), e.as_bytes())).map(|x| x.1)
    }
    fn is(&self, got: Option<&Rc<FileType>>, want: Option<usize>, msg: &str) {
        match (got, want) {
            (None, None) => reach("absent"),
            (Some(g), Some(w)) => {
                reach("present");
                check(Rc::ptr_eq(g, &self.types[w]), msg)
            }
            _ => check(false, msg),
        }
    }
    fn look(&self, e: &str) {
        let w = self.find(e);
        check(self.reg.contains(e) == w.is_some(), "contains is true exactly for registered extensions");
        self.is(self.reg.get(e), w, "get returns the latest type registered for the extension");
    }
    fn all(&self) {
        let v: Vec<&String> = self.reg.extensions().collect();
        check(v.len() == self.exts.len(), "extensions lists each registered extension once");
        for (e, _) in &self.exts {
            check(v.iter().any(|x| eq_bytes(x.as_bytes(), e.as_bytes())), "extensions lists the registered extensions in lower case");
        }
    }
    fn look_mime(&self, m: &str) {
        let w = self.mimes.iter().find(|x| eq_nocase(x.0.as_bytes(), m.as_bytes())).map(|x| x.1);
        self.is(self.reg.get_by_mime_type(m), w, "get_by_mime_type returns the latest type with the MIME type");
    }
}
fn letter() -> String {
    let c = bytes::<1>();
    assume(is_alpha(c[0]));
    (c[0] as char).to_string()
}
fn a01(ops: u32) {
    let mut w = World::new();
    let exts = [letter(), letter()];
    let n = ops;
    for _ in 0..n {
        match choose(5) {
            0 => {
                let t = w.typ(None);
                w.register(t, &exts[0]);
            }
            1 => {
                let t = w.typ(Some("m/Q"));
                w.register(t, &exts[1]);
            }
            2 => {
                let t = w.typ(Some("M/r"));
                w.register_all(t, &[&exts[0], &exts[1]]);
            }
            3 => w.remove(&exts[0]),
            _ => w.remove(&exts[1]),
        }
    }
    w.look(&exts[0]);
    w.look(&exts[1]);
    w.look(&letter());
    w.all();
    w.look_mime("M/q");
    w.look_mime("m/R");
    w.look_mime("m/");
}
entry!(h_a01_two, { a01(2) });
entry!(h_a01_three, { a01(3) });
entry!(h_a01_mime, {
    // any MIME types, registered in either way
    let (a, b) = (letter(), letter());
    let mut w = World::new();
    let t = w.typ(Some(&format!("x/{}", a)));
    let u = w.typ(Some(&format!("X/{}", b)));
    match choose(3) {
        0 => {
            w.register(t, "e");
            w.register(u, "f");
        }
        1 => {
            w.register_all(t, &["e", "g"]);
            w.register(u, "E");
        }
        _ => {
            w.register(t, "e");
            w.register_all(u, &["e", "f"]);
        }
    }
    w.look_mime(&format!("x/{}", letter()));
    w.look_mime(&format!("X/{}", a));
    w.look("e");
    w.look("F");
    w.look("G");
    w.all();
});
entry!(h_a01_default, {
    // the registry everyone starts with: JSON and Smithy files, in any case
    let r = FileTypeRegistry::default();
    let e = ascii(match choose(3) {
        0 => 4,
        1 => 6,
        _ => 3,
    });
    let json = eq_nocase(e.as_bytes(), b"json");
    let smithy = eq_nocase(e.as_bytes(), b"smithy");
    check(r.contains(&e) == (json | smithy), "the default registry knows json and smithy files");
    check(r.get(&e).is_some() == (json | smithy), "the default registry knows json and smithy files");
    if json | smithy {
        reach("known");
    } else {
        reach("unknown");
    }
    if let (Some(j), Some(s)) = (r.get("json"), r.get("smithy")) {
        check(!Rc::ptr_eq(j, s), "json and smithy are different types");
        if let Some(t) = r.get(&e) {
            check(Rc::ptr_eq(t, if json { j } else { s }), "an extension has its type");
        }
    } else {
        check(false, "the default registry knows json and smithy files");
    }
});

// ------------------------------------------------------------------------------------------ A02

/// A file of letters: each is a shape and an item of the metadata value `k`; `!` is an error; an
/// upper-case letter is the shape of that name with another type.
fn letters(f: &mut File) -> ModelResult<Model> {
    let mut t = vec![];
    f.read_to_end(&mut t)?;
    let mut m = Model::default();
    let mut v = vec![];
    for c in t {
        if c == b'!' {
            return Err(ErrorKind::InvalidRepresentation("bad".to_string()).into());
        }
        let s = (lower(c) as char).to_string();
        let kind = if is_alpha(c) & (c != lower(c)) { Simple::Blob } else { Simple::String };
        m.add_shape(to_shape(&Sh::new(&Id::new("n.n", &s), Kd::Simple(kind))))?;
        v.push(Value::String(s));
    }
    m.add_metadata("k".to_string(), Value::Array(v))?;
    Ok(m)
}
fn lc() -> u8 {
    let c = bytes::<1>();
    assume(is_alpha(c[0]) & (c[0] == lower(c[0])));
    c[0]
}
fn assembler(paths: &[&str]) -> ModelAssembler {
    let mut reg = FileTypeRegistry::empty();
    reg.register(FileType::new("letters", letters), "t");
    let mut a = ModelAssembler::new(reg, None);
    check(a.is_empty(), "a new assembler without a search path has no paths");
    for (i, p) in paths.iter().enumerate() {
        if i % 2 == 0 {
            a.push_str(p);
        } else {
            a.push(Path::new(p));
        }
    }
    a
}
/// The letters of the metadata value, or None if the conversion failed.
fn assemble(paths: &[&str], by_ref: bool) -> Option<(Model, Vec<u8>)> {
    let mut a = assembler(paths);
    let r = if by_ref { Model::try_from(&mut a) } else { Model::try_from(a) };
    match r {
        Err(_) => None,
        Ok(m) => {
            let mut v = vec![];
            if let Some(Value::Array(x)) = m.metadata_value(&"k".to_string()) {
                for s in x {
                    if let Value::String(s) = s {
                        v.extend_from_slice(s.as_bytes());
                    }
                }
            }
            Some((m, v))
        }
    }
}
/// The model has the letters of exactly these files, each once.
fn merged(m: &Model, got: &[u8], want: &[u8]) {
    let n = |v: &[u8], c: u8| v.iter().fold(0u32, |a, x| a + (*x == c) as u32);
    let mut r = got.len() == want.len();
    for c in want {
        r = r & (n(got, *c) == n(want, *c));
    }
    check(r, "each supported file is read exactly once");
    let mut distinct: Vec<u8> = vec![];
    for c in want {
        if !distinct.contains(c) {
            distinct.push(*c);
        }
    }
    check(m.shapes().count() == distinct.len(), "the model has exactly the shapes of the files");
    for c in &distinct {
        match m.shape(&Id::new("n.n", &(*c as char).to_string()).id()) {
            Some(s) => check_shape(s, &Sh::new(&Id::new("n.n", &(*c as char).to_string()), Kd::Simple(Simple::String)), Lax::default()),
            None => check(false, "a shape of each file is in the model"),
        }
    }
}
/// a.t, d/b.T, d/c.x (ignored), d/e/f.t, noext (ignored)
fn tree() -> [u8; 3] {
    tree_of([lc(), lc(), lc()])
}
fn tree_of(c: [u8; 3]) -> [u8; 3] {
    vfs_put("a.t", &c[..1]);
    vfs_dir("d");
    vfs_dir("d/e");
    if any_bool() {
        vfs_put("d/b.T", &c[1..2]);
        vfs_put("d/e/f.t", &c[2..]);
    } else {
        vfs_put("d/e/f.t", &c[2..]);
        vfs_put("d/b.T", &c[1..2]);
    }
    vfs_put("d/c.x", b"!");
    vfs_put("noext", b"!");
    vfs_dir("none");
    c
}
entry!(h_a02_tree, {
    let c = tree();
    let by_ref = any_bool();
    let (p, want): (Vec<&str>, Vec<u8>) = match choose(7) {
        0 => (vec!["a.t", "d"], c.to_vec()),
        1 => (vec!["d"], c[1..].to_vec()),
        2 => (vec!["a.t"], c[..1].to_vec()),
        3 => (vec!["a.t", "d/e/f.t", "noext"], vec![c[0], c[2]]),
        4 => (vec!["d/e", "d/b.T", "d/c.x"], c[1..].to_vec()),
        5 => (vec!["none", "noext", "d/c.x", "absent.t"], vec![]),
        _ => (vec![], vec![]),
    };
    check(assembler(&p).len() == p.len(), "the assembler has the paths added");
    match assemble(&p, by_ref) {
        Some((m, got)) => merged(&m, &got, &want),
        None => check(false, "readable files are assembled"),
    }
    reach(if want.is_empty() { "nothing" } else { "merged" });
});
entry!(h_a02_once, {
    // a file that is reached in two ways is read once
    let c = tree();
    let p = match choose(3) {
        0 => ["d", "d/b.T", "d/e/f.t"],
        1 => ["d/e", "d", "d"],
        _ => ["d/b.T", "d/b.T", "d/e"],
    };
    match assemble(&p, any_bool()) {
        Some((m, got)) => merged(&m, &got, &c[1..]),
        None => check(false, "readable files are assembled"),
    }
    reach("once");
});
entry!(h_a02_deep, {
    // many files, some of them deep
    let mut want = vec![];
    let mut dir = "r".to_string();
    vfs_dir(&dir);
    for i in 0..6u8 {
        for j in 0..2u8 {
            let c = b'a' + 2 * i + j;
            vfs_put(&format!("{}/f{}.{}", dir, j, ["t", "T"][(i % 2) as usize]), &[c]);
            want.push(c);
        }
        vfs_put(&format!("{}/f0.x", dir), b"!");
        dir.push_str("/s");
        vfs_dir(&dir);
    }
    hash_mode(choose(4));
    let mid = "r/s/s/s";
    let (p, skip): (Vec<&str>, usize) = match choose(4) {
        0 => (vec!["r"], 0),
        1 => (vec![mid, "r"], 0),
        2 => (vec!["r/s"], 2),
        _ => (vec!["r/s/s/s/f0.T", mid], 6),
    };
    match assemble(&p, choose(2) == 1) {
        Some((m, got)) => merged(&m, &got, &want[skip..]),
        None => check(false, "readable files are assembled"),
    }
    reach("deep");
});
entry!(h_a02_order, {
    // the result does not depend on the order in which paths were added or are hashed
    let c = tree_of(*b"xyz");
    let modes = choose(8);
    let mut orders = vec![];
    for (mode, paths) in [(3 + modes, ["a.t", "d/e", "d/b.T"]), (12 - modes, ["d/b.T", "d/e", "a.t"])] {
        hash_mode(mode);
        match assemble(&paths, any_bool()) {
            Some((m, x)) => {
                merged(&m, &x, &c);
                orders.push(x);
            }
            None => check(false, "readable files are assembled"),
        }
    }
    check(eq_bytes(&orders[0], &orders[1]), "metadata is merged in an order that does not depend on the paths' order");
    reach("order");
});
entry!(h_a02_faults, {
    let c = tree();
    let by_ref = any_bool();
    let p: Vec<&str> = match choose(5) {
        0 => {
            vfs_deny("a.t");
            vec!["d", "a.t"]
        }
        1 => {
            vfs_deny("d/e/f.t");
            vec!["a.t", "d"]
        }
        2 => {
            vfs_deny("d/e");
            vec!["a.t", "d"]
        }
        3 => {
            vfs_put("g.t", b"!");
            vec!["a.t", "g.t"]
        }
        _ => {
            // the same shape with another type
            vfs_put("g.t", &[c[0] - 32]);
            vec!["g.t", "a.t"]
        }
    };
    check(assemble(&p, by_ref).is_none(), "a file that cannot be read or merged is an error");
    reach("fault");
});
entry!(h_a02_formats, {
    // the default registry: JSON and Smithy files are merged into one model
    let (x, y) = (letter(), letter());
    let j = format!("{{\"smithy\": \"1.0\", \"shapes\": {{\"n.n#J{}\": {{\"type\": \"string\"}}}}}}", x);
    let s = format!("namespace n.n\nblob S{}\n", y);
    vfs_put("m.json", j.as_bytes());
    vfs_put("m.SMITHY", s.as_bytes());
    let mut a = ModelAssembler::new(FileTypeRegistry::default(), None);
    a.push_str("m.json").push_str("m.SMITHY");
    match Model::try_from(a) {
        Ok(m) => {
            let d = [
                Sh::new(&Id::new("n.n", &format!("J{}", x)), Kd::Simple(Simple::String)),
                Sh::new(&Id::new("n.n", &format!("S{}", y)), Kd::Simple(Simple::Blob)),
            ];
            check_model(&m, &d, Lax::default());
            reach("formats");
        }
        Err(_) => check(false, "readable files are assembled"),
    }
});
