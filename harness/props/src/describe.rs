//! Descriptions of models: PlantUML, GraphML and documents.
use crate::desc::*;
use crate::gen::*;
use atelier_core::io::ModelWriter;
use atelier_core::model::shapes::Simple;
use atelier_core::model::Model;
use atelier_describe::document::writer::DocumentationWriter;
use atelier_describe::graphml::writer::GraphMLWriter;
use atelier_describe::plant_uml::writer::PlantUmlWriter;

fn s(t: &str) -> String {
    t.to_string()
}
fn out(mut w: impl ModelWriter, m: &Model) -> Vec<u8> {
    let mut t = Vec::new();
    let r = w.write(&mut t, m);
    check(r.is_ok(), "the model is written");
    t
}
/// The lines that are not empty, without the white space around them.
fn lines(t: &[u8]) -> Vec<Vec<u8>> {
    let mut r = vec![];
    for l in t.split(|c| *c == b'\n') {
        let mut l = l;
        while !l.is_empty() && l[0] == b' ' {
            l = &l[1..];
        }
        while !l.is_empty() && l[l.len() - 1] == b' ' {
            l = &l[..l.len() - 1];
        }
        if !l.is_empty() {
            r.push(l.to_vec());
        }
    }
    r
}
/// Text of `n` printable characters other than the space.
fn print(n: usize) -> String {
    let t = ascii(n);
    let mut ok = true;
    for &c in t.as_bytes() {
        ok = ok & (c.wrapping_sub(33) < 94);
    }
    assume(ok);
    t
}
fn count(l: &[Vec<u8>], x: &[u8]) -> u32 {
    let mut n = 0;
    for y in l {
        n += eq_bytes(y, x) as u32;
    }
    n
}
/// The same lines in any order.
fn same_lines(l: &[Vec<u8>], d: &[String]) -> bool {
    let mut r = l.len() == d.len();
    let e: Vec<Vec<u8>> = d.iter().map(|x| x.as_bytes().to_vec()).collect();
    for x in &e {
        r = r & (count(l, x) == count(&e, x));
    }
    r
}
fn tr(name: &str, v: Option<V>) -> Tr {
    (Id::new("a.b", name), v)
}

// --------------------------------------------------------------------------------------------- D02

enum X {
    Open(Vec<u8>, Vec<(Vec<u8>, Vec<u8>)>),
    Close(Vec<u8>),
    Text(Vec<u8>),
}
fn unescape(t: &[u8]) -> Vec<u8> {
    let mut r = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i] == b'&' {
            let e: [(&[u8], u8); 5] = [(b"&amp;", b'&'), (b"&lt;", b'<'), (b"&gt;", b'>'), (b"&quot;", b'"'), (b"&apos;", b'\'')];
            match e.iter().find(|(n, _)| t[i..].starts_with(n)) {
                Some((n, c)) => {
                    r.push(*c);
                    i += n.len();
                }
                None => {
                    check(false, "the XML has no bare ampersand");
                    return r;
                }
            }
        } else {
            r.push(t[i]);
            i += 1;
        }
    }
    r
}
fn until(t: &[u8], i: usize, c: u8) -> usize {
    let mut j = i;
    while j < t.len() && t[j] != c {
        j += 1;
    }
    j
}
fn xml(t: &[u8]) -> Vec<X> {
    let mut r = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i] != b'<' {
            let j = until(t, i, b'<');
            r.push(X::Text(unescape(&t[i..j])));
            i = j;
            continue;
        }
        let name = |mut j: usize| {
            let i = j;
            while j < t.len() && t[j] != b' ' && t[j] != b'>' && t[j] != b'/' && t[j] != b'\n' {
                j += 1;
            }
            (t[i..j].to_vec(), j)
        };
        if t[i + 1] == b'?' {
            i = until(t, i, b'>') + 1;
        } else if t[i + 1] == b'/' {
            let (n, j) = name(i + 2);
            r.push(X::Close(n));
            i = j + 1;
        } else {
            let (n, mut j) = name(i + 1);
            let mut a = vec![];
            loop {
                while j < t.len() && (t[j] == b' ' || t[j] == b'\n') {
                    j += 1;
                }
                if j >= t.len() {
                    check(false, "the XML has no open tag at its end");
                    return r;
                }
                if t[j] == b'/' {
                    r.push(X::Open(n.clone(), a));
                    r.push(X::Close(n));
                    i = j + 2;
                    break;
                }
                if t[j] == b'>' {
                    r.push(X::Open(n, a));
                    i = j + 1;
                    break;
                }
                let e = until(t, j, b'=');
                let q = until(t, e + 2, b'"');
                if q >= t.len() {
                    check(false, "the XML has no open attribute at its end");
                    return r;
                }
                a.push((t[j..e].to_vec(), unescape(&t[e + 2..q])));
                j = q + 1;
            }
        }
    }
    r
}
#[derive(Default)]
struct Node {
    id: Vec<u8>,
    data: Vec<(Vec<u8>, Vec<u8>)>,
}
#[derive(Default)]
struct Edge {
    id: Vec<u8>,
    from: Vec<u8>,
    to: Vec<u8>,
    data: Vec<(Vec<u8>, Vec<u8>)>,
}
fn attr(a: &[(Vec<u8>, Vec<u8>)], n: &str) -> Vec<u8> {
    match a.iter().find(|(k, _)| k == n.as_bytes()) {
        Some((_, v)) => v.clone(),
        None => {
            check(false, "the element has its attributes");
            vec![]
        }
    }
}
/// The nodes and edges of a GraphML text; checks that it is well formed and its keys are declared.
fn graph(t: &[u8]) -> (Vec<Node>, Vec<Edge>) {
    let (mut nodes, mut edges, mut keys, mut stack) = (vec![], vec![], vec![], Vec::<Vec<u8>>::new());
    let mut text = vec![];
    let mut key = vec![];
    for x in xml(t) {
        match x {
            X::Open(n, a) => {
                if n == b"key" {
                    keys.push((attr(&a, "id"), attr(&a, "for")));
                } else if n == b"node" {
                    nodes.push(Node { id: attr(&a, "id"), data: vec![] });
                } else if n == b"edge" {
                    edges.push(Edge { id: attr(&a, "id"), from: attr(&a, "source"), to: attr(&a, "target"), data: vec![] });
                } else if n == b"data" {
                    key = attr(&a, "key");
                    let p = stack.last().cloned().unwrap_or_default();
                    check(keys.iter().any(|(k, f)| *k == key && *f == p), "data has a key declared for its element");
                }
                stack.push(n);
                text.clear();
            }
            X::Close(n) => {
                check(stack.pop().as_ref() == Some(&n), "the XML is well nested");
                if n == b"data" {
                    let p = stack.last().cloned().unwrap_or_default();
                    let d = (key.clone(), text.clone());
                    if p == b"node" {
                        nodes.last_mut().unwrap().data.push(d);
                    } else if p == b"edge" {
                        edges.last_mut().unwrap().data.push(d);
                    }
                }
            }
            X::Text(t) => text = t,
        }
    }
    check(stack.is_empty(), "the XML is closed");
    (nodes, edges)
}
fn targets(k: &Kd) -> Vec<(String, Id)> {
    let mut r: Vec<(String, Id)> = vec![];
    let mut all = |n: &str, v: &[Id]| {
        for i in v {
            r.push((s(n), i.clone()));
        }
    };
    let opt = |o: &Option<Id>| o.iter().cloned().collect::<Vec<_>>();
    match k {
        Kd::List(m) | Kd::Set(m) => all("member", &[m.target.clone()]),
        Kd::Map(k, v) => {
            all("key", &[k.target.clone()]);
            all("value", &[v.target.clone()]);
        }
        Kd::Struct(ms) | Kd::Union(ms) => {
            for m in ms {
                all(&m.name, &[m.target.clone()]);
            }
        }
        Kd::Service(d) => {
            all("operations", &d.ops);
            all("resources", &d.res);
        }
        Kd::Operation(d) => {
            all("input", &opt(&d.input));
            all("output", &opt(&d.output));
            all("errors", &d.errors);
        }
        Kd::Resource(d) => {
            for (i, n) in SLOTS.iter().enumerate() {
                all(n, &opt(&d.slots[i]));
            }
            all("operations", &d.ops);
            all("collectionOperations", &d.cops);
            all("resources", &d.res);
        }
        _ => (),
    }
    r
}
pub fn kind_name(k: &Kd) -> String {
    match k {
        Kd::Simple(x) => simple_name(x),
        Kd::List(_) => s("list"),
        Kd::Set(_) => s("set"),
        Kd::Map(..) => s("map"),
        Kd::Struct(_) => s("structure"),
        Kd::Union(_) => s("union"),
        Kd::Service(_) => s("service"),
        Kd::Operation(_) => s("operation"),
        Kd::Resource(_) => s("resource"),
        Kd::Unresolved => s("?"),
    }
}
fn check_graph(shapes: &[Sh]) {
    let t = out(GraphMLWriter::default(), &to_model(shapes));
    let (nodes, edges) = graph(&t);
    check(nodes.len() == shapes.len(), "a node for each shape");
    let mut want: Vec<(String, String, &str, String)> = vec![];
    for sh in shapes {
        let id = sh.id.text();
        let kind = kind_name(&sh.kind);
        let ver = match &sh.kind {
            Kd::Service(d) => Some(d.version.clone()),
            _ => None,
        };
        let mut n = 0u32;
        for x in &nodes {
            let mut ok = eq_bytes(&x.id, id.as_bytes()) & (x.data.len() == 1 + ver.is_some() as usize);
            for (k, v) in &x.data {
                if k == b"type" {
                    ok = ok & eq_bytes(v, kind.as_bytes());
                } else {
                    ok = ok & (k == b"version") & ver.as_ref().map_or(false, |d| eq_bytes(v, d.as_bytes()));
                }
            }
            n += ok as u32;
        }
        check(n == 1, "one node has the ID, type and version of the shape");
        for (i, _) in &sh.traits {
            want.push((id.clone(), i.text(), "trait", s("true")));
        }
        for (n, i) in targets(&sh.kind) {
            want.push((id.clone(), i.text(), "member", n));
        }
    }
    check(edges.len() == want.len(), "an edge for each trait and target");
    for (i, e) in edges.iter().enumerate() {
        for f in &edges[..i] {
            check(!eq_bytes(&e.id, &f.id), "edges have different IDs");
        }
        check(e.data.len() == 1, "an edge has one datum");
    }
    for (from, to, key, val) in &want {
        let n = |l: &mut dyn Iterator<Item = (&[u8], &[u8], &[u8], &[u8])>| {
            let mut n = 0u32;
            for (a, b, c, d) in l {
                n += (eq_bytes(a, from.as_bytes()) & eq_bytes(b, to.as_bytes()) & eq_bytes(c, key.as_bytes()) & eq_bytes(d, val.as_bytes())) as u32;
            }
            n
        };
        let got = n(&mut edges.iter().map(|e| (&e.from[..], &e.to[..], &e.data[0].0[..], &e.data[0].1[..])));
        let exp = n(&mut want.iter().map(|w| (w.0.as_bytes(), w.1.as_bytes(), w.2.as_bytes(), w.3.as_bytes())));
        check(got == exp, "the edges of a trait or target are there, from the shape to the target");
    }
    reach("graph");
}
entry!(h_d02_kinds, {
    let k = pick(9);
    let mut x = Sh::new(&Id::new("x.y", &named('N')), crate::builder::rich(k));
    x.traits = vec![tr("t", None), (Id::api("doc"), Some(V::S(s("<&>"))))];
    check_graph(&[x]);
});
entry!(h_d02_one, {
    check_graph(&crate::builder::ones("x.y", 9));
});
entry!(h_d02_wide, {
    check_graph(&crate::builder::wide("x.y"));
});
entry!(h_d02_two, {
    let (j, k) = (pick(9), pick(9));
    let a = Sh { id: Id::new("x.y", &named('A')), traits: vec![tr("t", None)], kind: crate::builder::rich(j) };
    let b = Sh { id: Id::new("x.z", &named('A')), traits: vec![tr("t", None)], kind: crate::builder::rich(k) };
    check_graph(&[a, b]);
});
entry!(h_d02_version, {
    let t = ascii(1 + choose(2) as usize);
    let mut ok = true;
    for &c in t.as_bytes() {
        ok = ok & (c.wrapping_sub(32) < 95);
    }
    assume(ok);
    check_graph(&[Sh::new(&Id::new("x.y", "S"), Kd::Service(Svc { version: t, ..Svc::default() }))]);
});

// --------------------------------------------------------------------------------------------- D01

fn uml_type(i: &Id, shapes: &[Sh]) -> String {
    for x in shapes {
        if x.id.same(i) {
            return match &x.kind {
                Kd::Simple(k) => simple_name(k),
                Kd::List(m) => format!("List<{}>", m.target.name),
                Kd::Set(m) => format!("Set<{}>", m.target.name),
                Kd::Map(k, v) => format!("Map<{}, {}>", k.target.name, v.target.name),
                _ => i.text(),
            };
        }
    }
    i.text()
}
fn uml_op(i: &Id, name: Option<&str>, shapes: &[Sh]) -> String {
    let mut r = match name {
        Some(n) => s(n),
        None => i.text(),
    };
    r.push_str("(in: ");
    let mut ret = String::new();
    for x in shapes {
        if x.id.same(i) {
            if let Kd::Operation(o) = &x.kind {
                if let Some(t) = &o.input {
                    r.push_str(&uml_type(t, shapes));
                }
                if let Some(t) = &o.output {
                    ret = format!(": {}", uml_type(t, shapes));
                }
            }
        }
    }
    r.push(')');
    r.push_str(&ret);
    r
}
/// Header, trait lines, fields in order, fields in any order, what follows the class.
fn uml_class(x: &Sh, shapes: &[Sh], expand: bool) -> Option<(String, Vec<String>, Vec<String>, Vec<String>)> {
    let id = x.id.text();
    let (mut tl, mut fields, mut after) = (vec![], vec![], vec![]);
    let has = |n: &str| x.traits.iter().any(|(i, _)| i.text() == format!("smithy.api#{}", n));
    for (i, v) in &x.traits {
        match i.text().as_str() {
            "smithy.api#error" => (),
            "smithy.api#documentation" => {
                if let Some(V::S(t)) = v {
                    let name = format!("{}_note_0", id);
                    after.push(format!("note {:?} as {}", t, name));
                    after.push(format!("{} .. {}", id, name));
                }
            }
            n => tl.push(match v {
                None | Some(V::N) => format!("@{}", n),
                Some(V::S(t)) => format!("@{} = \"{}\"", n, t),
                Some(V::I(t)) => format!("@{} = {}", n, t),
                Some(V::F(t)) => format!("@{} = {}", n, t),
                Some(V::B(t)) => format!("@{} = {}", n, t),
                Some(V::A(_)) => format!("@{} = [ .. ]", n),
                Some(V::O(_)) => format!("@{} = {{ .. }}", n),
            }),
        }
    }
    let stereo = |t: &str| format!("class {} <<{}>> {{", id, t);
    let head = match &x.kind {
        Kd::Simple(k) => {
            if expand {
                after.push(format!("smithy.api.{} <|-- {}", simple_name(k), id));
            }
            stereo("dataType")
        }
        Kd::Service(d) => {
            fields.push(format!("version: string = \"{}\"", d.version));
            for o in &d.ops {
                fields.push(uml_op(o, None, shapes));
            }
            for r in &d.res {
                after.push(format!("{} *-- {}", id, r.text()));
            }
            stereo("service")
        }
        Kd::Resource(d) => {
            for (n, t) in &d.ids {
                fields.push(format!("{}: {}", n, t.text()));
            }
            for (i, n) in SLOTS.iter().enumerate() {
                if let Some(o) = &d.slots[i] {
                    fields.push(uml_op(o, Some(n), shapes));
                }
            }
            if !d.ops.is_empty() {
                fields.push(s("..operations.."));
                for o in &d.ops {
                    fields.push(uml_op(o, None, shapes));
                }
            }
            if !d.cops.is_empty() {
                fields.push(s("..collectionOperations.."));
                for o in &d.cops {
                    fields.push(uml_op(o, None, shapes));
                }
            }
            for r in &d.res {
                after.push(format!("{} *-- {}", id, r.text()));
            }
            stereo("resource")
        }
        Kd::Struct(ms) | Kd::Union(ms) => {
            for m in ms {
                fields.push(format!("{}: {}", m.name, m.target.text()));
            }
            if has("trait") {
                format!("annotation {} {{", id)
            } else if has("error") {
                stereo("error")
            } else if matches!(x.kind, Kd::Union(_)) {
                stereo("union")
            } else {
                format!("class {} {{", id)
            }
        }
        _ => return None,
    };
    Some((head, tl, fields, after))
}
fn starts(l: &[u8], p: &[u8]) -> bool {
    l.len() >= p.len() && eq_bytes(&l[..p.len()], p)
}
fn check_uml(shapes: &[Sh], expand: bool) {
    let t = out(PlantUmlWriter::new(expand), &to_model(shapes));
    let l = lines(&t);
    check(l.len() >= 3 && l[0] == b"@startuml" && l[l.len() - 1] == b"@enduml", "the diagram is enclosed");
    // package name, lines
    let mut packs: Vec<(Vec<u8>, Vec<Vec<u8>>)> = vec![];
    let mut depth = 0;
    let mut prims = 0;
    for x in &l {
        if starts(x, b"package ") {
            check(depth == 0, "packages are not nested");
            packs.push((x.clone(), vec![]));
            depth = 1;
        } else if depth > 0 {
            depth += (x[x.len() - 1] == b'{') as i32;
            depth -= eq_bytes(x, b"}") as i32;
            if depth > 0 {
                packs.last_mut().unwrap().1.push(x.clone());
            }
        }
    }
    check(depth == 0, "packages are closed");
    if expand {
        check(packs.iter().filter(|p| p.0 == b"package smithy.api {").count() == 1, "the API is shown once");
        for p in &packs {
            if p.0 == b"package smithy.api {" {
                for k in SIMPLES.iter() {
                    prims += count(&p.1, format!("class {} <<primitive>> {{ }}", simple_name(k)).as_bytes());
                }
                check(p.1.len() == 13, "nothing but the primitive types is in the API");
            }
        }
        check(prims == 13, "the API has each primitive type");
        packs.retain(|p| p.0 != b"package smithy.api {");
    }
    let mut total = 0;
    let mut known: Vec<String> = vec![];
    for x in shapes {
        if matches!(x.kind, Kd::Unresolved) {
            continue;
        }
        if !known.contains(&x.id.ns) {
            known.push(x.id.ns.clone());
        }
        let (head, tl, fields, after) = match uml_class(x, shapes, expand) {
            Some(c) => c,
            None => continue,
        };
        total += 1;
        let mine: Vec<_> = packs.iter().filter(|p| p.0 == format!("package {} {{", x.id.ns).as_bytes()).collect();
        check(mine.len() == 1, "the namespace has one package");
        let p = &mine[0].1;
        check(count(p, head.as_bytes()) == 1, "the shape is one class of its package");
        let i = match p.iter().position(|y| eq_bytes(y, head.as_bytes())) {
            Some(i) => i + 1,
            None => return,
        };
        let e = match p[i..].iter().position(|y| eq_bytes(y, b"}")) {
            Some(e) => i + e,
            None => return check(false, "the class is closed"),
        };
        let f = p[e + 1..].iter().position(|y| starts(y, b"class ") | starts(y, b"annotation ")).map_or(p.len(), |f| e + 1 + f);
        let body = &p[i..e];
        let n = tl.len() + !tl.is_empty() as usize;
        if body.len() < n {
            return check(false, "the traits are lines of the class");
        }
        if n > 0 {
            check(eq_bytes(&body[n - 1], b".."), "a line divides traits and fields");
        }
        check(same_lines(&body[..tl.len()], &tl), "the traits are lines of the class");
        check(same_lines(&body[n..], &fields), "the fields and operations are lines of the class");
        if matches!(x.kind, Kd::Service(_) | Kd::Resource(_)) && body.len() == n + fields.len() {
            // identifiers are in the order of a map
            let call = |x: &[u8]| x.iter().any(|c| *c == b'(');
            let mine: Vec<_> = body[n..].iter().filter(|x| call(&x[..])).collect();
            let want: Vec<_> = fields.iter().filter(|x| call(x.as_bytes())).collect();
            check(mine.len() == want.len(), "each operation is a line of the class");
            for (a, b) in mine.into_iter().zip(want) {
                check(eq_bytes(a, b.as_bytes()), "the operations are in order");
            }
        }
        check(same_lines(&p[e + 1..f], &after), "notes, aggregations and base types follow the class");
    }
    let mut n = 0;
    for p in &packs {
        for y in &p.1 {
            n += (starts(y, b"class ") | starts(y, b"annotation ")) as u32;
        }
    }
    check(n == total, "no other classes");
    check(packs.len() == known.len(), "no other packages");
    reach("diagram");
}
entry!(h_d01_kinds, {
    let k = pick(9);
    let x = Sh { id: Id::new("x.y", &named('N')), traits: vec![tr("t", None)], kind: crate::builder::rich(k) };
    check_uml(&[x], any_bool());
});
entry!(h_d01_one, {
    check_uml(&crate::builder::ones("x.y", 9), pick(2) == 1);
});
entry!(h_d01_wide, {
    check_uml(&crate::builder::wide("x.y"), pick(2) == 1);
});
entry!(h_d01_two, {
    let (j, k) = (pick(9), pick(9));
    let ns = if any_bool() { "x.y" } else { "x.z" };
    let a = Sh { id: Id::new("x.y", &named('A')), traits: vec![tr("t", None)], kind: crate::builder::rich(j) };
    let b = Sh { id: Id::new(ns, &named('B')), traits: vec![], kind: crate::builder::rich(k) };
    check_uml(&[a, b], false);
});
entry!(h_d01_traits, {
    // values of any form; the traits that become stereotypes and notes
    let v = match pick(9) {
        0 => None,
        1 => Some(V::N),
        2 => Some(V::S(print(1))),
        3 => Some(V::I(pick(3) as i64 * 50 - 50)),
        4 => Some(V::F(1.5)),
        5 => Some(V::B(any_bool())),
        6 => Some(V::A(vec![V::I(1)])),
        7 => Some(V::O(vec![])),
        _ => Some(V::O(vec![(s("k"), V::I(1))])),
    };
    let k = pick(9);
    let mut x = Sh::new(&Id::new("x.y", "N"), crate::actions::bare(k));
    x.traits.push(tr("t", v.clone()));
    match pick(5) {
        0 => x.traits.push((Id::api("error"), v)),
        1 => x.traits.push((Id::api("trait"), v)),
        2 => x.traits.push((Id::api("documentation"), v)),
        3 => {
            x.traits.push((Id::api("error"), v.clone()));
            x.traits.push((Id::api("documentation"), v));
        }
        _ => x.traits.push(tr(&named('e'), v)),
    }
    check_uml(&[x], false);
});
entry!(h_d01_operations, {
    // an operation in any role, whose input and output have any kind; other shapes as operations
    let i = Id::new("x.y", "O");
    let t = Id::new("t.t", &named('T'));
    let mut res = Res::default();
    let mut svc = Svc { version: print(1), ..Svc::default() };
    let mut x = vec![];
    match pick(9) {
        6 => res.ops.push(i.clone()),
        7 => res.cops.push(i.clone()),
        8 => svc.ops.push(i.clone()),
        k => res.slots[k as usize] = Some(i.clone()),
    }
    if svc.ops.is_empty() {
        x.push(Sh::new(&Id::new("x.y", "R"), Kd::Resource(res)));
    } else {
        x.push(Sh::new(&Id::new("x.y", "S"), Kd::Service(svc)));
    }
    let k = pick(10);
    let refd = Id::new("t.t", &named('T'));
    match pick(5) {
        0 => x.push(Sh::new(&i, Kd::Operation(Op { input: Some(refd), output: None, errors: vec![] }))),
        1 => x.push(Sh::new(&i, Kd::Operation(Op { input: None, output: Some(refd), errors: vec![] }))),
        2 => x.push(Sh::new(&i, Kd::Operation(Op { input: Some(refd.clone()), output: Some(refd), errors: vec![t.clone()] }))),
        3 => (),
        _ => x.push(Sh::new(&i, crate::actions::bare(k))),
    }
    x.push(Sh::new(&t, crate::actions::bare(k)));
    check_uml(&x, false);
});

// --------------------------------------------------------------------------------------------- D03

fn link(from: &Id, to: &Id) -> String {
    if eq_bytes(from.ns.as_bytes(), to.ns.as_bytes()) {
        format!("[{}](#shape:{})", to.name, to.name)
    } else {
        format!("`{}`", to.text())
    }
}
fn show(v: &V) -> String {
    match v {
        V::S(t) => format!("\"{}\"", t),
        V::I(i) => i.to_string(),
        V::F(f) => f.to_string(),
        V::B(b) => b.to_string(),
        V::A(a) => format!("[ {} ]", a.iter().map(show).collect::<Vec<_>>().join(", ")),
        V::O(o) => format!("{{ {} }}", o.iter().map(|(k, v)| format!("{}: {}", k, show(v))).collect::<Vec<_>>().join(", ")),
        V::N => s("None"),
    }
}
fn rows(name: &str, path: &str, v: &V, r: &mut Vec<String>) {
    let code = |t: &str| format!("`{}`", t);
    let p = if path.is_empty() { String::new() } else { code(path) };
    let mut row = |t: &str| r.push(format!("<tr><td>{}</td><td>{}</td><td>{}</td></tr>", name, p, t));
    match v {
        V::S(t) => row(&code(t)),
        V::A(a) if !a.is_empty() => {
            for (i, x) in a.iter().enumerate() {
                rows(name, &format!("{}[{}]", path, i), x, r);
            }
        }
        V::O(o) if !o.is_empty() => {
            for (k, x) in o {
                rows(name, &format!("{}.{}", path, k), x, r);
            }
        }
        V::N | V::A(_) | V::O(_) => row(""),
        v => row(&code(&show(v))),
    }
}
/// Documentation, links and the table of traits (given in the order of their IDs).
fn about(t: &[Tr], r: &mut Vec<String>) {
    let find = |n: &str| t.iter().find(|(i, _)| i.text() == format!("smithy.api#{}", n)).and_then(|(_, v)| v.clone());
    match find("documentation") {
        Some(V::S(t)) => r.push(t),
        Some(v) => r.push(show(&v)),
        None => (),
    }
    if let Some(V::O(o)) = find("externalDocumentation") {
        if !o.is_empty() {
            let l: Vec<String> = o.iter().map(|(k, v)| format!("[{}]({})", k, if let V::S(t) = v { t.clone() } else { show(v) })).collect();
            r.push(format!("See also: {}", l.concat()));
        }
    }
    let mut t2 = vec![];
    for (i, v) in t {
        let api = i.ns == "smithy.api";
        if api && (i.name == "documentation" || i.name == "externalDocumentation") {
            continue;
        }
        let n = if api { i.name.clone() } else { i.text() };
        rows(&n, "", v.as_ref().unwrap_or(&V::N), &mut t2);
    }
    if !t2.is_empty() {
        r.push(s("<table>"));
        r.push(s("<tr><th>Trait ID</th><th>Path</th><th>Value</th></tr>"));
        r.extend(t2);
        r.push(s("</table>"));
    }
}
fn list(title: &str, from: &Id, v: &[Id], r: &mut Vec<String>) {
    if !v.is_empty() {
        r.push(format!("### {}", title));
        for i in v {
            r.push(format!("> * {}", link(from, i)));
        }
    }
}
fn section(x: &Sh, r: &mut Vec<String>) {
    r.push(format!("## {} ({})", x.id.name, kind_name(&x.kind)));
    about(&x.traits, r);
    match &x.kind {
        Kd::List(m) | Kd::Set(m) => {
            r.push(format!("**Member type: **{}", link(&x.id, &m.target)));
            about(&m.traits, r);
        }
        Kd::Map(k, v) => {
            r.push(format!("**Key type: **{}", link(&x.id, &k.target)));
            about(&k.traits, r);
            r.push(format!("**, value type: **{}", link(&x.id, &v.target)));
            about(&v.traits, r);
        }
        Kd::Struct(ms) | Kd::Union(ms) => {
            if !ms.is_empty() {
                r.push(s("### Members"));
            }
            for m in ms {
                about(&m.traits, r);
            }
            for m in ms {
                r.push(format!("> `{}`: {}", m.name, link(&x.id, &m.target)));
            }
        }
        Kd::Service(d) => {
            r.push(format!("**Service version**: {}", d.version));
            list("Operations", &x.id, &d.ops, r);
            list("Resources", &x.id, &d.res, r);
            if !d.renames.is_empty() {
                r.push(s("### Renames"));
            }
            let mut renames = d.renames.clone();
            renames.sort_by_key(|(i, _)| i.text());
            for (i, n) in &renames {
                r.push(format!("> * `{}` renamed to `{}`", i.text(), n));
            }
        }
        Kd::Operation(d) => {
            if let Some(i) = &d.input {
                r.push(format!("> **Input type**: {}", link(&x.id, i)));
            }
            if let Some(i) = &d.output {
                r.push(format!("> **Output type**: {}", link(&x.id, i)));
            }
            if !d.errors.is_empty() {
                r.push(s("> **Errors**:"));
            }
            for i in &d.errors {
                r.push(format!("> * {}", link(&x.id, i)));
            }
        }
        Kd::Resource(d) => {
            if d.slots.iter().any(|s| s.is_some()) {
                r.push(s("### Resource Operations"));
            }
            for (i, n) in SLOTS.iter().enumerate() {
                if let Some(o) = &d.slots[i] {
                    r.push(format!("> * `{}`: {}", n, link(&x.id, o)));
                }
            }
            list("Operations", &x.id, &d.ops, r);
            list("Collection Operations", &x.id, &d.cops, r);
            list("Resources", &x.id, &d.res, r);
        }
        _ => (),
    }
}
/// Lines without the mark of a quote (the renderer omits it for all but the first item of a list).
fn plain(t: &[u8]) -> Vec<Vec<u8>> {
    let mut l = lines(t);
    l.retain(|x| x != b">");
    for x in &mut l {
        if starts(x, b"> ") {
            x.drain(..2);
        }
    }
    l
}
/// Shapes in the order of their IDs.
fn check_doc(meta: &[(String, V)], shapes: &[Sh]) {
    let mut m = to_model(shapes);
    for (k, v) in meta {
        let _ = m.add_metadata(k.clone(), to_value(v));
    }
    let t = out(DocumentationWriter::default(), &m);
    let l = plain(&t);
    let mut d = vec![s("[_metadata_:title]:- \"Smithy Model\""), s("Smithy Version: 1.0")];
    if !meta.is_empty() {
        d.push(s("# Metadata"));
        d.push(s("<table>"));
        d.push(s("<tr><th>Key</th><th>Value</th></tr>"));
        for (k, v) in meta {
            d.push(format!("<tr><td>{}</td><td>`{}`</td></tr>", k, show(v)));
        }
        d.push(s("</table>"));
    }
    let mut ns = String::new();
    for x in shapes {
        if matches!(x.kind, Kd::Unresolved) {
            continue;
        }
        if ns != x.id.ns {
            ns = x.id.ns.clone();
            d.push(format!("# Namespace {}", ns));
        }
        section(x, &mut d);
    }
    let d = plain(d.join("\n").as_bytes());
    check(l.len() == d.len(), "the document has a line for each thing");
    for (a, b) in l.iter().zip(&d) {
        check(eq_bytes(a, b), "the line says what the model holds");
    }
    reach("document");
}
entry!(h_d03_kinds, {
    let k = pick(10);
    let ns = if any_bool() { "t.t" } else { "x.y" };
    let x = Sh { id: Id::new(ns, &named('_')), traits: vec![tr("t", None)], kind: crate::builder::rich(k) };
    check_doc(&[], &[x]);
});
entry!(h_d03_one, {
    check_doc(&[], &crate::builder::ones("x.y", 10));
});
entry!(h_d03_wide, {
    // in any order of hashes
    hash_mode(pick(6));
    let meta: Vec<(String, V)> = (0..6).map(|i| (format!("k{}", i), V::I(i))).collect();
    check_doc(&meta, &crate::builder::wide_with("x.y", "q"));
});
entry!(h_d03_two, {
    let (j, k) = (pick(10), pick(10));
    let ns = if any_bool() { "t.t" } else { "x.y" };
    let a = Sh { id: Id::new("t.t", &named('A')), traits: vec![], kind: crate::builder::rich(j) };
    let b = Sh { id: Id::new(ns, &named('B')), traits: vec![], kind: crate::builder::rich(k) };
    check_doc(&[], &[a, b]);
});
/// A value of any form; `one`: objects have one key (the text of others depends on hash order).
fn any_form(depth: u32, one: bool) -> V {
    match pick(if depth == 0 { 6 } else { 9 }) {
        0 => V::S(print(1)),
        1 => V::I(pick(3) as i64 * 50 - 50),
        2 => V::F(1.5),
        3 => V::B(any_bool()),
        4 => V::N,
        5 => V::S(String::new()),
        6 => V::A(if any_bool() { vec![] } else { vec![V::B(true), any_form(depth - 1, one)] }),
        7 => V::O(vec![]),
        _ => {
            let mut o = vec![(named('a'), any_form(depth - 1, one))];
            if !one {
                o.push((s("b"), V::I(7)));
            }
            V::O(o)
        }
    }
}
entry!(h_d03_traits, {
    let v = any_form(2, false);
    let t = match pick(3) {
        0 => vec![tr("s", Some(v)), tr("t", None)],
        1 => vec![(Id::new("a.b", "z"), Some(V::B(true))), (Id::api("x"), Some(v))],
        _ => vec![tr(&named('t'), Some(v))],
    };
    check_doc(&[], &[Sh { id: Id::new("x.y", "N"), traits: t, kind: Kd::Simple(Simple::String) }]);
});
entry!(h_d03_documentation, {
    // documentation and links, of shapes and of members
    let v = any_form(1, true);
    let t = match pick(3) {
        0 => vec![(Id::api("documentation"), Some(v))],
        1 => vec![(Id::api("externalDocumentation"), Some(v))],
        _ => vec![(Id::api("documentation"), Some(V::S(s("d")))), (Id::api("externalDocumentation"), Some(V::O(vec![(s("h"), V::S(print(2)))])))],
    };
    let m = |n: &str| Mem { name: s(n), target: Id::api("String"), traits: t.clone() };
    let (kind, t) = match pick(6) {
        0 => (Kd::List(m("member")), vec![]),
        1 => (Kd::Set(m("member")), vec![]),
        2 => (Kd::Map(m("key"), m("value")), vec![]),
        3 => (Kd::Struct(vec![m("a"), m("b")]), vec![]),
        4 => (Kd::Union(vec![m("a")]), t.clone()),
        _ => (Kd::Simple(Simple::Blob), t.clone()),
    };
    check_doc(&[], &[Sh { id: Id::new("x.y", "N"), traits: t, kind }]);
});
entry!(h_d03_metadata, {
    let x = Sh::new(&Id::new("x.y", "N"), Kd::Simple(Simple::String));
    check_doc(&[(named('k'), any_form(2, true)), (s("l"), V::I(0))], &[x]);
});
const NAMES: [&str; 13] = ["blob", "boolean", "document", "string", "byte", "short", "integer", "long", "float", "double", "bigInteger", "bigDecimal", "timestamp"];
fn simple_name(x: &Simple) -> String {
    s(NAMES[SIMPLES.iter().position(|y| y == x).unwrap()])
}
