//! X01: the actions of the command-line tool.
use crate::desc::*;
use crate::gen::*;
use atelier_assembler::{FileTypeRegistry, ModelAssembler};
use atelier_core::action::lint::{NamingConventions, UnwelcomeTerms};
use atelier_core::action::validate::{CorrectTypeReferences, NoUnresolvedReferences};
use atelier_core::action::{Action, ActionIssue, IssueLevel, Linter, Validator};
use atelier_core::io::ModelWriter;
use atelier_core::model::{Model, NamespaceID};
use atelier_describe::document::writer::describe_model;
use atelier_describe::plant_uml::writer::PlantUmlWriter;
use atelier_json::JsonWriter;
use atelier_smithy::SmithyWriter;
use cargo_atelier::actions::{convert_file_format, document_file, lint_file, validate_file};
use cargo_atelier::report::report_action_issues;
use cargo_atelier::{DocumentCommand, FileFormat, TransformCommand};
use somedoc::write::{write_document_to_string, OutputFormat};
use std::convert::TryFrom;
use std::path::PathBuf;
use std::str::FromStr;

fn lower() -> String {
    let c = bytes::<1>();
    assume((c[0] >= b'a') & (c[0] <= b'z'));
    (c[0] as char).to_string()
}
/// Files of one or two namespaces; what is in them.
fn files(two: bool) -> (Vec<PathBuf>, Vec<Sh>) {
    let (x, y) = (letter(), letter());
    let n = if two { "o.o" } else { "n.n" };
    vfs_dir("d");
    vfs_put("d/m.json", format!("{{\"smithy\": \"1.0\", \"shapes\": {{\"n.n#J{}\": {{\"type\": \"list\", \"member\": {{\"target\": \"n.n#J{}\"}}}}}}}}", x, x).as_bytes());
    vfs_put("s.smithy", format!("namespace {}\nblob S{}\n", n, y).as_bytes());
    let j = Id::new("n.n", &format!("J{}", x));
    let s = Id::new(n, &format!("S{}", y));
    let m = Mem { name: "member".to_string(), target: j.clone(), traits: vec![] };
    (
        vec![PathBuf::from("d"), PathBuf::from("s.smithy")],
        vec![Sh::new(&j, Kd::List(m)), Sh::new(&s, Kd::Simple(atelier_core::model::shapes::Simple::Blob))],
    )
}
fn letter() -> String {
    let c = bytes::<1>();
    assume(is_alpha(c[0]));
    (c[0] as char).to_string()
}
fn model(f: &[PathBuf]) -> Option<Model> {
    let mut a = ModelAssembler::new(FileTypeRegistry::default(), None);
    for p in f {
        a.push(p);
    }
    Model::try_from(a).ok()
}
fn text(w: &mut impl ModelWriter, m: &Model) -> Vec<u8> {
    let mut t = vec![];
    check(w.write(&mut t, m).is_ok(), "the model is written");
    t
}
/// The same text but for the order of lines, which may depend on hash order.
fn same(a: &[u8], b: &[u8]) -> bool {
    let (x, y): (Vec<&[u8]>, Vec<&[u8]>) = (a.split(|c| *c == b'\n').collect(), b.split(|c| *c == b'\n').collect());
    let n = |v: &[&[u8]], l: &[u8]| v.iter().fold(0u32, |n, k| n + eq_bytes(k, l) as u32);
    let mut r = a.len() == b.len() && x.len() == y.len();
    for l in &x {
        r = r & (n(&x, l) == n(&y, l));
    }
    r
}
fn out() -> Option<Vec<u8>> {
    let mut b = vec![0u8; 4096];
    let n = vfs_get("out.txt", &mut b)?;
    b.truncate(n);
    Some(b)
}
/// The output file has the text if one is wanted; otherwise the command is an error.
fn done<E>(r: Result<(), E>, want: Option<Vec<u8>>) {
    check(r.is_ok() == want.is_some(), "the command fails exactly if there is nothing to write");
    if let (true, Some(w)) = (r.is_ok(), want) {
        match out() {
            Some(o) => {
                check(same(&o, &w), "the output file has the text of the model in the format");
                reach("written");
            }
            None => check(false, "the output file is there"),
        }
    } else {
        reach("error");
    }
}
entry!(h_x01_convert, {
    let two = any_bool();
    let (f, d) = files(two);
    let m = match model(&f) {
        Some(m) => m,
        None => return check(false, "the files are read"),
    };
    check_model(&m, &d, Lax::default());
    if any_bool() {
        vfs_put("out.txt", &[b'!'; 3000]);
    }
    let ns = match choose(5) {
        0 => None,
        1 => Some("n.n".to_string()),
        2 => Some("o.o".to_string()),
        3 => Some(ascii(1)),
        _ => Some(format!("{}.{}", lower(), ascii(1))),
    };
    let (format, want) = match choose(3) {
        0 => (FileFormat::Json, Some(text(&mut JsonWriter::new(true), &m))),
        1 => (FileFormat::Uml, Some(text(&mut PlantUmlWriter::default(), &m))),
        _ => {
            let n = match &ns {
                None => if two { None } else { Some("n.n".to_string()) },
                Some(n) => if n.as_bytes().split(|c| *c == b'.').all(ident_ok) { Some(n.clone()) } else { None },
            };
            (FileFormat::Smithy, n.map(|n| text(&mut SmithyWriter::new(NamespaceID::new_unchecked(&n)), &m)))
        }
    };
    let c = TransformCommand { input_files: f, output_file: Some(PathBuf::from("out.txt")), output_format: format, namespace: ns };
    done(convert_file_format(c, None), want);
});
entry!(h_x01_document, {
    let (f, _) = files(any_bool());
    let m = match model(&f) {
        Some(m) => m,
        None => return check(false, "the files are read"),
    };
    let format = || if choose(2) == 0 { "markdown" } else { "html" };
    let k = format();
    let want = match describe_model(&m) {
        Ok(d) => write_document_to_string(&d, OutputFormat::from_str(k).unwrap()).ok().map(|s| s.into_bytes()),
        Err(_) => None,
    };
    check(want.is_some(), "the model has a document");
    let c = DocumentCommand { input_files: f, output_file: Some(PathBuf::from("out.txt")), output_format: OutputFormat::from_str(k).unwrap() };
    done(document_file(c, None), want);
});
/// The same issues in any order.
fn issues(got: &[ActionIssue], want: &[ActionIssue]) {
    check(got.len() == want.len(), "an issue for each finding of the standard actions");
    let eq = |a: &ActionIssue, b: &ActionIssue| {
        let l = match (a.locus(), b.locus()) {
            (None, None) => true,
            (Some(a), Some(b)) => eq_bytes(a.to_string().as_bytes(), b.to_string().as_bytes()),
            _ => false,
        };
        (a.level() == b.level()) & l & eq_bytes(a.reporter().as_bytes(), b.reporter().as_bytes()) & eq_bytes(a.message().as_bytes(), b.message().as_bytes())
    };
    for w in want {
        let n = |v: &[ActionIssue]| v.iter().fold(0u32, |n, x| n + eq(x, w) as u32);
        check(n(got) == n(want), "the issues are those of the standard actions");
    }
}
fn bad() -> Vec<PathBuf> {
    // a name that may be misspelt, a term that is not welcome, a target that may be missing or of a wrong kind
    let x = match choose(4) {
        0 => "blob slave_thing",
        1 => "structure Master { Member: Nothing }",
        2 => "operation Op { input: Whitelist }\nblob Whitelist",
        _ => "list L { member: Op }\noperation Op {}",
    };
    vfs_put("a.smithy", format!("namespace n.n\n{}\nblob {}b\n", x, letter()).as_bytes());
    vec![PathBuf::from("a.smithy")]
}
entry!(h_x01_lint, {
    let f = bad();
    let m = match model(&f) {
        Some(m) => m,
        None => return check(false, "the files are read"),
    };
    let mut want = vec![];
    let (mut a, mut b) = (NamingConventions::default(), UnwelcomeTerms::default());
    check(a.check(&m).is_ok() & b.check(&m).is_ok(), "the model is checked");
    want.extend(a.issues().iter().cloned());
    want.extend(b.issues().iter().cloned());
    match lint_file(f, None) {
        Ok(v) => issues(&v, &want),
        Err(_) => check(false, "issues are no error"),
    }
    reach(if want.is_empty() { "clean" } else { "issues" });
});
entry!(h_x01_validate, {
    let f = bad();
    let m = match model(&f) {
        Some(m) => m,
        None => return check(false, "the files are read"),
    };
    let mut want = vec![];
    let (mut a, mut b) = (NoUnresolvedReferences::default(), CorrectTypeReferences::default());
    check(a.validate(&m).is_ok() & b.validate(&m).is_ok(), "the model is validated");
    want.extend(a.issues().iter().cloned());
    want.extend(b.issues().iter().cloned());
    match validate_file(f, None) {
        Ok(v) => issues(&v, &want),
        Err(_) => check(false, "issues are no error"),
    }
    reach(if want.is_empty() { "clean" } else { "issues" });
});
entry!(h_x01_faults, {
    // input that is no model, output that cannot be made
    let f = match choose(3) {
        0 => {
            vfs_put("a.smithy", b"namespace");
            vec![PathBuf::from("a.smithy")]
        }
        1 => {
            vfs_put("a.json", b"{}x");
            vec![PathBuf::from("a.json")]
        }
        _ => {
            vfs_put("a.smithy", b"namespace n.n\nblob B\n");
            vfs_dir("out.txt");
            vec![PathBuf::from("a.smithy")]
        }
    };
    let bad_input = f[0].to_str() == Some("a.json") || model(&f).is_none();
    let o = || Some(PathBuf::from("out.txt"));
    let r = match choose(4) {
        0 => convert_file_format(TransformCommand { input_files: f, output_file: o(), output_format: FileFormat::Json, namespace: None }, None).is_err(),
        1 => document_file(DocumentCommand { input_files: f, output_file: o(), output_format: OutputFormat::from_str("markdown").unwrap() }, None).is_err(),
        2 => lint_file(f, None).is_err() == bad_input,
        _ => validate_file(f, None).is_err() == bad_input,
    };
    check(r, "what cannot be read or written is an error");
    reach("fault");
});
entry!(h_x01_format, {
    let t = ascii(choose(8) as usize);
    let b = t.as_bytes();
    let want = eq_bytes(b, b"json") | eq_bytes(b, b"smithy") | eq_bytes(b, b"uml");
    match FileFormat::from_str(&t) {
        Ok(f) => {
            check(want, "a text that names no format is an error");
            check(eq_bytes(f.to_string().as_bytes(), b), "a format prints as its name");
            reach("format");
        }
        Err(_) => {
            check(!want, "the name of a format is read");
            reach("error");
        }
    }
});
entry!(h_x01_stdout, {
    // no output file: the text goes to standard output
    let (f, _) = files(false);
    let m = match model(&f) {
        Some(m) => m,
        None => return check(false, "the files are read"),
    };
    let k = choose(5);
    let want = match k {
        0 => Some(text(&mut JsonWriter::new(true), &m)),
        1 => Some(text(&mut PlantUmlWriter::default(), &m)),
        2 => Some(text(&mut SmithyWriter::new(NamespaceID::new_unchecked("n.n")), &m)),
        _ => {
            let f = OutputFormat::from_str(if k == 3 { "markdown" } else { "html" }).unwrap();
            describe_model(&m).ok().and_then(|d| write_document_to_string(&d, f).ok()).map(|s| s.into_bytes())
        }
    };
    stdout_to("out.txt");
    let r = match k {
        0 => convert_file_format(TransformCommand { input_files: f, output_file: None, output_format: FileFormat::Json, namespace: None }, None).is_ok(),
        1 => convert_file_format(TransformCommand { input_files: f, output_file: None, output_format: FileFormat::Uml, namespace: None }, None).is_ok(),
        2 => convert_file_format(TransformCommand { input_files: f, output_file: None, output_format: FileFormat::Smithy, namespace: None }, None).is_ok(),
        _ => {
            let format = OutputFormat::from_str(if k == 3 { "markdown" } else { "html" }).unwrap();
            document_file(DocumentCommand { input_files: f, output_file: None, output_format: format }, None).is_ok()
        }
    };
    stdout_back();
    done(if r { Ok(()) } else { Err(()) }, want);
});

// ------------------------------------------------------------------------------------------ X03

/// What is left of a text after the first `x` in it.
fn after<'a>(t: &'a [u8], x: &[u8]) -> Option<&'a [u8]> {
    (0..(t.len() + 1).saturating_sub(x.len())).find(|i| eq_bytes(&t[*i..*i + x.len()], x)).map(|i| &t[i + x.len()..])
}
fn times(t: &[u8], x: &[u8]) -> usize {
    match after(t, x) {
        Some(r) => 1 + times(r, x),
        None => 0,
    }
}
/// The text without colors.
fn plain(t: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut esc = false;
    for c in t {
        if esc {
            esc = *c != b'm';
        } else if *c == 27 {
            esc = true;
        } else {
            v.push(*c);
        }
    }
    v
}
fn report(v: &[ActionIssue], color: bool) {
    stdout_to("out.txt");
    let r = report_action_issues(v.to_vec(), color).is_ok();
    stdout_back();
    check(r, "a report is no error");
    let raw = out().unwrap_or_default();
    check(color || raw.iter().all(|c| *c != 27), "no color where none is asked for");
    let t = plain(&raw);
    check((times(&t, b"No issues reported") == 1) == v.is_empty(), "the report says so exactly if there is no issue");
    let mut rest = &t[..];
    for i in v {
        let l: &[u8] = match i.level() {
            IssueLevel::Info => b"[info]",
            IssueLevel::Warning => b"[warning]",
            IssueLevel::Error => b"[error]",
        };
        let mut parts = vec![l.to_vec(), i.message().as_bytes().to_vec(), i.reporter().as_bytes().to_vec()];
        if let Some(x) = i.locus() {
            parts.push(x.to_string().into_bytes());
        }
        for p in parts {
            match after(rest, &p) {
                Some(r) => rest = r,
                None => return check(false, "the level, message, reporter and place of each issue, in order"),
            }
        }
    }
    let n: usize = [&b"[info]"[..], b"[warning]", b"[error]"].iter().map(|l| times(&t, l)).sum();
    check(n == v.len(), "one entry for each issue");
    reach(if v.is_empty() { "none" } else { "some" });
}
fn issue(i: u32, m: &str) -> ActionIssue {
    let l = match pick(3) {
        0 => IssueLevel::Info,
        1 => IssueLevel::Warning,
        _ => IssueLevel::Error,
    };
    let (r, m) = (format!("Rule{}", i), format!("is {} {}", i, m));
    match choose(3) {
        0 => ActionIssue::new(l, &r, &m),
        1 => ActionIssue::new_at(l, &r, &m, shape_id("a.b", &format!("S{}", i), None)),
        _ => ActionIssue::new_at(l, &r, &m, shape_id("a.b", "S", Some(&format!("m{}", i)))),
    }
}
fn shape_id(n: &str, s: &str, m: Option<&str>) -> atelier_core::model::ShapeID {
    let t = match m {
        None => format!("{}#{}", n, s),
        Some(m) => format!("{}#{}${}", n, s, m),
    };
    atelier_core::model::ShapeID::from_str(&t).unwrap()
}
entry!(h_x03_report, {
    let n = choose(3);
    let v: Vec<ActionIssue> = (0..n).map(|i| issue(i, if i == 0 { "first" } else { "" })).collect();
    report(&v, any_bool());
});
entry!(h_x03_text, {
    // any two characters in the message
    let l = if any_bool() { IssueLevel::Warning } else { IssueLevel::Error };
    let m = format!("x{}y", ascii(1));
    assume(m.as_bytes()[1] != 27);
    report(&[ActionIssue::new_at(l, "Rule", &m, shape_id("a.b", "S", None))], any_bool());
});
entry!(h_x03_many, {
    let n = 3 + pick(10);
    let k = pick(n);
    let v: Vec<ActionIssue> = (0..n)
        .map(|i| {
            let l = if i == k { IssueLevel::Error } else if i % 2 == 0 { IssueLevel::Info } else { IssueLevel::Warning };
            ActionIssue::new_at(l, "Rule", &format!("issue number {}", i), shape_id("a.b", &format!("S{}", i), None))
        })
        .collect();
    report(&v, any_bool());
});
