//! C12..C17: validators, linters, their runners and the model visitor.
use crate::desc::*;
use crate::gen::*;
use crate::model::{some_kind, tgt};
use atelier_core::action::lint::{run_linter_actions, NamingConventions, UnwelcomeTerms};
use atelier_core::action::validate::{run_validation_actions, CorrectTypeReferences, NoUnresolvedReferences};
use atelier_core::action::{Action, ActionIssue, IssueLevel, Linter, Validator};
use atelier_core::error::{ErrorKind, Result as ModelResult};
use atelier_core::model::shapes::*;
use atelier_core::model::values::Value;
use atelier_core::model::visitor::{walk_model, MemberVisitor, ModelVisitor};
use atelier_core::model::{Identifier, Model, ShapeID};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

// ------------------------------------------------------------------------------------------ C12

/// What a reference may legally name.
#[derive(Clone, Copy, PartialEq)]
enum Want {
    Data,
    Operation,
    Resource,
}
const SLOT_COUNT: u32 = 21;
/// A shape with exactly one reference, in slot `s`, to `t`.
fn with_slot(s: u32, t: &Id) -> (Kd, Want) {
    let m = |n: &str| Mem::new(n, t);
    let other = Id::api("String");
    match s {
        0 => (Kd::List(m("member")), Want::Data),
        1 => (Kd::Set(m("member")), Want::Data),
        2 => (Kd::Map(m("key"), Mem::new("value", &other)), Want::Data),
        3 => (Kd::Map(Mem::new("key", &other), m("value")), Want::Data),
        4 => (Kd::Struct(vec![m("a")]), Want::Data),
        5 => (Kd::Union(vec![m("a")]), Want::Data),
        6 => (Kd::Operation(Op { input: Some(t.clone()), ..Op::default() }), Want::Data),
        7 => (Kd::Operation(Op { output: Some(t.clone()), ..Op::default() }), Want::Data),
        8 => (Kd::Operation(Op { errors: vec![t.clone()], ..Op::default() }), Want::Data),
        9 => (Kd::Resource(Res { ids: vec![("i".to_string(), t.clone())], ..Res::default() }), Want::Data),
        10 => (Kd::Service(Svc { version: "1".to_string(), ops: vec![t.clone()], ..Svc::default() }), Want::Operation),
        11 => (Kd::Service(Svc { version: "1".to_string(), res: vec![t.clone()], ..Svc::default() }), Want::Resource),
        12..=17 => {
            let mut r = Res::default();
            r.slots[(s - 12) as usize] = Some(t.clone());
            (Kd::Resource(r), Want::Operation)
        }
        18 => (Kd::Resource(Res { ops: vec![t.clone()], ..Res::default() }), Want::Operation),
        19 => (Kd::Resource(Res { cops: vec![t.clone()], ..Res::default() }), Want::Operation),
        _ => (Kd::Resource(Res { res: vec![t.clone()], ..Res::default() }), Want::Resource),
    }
}
/// A shape of kind `k` that refers to nothing.
pub fn bare(k: u32) -> Kd {
    let s = Id::api("String");
    match k {
        0 => Kd::Simple(Simple::String),
        1 => Kd::List(Mem::new("member", &s)),
        2 => Kd::Set(Mem::new("member", &s)),
        3 => Kd::Map(Mem::new("key", &s), Mem::new("value", &s)),
        4 => Kd::Struct(vec![]),
        5 => Kd::Union(vec![]),
        6 => Kd::Service(Svc { version: "1".to_string(), ..Svc::default() }),
        7 => Kd::Operation(Op::default()),
        8 => Kd::Resource(Res::default()),
        _ => Kd::Unresolved,
    }
}
fn counts(issues: &[ActionIssue]) -> (usize, usize, usize) {
    let c = |l: IssueLevel| issues.iter().filter(|i| *i.level() == l).count();
    (c(IssueLevel::Error), c(IssueLevel::Warning), c(IssueLevel::Info))
}
fn validate(v: Box<dyn Validator>, m: &Model) -> Vec<ActionIssue> {
    match run_validation_actions(&mut [v], m, false) {
        Ok(i) => i,
        Err(_) => {
            check(false, "the validator does not fail");
            vec![]
        }
    }
}
entry!(h_c12_slots, {
    // one reference of any role to a shape of any kind, or to an absent one
    let k = choose(10);
    let target = Id::new("t.t", &name1());
    let refd = match choose(3) {
        0 | 1 => Id::new("t.t", &name1()),
        _ => {
            let c = bytes::<1>();
            assume(is_alpha(c[0]) & (c[0] != b'I'));
            Id::new(&format!("smithy.ap{}", c[0] as char), "Nope")
        }
    };
    let (kd, want) = with_slot(choose(SLOT_COUNT), &refd);
    let src = Id::new("s.s", "Src");
    let m = to_model(&[Sh::new(&src, kd), Sh::new(&target, bare(k))]);
    let issues = validate(Box::new(CorrectTypeReferences::default()), &m);
    let present = refd.same(&target);
    let prelude = eq_bytes(refd.ns.as_bytes(), b"smithy.api");
    let bad = present
        && match want {
            Want::Data => k == 6 || k == 7 || k == 8,
            Want::Operation => k != 7,
            Want::Resource => k != 8,
        };
    let (e, w, _) = counts(&issues);
    check(e == bad as usize, "an error exactly for a reference to a shape of the wrong kind");
    check(w == (!present && !prelude) as usize, "a warning exactly for a non-prelude target absent from the model");
    for i in &issues {
        if *i.level() != IssueLevel::Info {
            check(matches!(i.locus(), Some(l) if is_id(l, &src)), "the issue is located at the referring shape");
            check(i.reporter() == "CorrectTypeReferences", "the issue names its reporter");
        }
    }
    reach(if bad { "error" } else if e + w == 0 { "clean" } else { "warning" });
});
entry!(h_c12_two, {
    // several references in one shape are judged one by one, whatever their place in a list
    let (x, y) = (Id::new("t.t", &named('D')), Id::new("t.t", &named('D')));
    let (d1, o1, r1) = (Id::new("t.t", "Da"), Id::new("t.t", "Db"), Id::new("t.t", "Dc"));
    let two = || vec![x.clone(), y.clone()];
    let svc = || Svc { version: "1".to_string(), ..Svc::default() };
    let (kd, want) = match choose(11) {
        0 => (Kd::Struct(vec![Mem::new("p", &x), Mem::new("q", &y)]), Want::Data),
        1 => (Kd::Map(Mem::new("key", &x), Mem::new("value", &y)), Want::Data),
        2 => (Kd::Operation(Op { input: Some(x.clone()), output: Some(y.clone()), ..Op::default() }), Want::Data),
        3 => (Kd::Operation(Op { input: None, output: Some(d1.clone()), errors: two() }), Want::Data),
        4 => (Kd::Union(vec![Mem::new("p", &x), Mem::new("q", &y)]), Want::Data),
        5 => (Kd::Resource(Res { ids: vec![("i".to_string(), x.clone()), ("j".to_string(), y.clone())], ..Res::default() }), Want::Data),
        6 => (Kd::Service(Svc { ops: two(), ..svc() }), Want::Operation),
        7 => (Kd::Service(Svc { res: two(), ..svc() }), Want::Resource),
        8 => (Kd::Resource(Res { ops: two(), ..Res::default() }), Want::Operation),
        9 => (Kd::Resource(Res { cops: two(), ..Res::default() }), Want::Operation),
        _ => (Kd::Resource(Res { res: two(), ..Res::default() }), Want::Resource),
    };
    let m = to_model(&[Sh::new(&Id::new("s.s", "Src"), kd), Sh::new(&d1, bare(4)), Sh::new(&o1, bare(7)), Sh::new(&r1, bare(8))]);
    let issues = validate(Box::new(CorrectTypeReferences::default()), &m);
    let right = match want {
        Want::Data => &d1,
        Want::Operation => &o1,
        Want::Resource => &r1,
    };
    let (mut we, mut ww) = (0, 0);
    for t in [&x, &y] {
        if !t.same(right) {
            if t.same(&d1) | t.same(&o1) | t.same(&r1) {
                we += 1;
            } else {
                ww += 1;
            }
        }
    }
    let (e, w, _) = counts(&issues);
    check(e == we, "one error per wrong reference");
    check(w == ww, "one warning per absent target");
    reach(if we == 2 { "two-errors" } else if ww == 2 { "two-warnings" } else { "mixed" });
});
entry!(h_c12_across, {
    // the references of one shape do not affect the judgement of another's
    let (x, y) = (Id::new("t.t", &named('D')), Id::new("t.t", &named('D')));
    let (d1, o1) = (Id::new("t.t", "Da"), Id::new("t.t", "Db"));
    let (p, q) = (Id::new("s.s", "P"), Id::new("s.s", "Q"));
    let mk = |k: u32, t: &Id| match k {
        0 => Kd::List(Mem::new("member", t)),
        1 => Kd::Operation(Op { errors: vec![t.clone()], ..Op::default() }),
        _ => Kd::Struct(vec![Mem::new("m", t)]),
    };
    let (k1, k2) = (choose(3), choose(3));
    let m = to_model(&[Sh::new(&p, mk(k1, &x)), Sh::new(&d1, bare(4)), Sh::new(&q, mk(k2, &y)), Sh::new(&o1, bare(7))]);
    let issues = validate(Box::new(CorrectTypeReferences::default()), &m);
    for (s, t) in [(&p, &x), (&q, &y)] {
        let n = |lv: IssueLevel| issues.iter().filter(|i| *i.level() == lv && matches!(i.locus(), Some(l) if is_id(l, s))).count();
        let (wrong, absent) = (t.same(&o1), !t.same(&d1) & !t.same(&o1));
        check(n(IssueLevel::Error) == wrong as usize, "an error at the shape with the wrong reference, only");
        check(n(IssueLevel::Warning) == absent as usize, "a warning at the shape with the absent target, only");
    }
    reach(if x.same(&o1) & y.same(&o1) { "two-errors" } else { "other" });
});
/// Every reference of a shape and what it must be.
fn references(k: &Kd) -> Vec<(Id, u32)> {
    let mut v: Vec<(Id, u32)> = vec![];
    let mut put = |l: &[Id], k: u32| v.extend(l.iter().map(|i| (i.clone(), k)));
    let targets = |l: &[Mem]| l.iter().map(|m| m.target.clone()).collect::<Vec<Id>>();
    match k {
        Kd::List(m) | Kd::Set(m) => put(&[m.target.clone()], 4),
        Kd::Map(a, b) => put(&[a.target.clone(), b.target.clone()], 4),
        Kd::Struct(l) | Kd::Union(l) => put(&targets(l), 4),
        Kd::Operation(o) => {
            put(&o.input.iter().chain(&o.output).chain(&o.errors).cloned().collect::<Vec<Id>>(), 4);
        }
        Kd::Service(s) => {
            put(&s.ops, 7);
            put(&s.res, 8);
        }
        Kd::Resource(r) => {
            put(&r.ids.iter().map(|i| i.1.clone()).collect::<Vec<Id>>(), 4);
            put(&r.slots.iter().flatten().cloned().collect::<Vec<Id>>(), 7);
            put(&r.ops, 7);
            put(&r.cops, 7);
            put(&r.res, 8);
        }
        _ => (),
    }
    v
}
entry!(h_c12_wide, {
    // shapes with six of everything, all right but for one reference
    let src = crate::builder::wide("s.s").swap_remove(pick(9) as usize);
    let refs = references(&src.kind);
    let ill = if refs.is_empty() { 0 } else { pick(refs.len() as u32) as usize };
    let how = pick(4);
    let mut d = vec![src.clone()];
    for (i, (t, k)) in refs.iter().enumerate() {
        let kind = if !t.same(&refs[ill].0) || how == 3 {
            bare(*k)
        } else {
            match how {
                0 => bare(if *k == 4 { 6 } else { 4 }),
                1 => bare(if *k == 8 { 7 } else { 8 }),
                _ => continue,
            }
        };
        if !d.iter().any(|s| s.id.same(t)) {
            d.push(Sh::new(t, kind));
        }
    }
    let n = refs.iter().filter(|(t, _)| t.same(&refs[ill].0)).count();
    let issues = validate(Box::new(CorrectTypeReferences::default()), &to_model(&d));
    let (e, w, _) = counts(&issues);
    check(e == if how < 2 { n } else { 0 }, "an error exactly for the wrong reference");
    check(w == if how == 2 { n } else { 0 }, "a warning exactly for the absent target");
    for i in &issues {
        if *i.level() != IssueLevel::Info {
            check(matches!(i.locus(), Some(l) if is_id(l, &src.id)), "the issue is located at the referring shape");
        }
    }
    reach(if e > 0 { "error" } else if w > 0 { "warning" } else { "clean" });
});

// ------------------------------------------------------------------------------------------ C13

struct Act {
    issues: Vec<ActionIssue>,
    will: Vec<(IssueLevel, String)>,
    fail: bool,
    runs: Rc<Cell<u32>>,
}
impl Action for Act {
    fn label(&self) -> &'static str {
        "act"
    }
    fn issues(&self) -> &Vec<ActionIssue> {
        &self.issues
    }
    fn issues_mut(&mut self) -> &mut Vec<ActionIssue> {
        &mut self.issues
    }
}
impl Act {
    fn go(&mut self) -> ModelResult<()> {
        self.runs.set(self.runs.get() + 1);
        if self.fail {
            return Err(ErrorKind::UnknownShape("act".to_string()).into());
        }
        for (l, t) in &self.will {
            self.issues.push(ActionIssue::new(l.clone(), "act", t));
        }
        Ok(())
    }
}
impl Validator for Act {
    fn validate(&mut self, _: &Model) -> ModelResult<()> {
        self.go()
    }
}
impl Linter for Act {
    fn check(&mut self, _: &Model) -> ModelResult<()> {
        self.go()
    }
}
fn level() -> IssueLevel {
    match choose(3) {
        0 => IssueLevel::Info,
        1 => IssueLevel::Warning,
        _ => IssueLevel::Error,
    }
}
fn c13(n: usize, per: u32, fails: bool, lint: bool, twice: bool) {
    let fast = any_bool();
    let mut specs: Vec<(Vec<(IssueLevel, String)>, bool, Rc<Cell<u32>>)> = vec![];
    for _ in 0..n {
        let fail = fails && any_bool();
        let k = if fail { 0 } else { choose(per + 1) };
        let will = (0..k).map(|_| (level(), ascii(1))).collect();
        specs.push((will, fail, Rc::new(Cell::new(0))));
    }
    let mk = |s: &(Vec<(IssueLevel, String)>, bool, Rc<Cell<u32>>)| Act { issues: vec![], will: s.0.clone(), fail: s.1, runs: s.2.clone() };
    let m = Model::default();
    let mut exp: Vec<(IssueLevel, String)> = vec![];
    let mut ran = 0;
    let mut err = false;
    for s in &specs {
        ran += 1;
        if s.1 {
            err = true;
            break;
        }
        exp.extend(s.0.iter().cloned());
        if fast && s.0.iter().any(|i| i.0 == IssueLevel::Error) {
            break;
        }
    }
    let mut vs: Vec<Box<dyn Validator>> = vec![];
    let mut ls: Vec<Box<dyn Linter>> = vec![];
    for s in &specs {
        if lint {
            ls.push(Box::new(mk(s)));
        } else {
            vs.push(Box::new(mk(s)));
        }
    }
    let rounds = if twice { 2 } else { 1 };
    for round in 1..=rounds {
        let r = if lint { run_linter_actions(&mut ls, &m, fast) } else { run_validation_actions(&mut vs, &m, fast) };
        for (i, s) in specs.iter().enumerate() {
            check(s.2.get() == if i < ran { round } else { 0 }, "actions run in order until the first that must stop the run");
        }
        match r {
            Err(e) => {
                check(err, "no failure is invented");
                check(matches!(e.kind(), ErrorKind::UnknownShape(_)), "the failure of the action is the one returned");
                reach("failed");
            }
            Ok(got) => {
                check(!err, "a failing action fails the run");
                check(got.len() == exp.len(), "no issue is lost or repeated");
                for i in 0..got.len().min(exp.len()) {
                    check(*got[i].level() == exp[i].0, "issues keep their level and order");
                    check(eq_bytes(got[i].message().as_bytes(), exp[i].1.as_bytes()), "issues keep their message and order");
                }
                reach(if ran < n { "stopped" } else { "all" });
            }
        }
    }
}
entry!(h_c13_validators, { c13(2, 2, true, false, false) });
entry!(h_c13_linters, { c13(2, 2, true, true, false) });
entry!(h_c13_validators_3, { c13(3, 1, true, false, true) });
entry!(h_c13_linters_3, { c13(3, 1, true, true, true) });
entry!(h_c13_many, {
    // six actions with five issues each; two of them may have an error, one may fail
    let (fast, lint) = (pick(2) == 1, pick(2) == 1);
    let (e1, e2, fail) = (pick(7) as usize, pick(7) as usize, pick(7) as usize);
    let runs: Vec<Rc<Cell<u32>>> = (0..6).map(|_| Rc::new(Cell::new(0))).collect();
    let act = |i: usize| {
        let mut will: Vec<(IssueLevel, String)> = (0..5).map(|j| (if j % 2 == 0 { IssueLevel::Warning } else { IssueLevel::Info }, format!("issue {} of {}", j, i))).collect();
        if i == e1 {
            will[0].0 = IssueLevel::Error;
        }
        if i == e2 {
            will[4].0 = IssueLevel::Error;
        }
        Act { issues: vec![], will, fail: i == fail, runs: runs[i].clone() }
    };
    let mut exp = vec![];
    let mut ran = 0;
    let mut err = false;
    for i in 0..6 {
        ran += 1;
        if i == fail {
            err = true;
            break;
        }
        exp.extend(act(i).will);
        if fast && (i == e1 || i == e2) {
            break;
        }
    }
    let m = Model::default();
    let r = if lint {
        let mut v: Vec<Box<dyn Linter>> = vec![];
        (0..6).for_each(|i| v.push(Box::new(act(i))));
        run_linter_actions(&mut v, &m, fast)
    } else {
        let mut v: Vec<Box<dyn Validator>> = vec![];
        (0..6).for_each(|i| v.push(Box::new(act(i))));
        run_validation_actions(&mut v, &m, fast)
    };
    check(runs.iter().enumerate().all(|(i, r)| r.get() == (i < ran) as u32), "actions run in order until the first that must stop the run");
    match r {
        Err(_) => check(err, "no failure is invented"),
        Ok(got) => {
            check(!err, "a failing action fails the run");
            check(got.len() == exp.len(), "no issue is lost or repeated");
            check(got.iter().zip(&exp).all(|(g, e)| *g.level() == e.0 && g.message() == e.1.as_str()), "issues keep their level, message and order");
        }
    }
    reach(if err { "failed" } else if ran < 6 { "stopped" } else { "all" });
});
entry!(h_c13_t, { c13(3, 2, true, any_bool(), false) });

// ------------------------------------------------------------------------------------------ C14

fn c14(n: usize) {
    let mut d: Vec<Sh> = vec![];
    for _ in 0..n {
        let id = Id { ns: name1(), name: name1() };
        for s in &d {
            assume(!s.id.same(&id));
        }
        let k = if any_bool() { Kd::Unresolved } else { Kd::Simple(Simple::Blob) };
        d.push(Sh::new(&id, k));
    }
    let m = to_model(&d);
    let issues = validate(Box::new(NoUnresolvedReferences::default()), &m);
    let un: Vec<&Sh> = d.iter().filter(|s| matches!(s.kind, Kd::Unresolved)).collect();
    check(issues.len() == un.len(), "one issue per unresolved shape");
    check(issues.is_empty() == m.is_complete(), "nothing is reported exactly when the model is complete");
    for i in &issues {
        check(*i.level() == IssueLevel::Error, "an unresolved shape is an error");
    }
    for s in un {
        let t = format!("'{}'", s.id.text());
        let mut hits = 0;
        for i in &issues {
            if i.message().contains(&t) {
                hits += 1;
            }
        }
        check(hits == 1, "exactly one issue names the unresolved shape");
    }
    reach(if issues.is_empty() { "complete" } else { "incomplete" });
}
entry!(h_c14_two, { c14(2) });
entry!(h_c14_three, { c14(3) });
entry!(h_c14_many, {
    // nine shapes, each of seven of which may be unresolved, with traits and references
    let one = Id::new("a.b", "S0");
    let mut d: Vec<Sh> = (0..7)
        .map(|i| {
            let id = Id::new(["a", "a.b", "b"][i % 3], &format!("S{}", i));
            let k = if pick(2) == 1 { Kd::Unresolved } else { crate::builder::one(i as u32, &one) };
            Sh { id, traits: vec![(Id::new("a.b", "tr"), Some(V::I(1)))], kind: k }
        })
        .collect();
    d.push(Sh::new(&Id::new("x.y", "T"), bare(8)));
    d.push(Sh::new(&Id::new("a", "T"), bare(4)));
    let m = to_model(&d);
    let issues = validate(Box::new(NoUnresolvedReferences::default()), &m);
    let un: Vec<&Sh> = d.iter().filter(|s| matches!(s.kind, Kd::Unresolved)).collect();
    check(issues.len() == un.len() && issues.is_empty() == m.is_complete(), "one issue per unresolved shape");
    check(issues.iter().all(|i| *i.level() == IssueLevel::Error), "an unresolved shape is an error");
    for s in un {
        let t = format!("'{}'", s.id.text());
        check(issues.iter().filter(|i| i.message().contains(&t)).count() == 1, "exactly one issue names the unresolved shape");
    }
    reach(if issues.is_empty() { "complete" } else { "incomplete" });
});
entry!(h_c14_member, {
    // an unresolved member ID is reported as well
    let id = ShapeID::new_unchecked("x.y", &name1(), Some(&name1()));
    let mut m = Model::default();
    check(m.add_shape(TopLevelShape::new(id.clone(), ShapeKind::Unresolved)).is_ok(), "added");
    let issues = validate(Box::new(NoUnresolvedReferences::default()), &m);
    check(issues.len() == 1, "one issue per unresolved shape");
    check(!m.is_complete(), "incomplete");
    check(issues[0].message().contains(&id.to_string()), "the issue names the member");
    reach("member");
});

// ------------------------------------------------------------------------------------------ C15

fn camel(s: &str) -> bool {
    use heck::CamelCase;
    s.to_camel_case() == s
}
fn mixed(s: &str) -> bool {
    use heck::MixedCase;
    s.to_mixed_case() == s
}
fn lint(l: Box<dyn Linter>, m: &Model) -> Vec<ActionIssue> {
    match run_linter_actions(&mut [l], m, false) {
        Ok(i) => i,
        Err(_) => {
            check(false, "the linter does not fail");
            vec![]
        }
    }
}
/// Exactly these loci, each as often as given, all of level Info.
fn check_loci(issues: &[ActionIssue], exp: &[Id]) {
    check(issues.len() == exp.len(), "an issue for exactly the misnamed elements");
    for i in issues {
        check(*i.level() == IssueLevel::Info, "a misnaming is an Info issue");
        check(i.locus().is_some(), "a misnaming has a locus");
    }
    for e in exp {
        let want = exp.iter().filter(|x| x.same(e)).count();
        let got = issues.iter().filter(|i| matches!(i.locus(), Some(l) if *l == e.id())).count();
        check(want == got, "each misnaming is reported at its locus");
    }
}
entry!(h_c15_shape, {
    // one shape of any kind; it may be a trait definition
    let k = choose(10);
    let n = ident(2);
    let def = any_bool();
    let id = Id::new("x.y", &n);
    let s = Sh { id: id.clone(), traits: if def { vec![(Id::api("trait"), None)] } else { vec![] }, kind: bare(k) };
    let m = to_model(&[s]);
    let ok = if def { mixed(&n) } else { camel(&n) };
    let issues = lint(Box::new(NamingConventions::default()), &m);
    check_loci(&issues, &if ok { vec![] } else { vec![id] });
    check(m.shapes().count() == 1, "the model is unchanged");
    reach(if ok { "ok" } else { "misnamed" });
});
entry!(h_c15_name3, {
    let n = ident(3);
    let def = any_bool();
    let id = Id::new("x.y", &n);
    let s = Sh { id: id.clone(), traits: if def { vec![(Id::api("trait"), None)] } else { vec![] }, kind: Kd::Unresolved };
    let m = to_model(&[s]);
    let ok = if def { mixed(&n) } else { camel(&n) };
    let issues = lint(Box::new(NamingConventions::default()), &m);
    check_loci(&issues, &if ok { vec![] } else { vec![id] });
    reach(if ok { "ok" } else { "misnamed" });
});
entry!(h_c15_members, {
    let (mn, tn, un, an) = (ident(2), ident_upto(1), ident_upto(1), ident_upto(2));
    let which = choose(3);
    // symbolic in one role at a time, so that the others stay conforming
    let name = if which == 0 { mn } else { "ok".to_string() };
    let target = Id::new("t.t", &if which == 1 { an.clone() } else { "Ok".to_string() });
    let mt = Id::new("t.t", &if which == 2 { an } else { "ok".to_string() });
    let extra = (Id::new("t.t", &tn), None);
    let m1 = Mem { name: name.clone(), target: target.clone(), traits: vec![(mt.clone(), None)] };
    let m2 = Mem::new("other", &Id::new("t.t", &un));
    let union = any_bool();
    let id = Id::new("x.y", "Holder");
    let ms = vec![m1, m2];
    let m = to_model(&[Sh { id: id.clone(), traits: vec![extra], kind: if union { Kd::Union(ms) } else { Kd::Struct(ms) } }]);
    let mut exp = vec![];
    if !mixed(&tn) {
        exp.push(Id::new("t.t", &tn));
    }
    if !camel(&un) {
        exp.push(Id::new("t.t", &un));
    }
    if !mixed(&name) {
        exp.push(id.clone());
    }
    if !camel(&target.name) {
        exp.push(target.clone());
    }
    if !mixed(&mt.name) {
        exp.push(mt.clone());
    }
    let issues = lint(Box::new(NamingConventions::default()), &m);
    check_loci(&issues, &exp);
    reach(if exp.is_empty() { "ok" } else { "misnamed" });
});
/// A structure or union of six members with three traits each, and another, in which one name
/// may be replaced: the shape's, a trait's, or a member's, its target's or one of its traits'.
fn names_at(at: usize, ill: &str, union: bool) -> (Vec<Sh>, Id, bool) {
    let mut n = 0;
    let mut name = |good: String| {
        n += 1;
        if n - 1 == at {
            ill.to_string()
        } else {
            good
        }
    };
    let id = Id::new("x.y", &name("Holder".to_string()));
    let mut locus = id.clone();
    let mut traits = vec![];
    for j in 0..3 {
        let t = Id::new("t.t", &name(format!("tr{}", j)));
        if t.name == ill {
            locus = t.clone();
        }
        traits.push((t, None));
    }
    let mut ms = vec![];
    for i in 0..6 {
        let m = name(format!("mem{}", i));
        let target = Id::new("t.t", &name(format!("Target{}", i)));
        if target.name == ill {
            locus = target.clone();
        }
        let mut tr = vec![];
        for j in 0..3 {
            let t = Id::new("t.t", &name(format!("mt{}x{}", i, j)));
            if t.name == ill {
                locus = t.clone();
            }
            tr.push((t, Some(V::I(1))));
        }
        ms.push(Mem { name: m, target, traits: tr });
    }
    let d = vec![Sh { id, traits, kind: if union { Kd::Union(ms) } else { Kd::Struct(ms) } }, Sh::new(&Id::new("x.y", "Another"), bare(5))];
    (d, locus, at < n)
}
entry!(h_c15_wide, {
    let (d, locus, ill) = names_at(pick(35) as usize, "not_Ok", pick(2) == 1);
    let issues = lint(Box::new(NamingConventions::default()), &to_model(&d));
    check_loci(&issues, &if ill { vec![locus] } else { vec![] });
    reach(if ill { "misnamed" } else { "ok" });
});
/// A shape in which any of the names are misnamed, several at once.
entry!(h_c15_several, {
    let k = pick(6);
    let bad = |good: &str, ill: &str| if pick(2) == 1 { ill.to_string() } else { good.to_string() };
    let c = bytes::<1>();
    assume(is_alpha(c[0]));
    let hn = if pick(2) == 1 { format!("h{}", c[0] as char) } else { "Holder".to_string() };
    let id = Id::new("x.y", &hn);
    let names = if k > 1 { [bad("ok", "Not_ok"), "fine".to_string()] } else { [bad("ok", "Not_ok"), bad("fine", "Not_fine")] };
    let target = Id::new("t.t", &bad("Ok", "not_ok"));
    let (st, mt) = (Id::new("t.t", &bad("str", "s_tr")), Id::new("t.t", &bad("mtr", "m_tr")));
    let mem = |n: &str| Mem { name: n.to_string(), target: target.clone(), traits: vec![(mt.clone(), None)] };
    let kind = match k {
        0 => Kd::Struct(vec![mem(&names[0]), mem(&names[1])]),
        1 => Kd::Union(vec![mem(&names[0]), mem(&names[1])]),
        2 => Kd::List(mem("member")),
        3 => Kd::Set(mem("member")),
        4 => Kd::Map(mem("key"), mem("value")),
        _ => Kd::Operation(Op { input: Some(target.clone()), output: None, errors: vec![] }),
    };
    let m = to_model(&[Sh { id: id.clone(), traits: vec![(st.clone(), None)], kind }]);
    let issues = lint(Box::new(NamingConventions::default()), &m);
    let at = |i: &Id| issues.iter().filter(|x| matches!(x.locus(), Some(l) if is_id(l, i))).count();
    let mut own = !camel(&id.name) as usize;
    if k < 2 {
        own += names.iter().filter(|n| !mixed(n)).count();
    }
    check(at(&id) == own, "the shape has an issue for its name and for each misnamed member");
    check(at(&st) == !mixed(&st.name) as usize, "the trait of the shape has its issue");
    if k < 2 {
        check((at(&target) > 0) != camel(&target.name), "a misnamed target has its issue");
        check((at(&mt) > 0) != mixed(&mt.name), "the misnamed trait of a member has its issue");
    }
    reach(if own > 0 { "several" } else { "own-ok" });
});

// ------------------------------------------------------------------------------------------ C16

const TERMS: [&str; 5] = ["blacklist", "kill", "master", "slave", "whitelist"];
/// A name that holds `term` as a word of its own: any letters around it.
fn with_term(term: &str) -> String {
    let c = bytes::<2>();
    let lowc = |c: u8| c.wrapping_sub(b'a') < 26;
    let upc = |c: u8| c.wrapping_sub(b'A') < 26;
    let cap = {
        let mut t = term.as_bytes().to_vec();
        t[0] -= 32;
        text(&t)
    };
    match choose(8) {
        0 => term.to_string(),
        1 => cap,
        2 => term.to_uppercase(),
        // fooTerm
        3 => {
            assume(lowc(c[0]) & lowc(c[1]));
            format!("{}{}{}", c[0] as char, c[1] as char, cap)
        }
        // TermX, TermXy
        4 => {
            assume(upc(c[0]) & lowc(c[1]));
            format!("{}{}{}", cap, c[0] as char, c[1] as char)
        }
        // x_term_y
        5 => {
            assume(is_alpha(c[0]) & is_alpha(c[1]));
            format!("{}_{}_{}", c[0] as char, term, c[1] as char)
        }
        6 => {
            assume(is_alpha(c[0]) & upc(c[1]));
            format!("{}_{}{}x", c[0] as char, cap, c[1] as char)
        }
        // TERM_x
        _ => {
            assume(is_alpha(c[0]) & lowc(c[1]));
            format!("{}_{}{}", term.to_uppercase(), c[0] as char, c[1] as char)
        }
    }
}
/// A name in which a term is part of a longer word only, or is misspelt.
fn without_term(term: &str) -> String {
    let c = bytes::<1>();
    assume(c[0].wrapping_sub(b'a') < 26);
    match choose(3) {
        0 => format!("{}{}", term, c[0] as char),
        1 => format!("{}{}", c[0] as char, term),
        _ => {
            let mut t = term.as_bytes().to_vec();
            let at = choose(t.len() as u32) as usize;
            assume(c[0] != t[at]);
            t[at] = c[0];
            text(&t)
        }
    }
}
/// A model holding `name` in one role.
fn in_role(role: u32, name: &str) -> Model {
    let ok = Id::new("x.y", "Holder");
    let n = Id::new("x.y", name);
    let m = |nm: &str, t: &Id, tr: Vec<Tr>| Mem { name: nm.to_string(), target: t.clone(), traits: tr };
    let st = |ms: Vec<Mem>| vec![Sh::new(&ok, Kd::Struct(ms))];
    to_model(&match role {
        0 => vec![Sh::new(&n, Kd::Simple(Simple::String))],
        1 => vec![Sh::new(&n, Kd::Unresolved)],
        2 => vec![Sh::new(&Id::new(&format!("x.{}.y", name), "Holder"), Kd::Operation(Op::default()))],
        3 => vec![Sh { id: ok.clone(), traits: vec![(n, None)], kind: Kd::Resource(Res::default()) }],
        4 => st(vec![m(name, &ok, vec![]), m("b", &ok, vec![])]),
        5 => st(vec![m("a", &n, vec![]), m("b", &ok, vec![])]),
        6 => st(vec![m("a", &ok, vec![(n, None)]), m("b", &ok, vec![])]),
        7 => vec![Sh::new(&ok, Kd::Union(vec![m(name, &ok, vec![])]))],
        _ => vec![Sh::new(&ok, Kd::Union(vec![m("a", &ok, vec![]), m("b", &n, vec![])]))],
    })
}
entry!(h_c16_found, {
    let t = TERMS[choose(5) as usize];
    let name = with_term(t);
    let m = in_role(choose(9), &name);
    let issues = lint(Box::new(UnwelcomeTerms::default()), &m);
    check(issues.len() == 1, "one warning for the one name that holds a term");
    for i in &issues {
        check(*i.level() == IssueLevel::Warning, "an unwelcome term is a warning");
        check(i.message().contains(&format!("'{}'", t)), "the warning names the term");
        check(i.locus().is_some(), "the warning has a locus");
    }
    reach("found");
});
entry!(h_c16_absent, {
    let t = TERMS[choose(5) as usize];
    let name = without_term(t);
    let m = in_role(choose(9), &name);
    let issues = lint(Box::new(UnwelcomeTerms::default()), &m);
    check(issues.is_empty(), "no warning for a name that holds no term as a word");
    reach("absent");
});
entry!(h_c16_wide, {
    // one name of many holds a term
    let t = TERMS[pick(5) as usize];
    let (d, locus, ill) = names_at(pick(35) as usize, &format!("x_{}", t), pick(2) == 1);
    let issues = lint(Box::new(UnwelcomeTerms::default()), &to_model(&d));
    check(issues.len() == ill as usize, "one warning for the one name that holds a term");
    for i in &issues {
        check(*i.level() == IssueLevel::Warning && i.message().contains(&format!("'{}'", t)), "the warning names the term");
        check(matches!(i.locus(), Some(l) if is_id(l, &locus) || l.is_member()), "the warning has a locus");
    }
    reach(if ill { "found" } else { "none" });
});
entry!(h_c16_two, {
    // two members, each with a term: both are reported, whatever the iteration order and casing
    hash_mode(choose(2) + 1);
    let (a, b) = (TERMS[choose(5) as usize], TERMS[choose(5) as usize]);
    let c = bytes::<1>();
    assume(c[0].wrapping_sub(b'a') < 26);
    let n1 = format!("{}_{}", c[0] as char, a);
    let n2 = format!("{}_{}", b, c[0] as char);
    let x = Id::new("x.y", "Holder");
    let m = to_model(&[Sh::new(&x, Kd::Struct(vec![Mem::new(&n1, &x), Mem::new(&n2, &x)]))]);
    let issues = lint(Box::new(UnwelcomeTerms::default()), &m);
    check(issues.len() == 2, "each distinct name is reported");
    for t in [a, b] {
        check(issues.iter().any(|i| i.message().contains(&format!("'{}'", t))), "each term is reported");
    }
    reach("two");
});
entry!(h_c16_case, {
    // names that differ only in case are different names: one is a single word, the other is not
    hash_mode(choose(2) + 1);
    let c = bytes::<1>();
    assume(c[0].wrapping_sub(b'a') < 26);
    let up = (c[0] - 32) as char;
    let (x, y) = (Id::new("x.a", &format!("Kill{}", c[0] as char)), Id::new("x.b", &format!("Kill{}", up)));
    let m = to_model(&[Sh::new(&x, bare(4)), Sh::new(&y, bare(4))]);
    let issues = lint(Box::new(UnwelcomeTerms::default()), &m);
    check(issues.len() == 1, "the name with the separate word is reported");
    check(matches!(issues[0].locus(), Some(l) if is_id(l, &y)), "at its locus");
    reach("case");
});

// ------------------------------------------------------------------------------------------ C17

struct Ev {
    kind: u32,
    id: ShapeID,
    name: Option<Identifier>,
    target: Option<ShapeID>,
    traits: Option<AppliedTraits>,
    body: Option<ShapeKind>,
    meta: Option<(String, Value)>,
}
struct Log {
    evs: RefCell<Vec<Ev>>,
    stop_at: usize,
    members: bool,
    calls: Cell<usize>,
}
impl Log {
    fn push(&self, e: Ev) -> Result<(), u32> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        self.evs.borrow_mut().push(e);
        if n == self.stop_at {
            Err(n as u32 + 7)
        } else {
            Ok(())
        }
    }
    fn shape(&self, kind: u32, id: &ShapeID, t: &AppliedTraits, body: ShapeKind) -> Result<(), u32> {
        self.push(Ev { kind, id: id.clone(), name: None, target: None, traits: Some(t.clone()), body: Some(body), meta: None })
    }
}
impl ModelVisitor for Log {
    type Error = u32;
    fn metadata(&self, key: &str, value: &Value) -> Result<(), u32> {
        self.push(Ev { kind: 20, id: ShapeID::new_unchecked("m", "m", None), name: None, target: None, traits: None, body: None, meta: Some((key.to_string(), value.clone())) })
    }
    fn simple_shape(&self, id: &ShapeID, t: &AppliedTraits, s: &Simple) -> Result<(), u32> {
        self.shape(0, id, t, ShapeKind::Simple(s.clone()))
    }
    fn list(&self, id: &ShapeID, t: &AppliedTraits, s: &ListOrSet) -> Result<(), u32> {
        self.shape(1, id, t, ShapeKind::List(s.clone()))
    }
    fn set(&self, id: &ShapeID, t: &AppliedTraits, s: &ListOrSet) -> Result<(), u32> {
        self.shape(2, id, t, ShapeKind::Set(s.clone()))
    }
    fn map(&self, id: &ShapeID, t: &AppliedTraits, s: &Map) -> Result<(), u32> {
        self.shape(3, id, t, ShapeKind::Map(s.clone()))
    }
    fn structure(&self, id: &ShapeID, t: &AppliedTraits, s: &StructureOrUnion) -> Result<(), u32> {
        self.shape(4, id, t, ShapeKind::Structure(s.clone()))
    }
    fn union(&self, id: &ShapeID, t: &AppliedTraits, s: &StructureOrUnion) -> Result<(), u32> {
        self.shape(5, id, t, ShapeKind::Union(s.clone()))
    }
    fn service(&self, id: &ShapeID, t: &AppliedTraits, s: &Service) -> Result<(), u32> {
        self.shape(6, id, t, ShapeKind::Service(s.clone()))
    }
    fn operation(&self, id: &ShapeID, t: &AppliedTraits, s: &Operation) -> Result<(), u32> {
        self.shape(7, id, t, ShapeKind::Operation(s.clone()))
    }
    fn resource(&self, id: &ShapeID, t: &AppliedTraits, s: &Resource) -> Result<(), u32> {
        self.shape(8, id, t, ShapeKind::Resource(s.clone()))
    }
    fn unresolved_id(&self, id: &ShapeID, t: &AppliedTraits) -> Result<(), u32> {
        self.shape(9, id, t, ShapeKind::Unresolved)
    }
    fn member_visitor(&self) -> Option<&dyn MemberVisitor<Error = u32>> {
        if self.members {
            Some(self)
        } else {
            None
        }
    }
}
impl MemberVisitor for Log {
    type Error = u32;
    fn member(&self, parent: &ShapeID, name: &Identifier, target: &ShapeID, traits: Option<&AppliedTraits>) -> Result<(), u32> {
        self.push(Ev { kind: 10, id: parent.clone(), name: Some(name.clone()), target: Some(target.clone()), traits: traits.cloned(), body: None, meta: None })
    }
}
/// The member calls a shape must give: (role, target, traits if it is a member with traits).
fn roles(k: &Kd) -> Vec<(String, Id, Option<Vec<Tr>>)> {
    let mem = |m: &Mem| (m.name.clone(), m.target.clone(), Some(m.traits.clone()));
    let slot = |n: &str, i: &Id| (n.to_string(), i.clone(), None);
    let mut v = vec![];
    match k {
        Kd::List(m) | Kd::Set(m) => v.push(mem(m)),
        Kd::Map(a, b) => v.extend([mem(a), mem(b)]),
        Kd::Struct(ms) | Kd::Union(ms) => v.extend(ms.iter().map(mem)),
        Kd::Service(s) => {
            v.extend(s.ops.iter().map(|i| slot("operations", i)));
            v.extend(s.res.iter().map(|i| slot("resources", i)));
        }
        Kd::Operation(o) => {
            v.extend(o.input.iter().map(|i| slot("input", i)));
            v.extend(o.output.iter().map(|i| slot("output", i)));
            v.extend(o.errors.iter().map(|i| slot("errors", i)));
        }
        Kd::Resource(r) => {
            for (n, s) in SLOTS.iter().zip(&r.slots) {
                v.extend(s.iter().map(|i| slot(n, i)));
            }
            v.extend(r.ops.iter().map(|i| slot("operations", i)));
            v.extend(r.cops.iter().map(|i| slot("collectionOperations", i)));
            v.extend(r.res.iter().map(|i| slot("resources", i)));
        }
        _ => (),
    }
    v
}
fn kind_no(k: &Kd) -> u32 {
    match k {
        Kd::Simple(_) => 0,
        Kd::List(_) => 1,
        Kd::Set(_) => 2,
        Kd::Map(..) => 3,
        Kd::Struct(_) => 4,
        Kd::Union(_) => 5,
        Kd::Service(_) => 6,
        Kd::Operation(_) => 7,
        Kd::Resource(_) => 8,
        Kd::Unresolved => 9,
    }
}
/// A full definition of kind `k`: every slot filled, with any targets.
fn full(k: u32) -> Kd {
    let mt = |n: &str| Mem { name: n.to_string(), target: tgt(), traits: vec![(Id::new("a.b", &name1()), None)] };
    match k {
        0 => Kd::Simple(SIMPLES[choose(13) as usize].clone()),
        1 => Kd::List(mt("member")),
        2 => Kd::Set(mt("member")),
        3 => Kd::Map(mt("key"), mt("value")),
        4 => Kd::Struct(vec![mt("a"), mt("b")]),
        5 => Kd::Union(vec![mt("a"), mt("b")]),
        6 => Kd::Service(Svc { version: name1(), ops: vec![tgt(), tgt()], res: vec![tgt()], renames: vec![] }),
        7 => Kd::Operation(Op { input: Some(tgt()), output: Some(tgt()), errors: vec![tgt(), tgt()] }),
        8 => {
            let mut r = Res::default();
            for i in 0..6 {
                r.slots[i] = Some(tgt());
            }
            r.ids = vec![("i".to_string(), tgt())];
            r.ops = vec![tgt()];
            r.cops = vec![tgt()];
            r.res = vec![tgt()];
            Kd::Resource(r)
        }
        _ => Kd::Unresolved,
    }
}
fn c17(d: Vec<Sh>, meta: Vec<(String, V)>, members: bool, stop: bool) {
    let mut m = to_model(&d);
    for (k, v) in &meta {
        let _ = m.add_metadata(k.clone(), to_value(v));
    }
    let mut total = meta.len() + d.len();
    if members {
        for s in &d {
            total += roles(&s.kind).len();
        }
    }
    let stop_at = if stop { choose(total as u32) as usize } else { usize::MAX };
    let log = Log { evs: RefCell::new(vec![]), stop_at, members, calls: Cell::new(0) };
    let r = walk_model(&m, &log);
    let evs = log.evs.into_inner();
    if stop {
        check(r == Err(stop_at as u32 + 7), "the error of a callback is returned");
        check(evs.len() == stop_at + 1, "an error stops the walk");
        reach("stopped");
        return;
    }
    check(r.is_ok(), "a walk without errors succeeds");
    check(evs.len() == total, "each element is visited exactly once");
    for (k, v) in &meta {
        let n = evs.iter().filter(|e| matches!(&e.meta, Some((a, b)) if a == k && is_value(b, v))).count();
        check(n == 1, "each metadata entry is visited once");
    }
    for s in &d {
        let mut at = usize::MAX;
        for (i, e) in evs.iter().enumerate() {
            if e.kind < 10 && e.id == s.id.id() {
                check(at == usize::MAX, "a shape is visited once");
                at = i;
            }
        }
        check(at != usize::MAX, "every shape is visited");
        let e = &evs[at];
        check(e.kind == kind_no(&s.kind), "the method called is that of the kind of the shape");
        check(is_id(&e.id, &s.id), "the ID passed is that of the shape");
        check_traits(e.traits.as_ref().unwrap(), &s.traits, Lax::default());
        check_kind(e.body.as_ref().unwrap(), &s.kind, Lax::default());
        if members {
            let want = roles(&s.kind);
            let mut used = vec![false; want.len()];
            for i in 0..want.len() {
                let e = &evs[at + 1 + i];
                check(e.kind == 10, "the members of a shape follow it");
                check(is_id(&e.id, &s.id), "a member is visited with its parent");
                let mut hit = false;
                for (j, (n, t, tr)) in want.iter().enumerate() {
                    if !used[j] && is_ident(e.name.as_ref().unwrap(), n) && is_id(e.target.as_ref().unwrap(), t) {
                        used[j] = true;
                        hit = true;
                        match (&e.traits, tr) {
                            (Some(x), Some(y)) => check_traits(x, y, Lax::default()),
                            (None, None) => (),
                            _ => check(false, "traits are passed exactly for members"),
                        }
                        break;
                    }
                }
                check(hit, "each member is visited under its role with its target");
            }
        }
    }
    reach("walked");
}
entry!(h_c17_one, {
    let k = choose(10);
    let s = Sh { id: Id::new("x.y", &name1()), traits: vec![(Id::new("a.b", &name1()), Some(V::S(ascii(1))))], kind: full(k) };
    c17(vec![s], vec![], any_bool(), false);
});
entry!(h_c17_one_target, {
    c17(crate::builder::ones("x.y", 10), vec![("k".to_string(), V::N)], pick(2) == 1, false);
});
entry!(h_c17_wide, {
    c17(crate::builder::wide("x.y"), (0..6).map(|i| (format!("k{}", i), V::I(i))).collect(), pick(2) == 1, false);
});
entry!(h_c17_two, {
    let (a, b) = (choose(10), choose(10));
    let x = Sh::new(&Id::new("x.y", &named('A')), some_kind(a));
    let y = Sh::new(&Id::new("x.y", &named('B')), some_kind(b));
    c17(vec![x, y], vec![(ascii(1), V::S(ascii(1)))], true, false);
});
entry!(h_c17_stop, {
    let (a, b) = (choose(10), choose(10));
    let x = Sh::new(&Id::new("x.y", "A"), full(a));
    let y = Sh::new(&Id::new("x.y", "B"), bare(b));
    c17(vec![x, y], vec![("k".to_string(), V::N)], any_bool(), true);
});
