//! C01, C02, C03: identifiers, namespaces and shape IDs.
use crate::gen::*;
use atelier_core::model::{HasIdentity, Identifier, NamespaceID, ShapeID};
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::str::FromStr;

/// Records everything that is hashed.
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
        self.0.push(0xfe);
    }
}
fn rec<T: Hash>(t: &T) -> Vec<u8> {
    let mut r = Rec::default();
    t.hash(&mut r);
    r.0
}

/// eq agrees with `want`; equal values hash alike and compare Equal; unequal ones do not.
fn agree<T: Eq + Ord + Hash>(a: &T, b: &T, want: bool) {
    check((a == b) == want, "a == b exactly when the texts agree ignoring case");
    check((b == a) == want, "equality is symmetric");
    check((a != b) != want, "!= is the negation of ==");
    let o = a.cmp(b);
    check((o == Ordering::Equal) == want, "cmp is Equal exactly when a == b");
    check(b.cmp(a) == o.reverse(), "cmp is antisymmetric");
    check(a.partial_cmp(b) == Some(o), "partial_cmp agrees with cmp");
    if want {
        reach("equal");
        check(eq_bytes(&rec(a), &rec(b)), "equal values feed the same data to a Hasher");
    } else {
        reach("different");
    }
}
fn le<T: Ord>(a: &T, b: &T) -> bool {
    a.cmp(b) != Ordering::Greater
}
fn trans<T: Eq + Ord>(a: &T, b: &T, c: &T) {
    if le(a, b) {
        if le(b, c) {
            reach("chain");
            check(le(a, c), "cmp is transitive");
            if a == b {
                check((b == c) == (a == c), "equality is transitive");
            }
        }
    }
}
fn sets<T: Eq + Ord + Hash + Clone>(a: &T, b: &T, want: bool) {
    let mut h = HashSet::new();
    h.insert(a.clone());
    check(h.contains(b) == want, "HashSet finds b after inserting a exactly when a == b");
    check(h.insert(b.clone()) != want, "HashSet keeps one of two equal keys");
    let mut t = BTreeSet::new();
    t.insert(a.clone());
    check(t.contains(b) == want, "BTreeSet finds b after inserting a exactly when a == b");
    reach(if want { "set-equal" } else { "set-different" });
}
fn id(s: &str) -> Identifier {
    Identifier::new_unchecked(s)
}

fn c01_ident(n: u32) {
    let a = ident_upto(n);
    let b = ident_upto(n);
    let want = eq_nocase(a.as_bytes(), b.as_bytes());
    agree(&id(&a), &id(&b), want);
}
entry!(h_c01_ident, { c01_ident(3) });
entry!(h_c01_ident_t, { c01_ident(5) });
/// Long names that differ in at most three places: the first, one inside and the last.
fn long_pair(n: usize) -> (String, String) {
    let base: Vec<u8> = (0..n).map(|i| b"aB_c9"[i % 5]).collect();
    let mid = [1, n / 2, n - 2][pick(3) as usize];
    let at = [0, mid, n - 1];
    let mut v = vec![];
    for _ in 0..2 {
        let mut t = base.clone();
        for &i in &at {
            fill(&mut t[i..i + 1]);
            assume(if i == 0 { is_alpha(t[i]) } else { is_word(t[i]) });
        }
        v.push(text(&t));
    }
    (v.swap_remove(0), v.swap_remove(0))
}
entry!(h_c01_long, {
    let (a, b) = long_pair(70);
    let want = eq_nocase(a.as_bytes(), b.as_bytes());
    match pick(4) {
        0 => agree(&id(&a), &id(&b), want),
        1 => agree(&NamespaceID::new_unchecked(&format!("x.{}.y.z", a)), &NamespaceID::new_unchecked(&format!("x.{}.y.z", b)), want),
        2 => agree(&ShapeID::new_unchecked("x.y", "Sh", Some(&a)), &ShapeID::new_unchecked("x.y", "Sh", Some(&b)), want),
        _ => agree(&ShapeID::new_unchecked(&a, &a, None), &ShapeID::new_unchecked(&b, &a, None), want),
    }
});
entry!(h_c01_trans, {
    let (a, b, c) = (ident_upto(2), ident_upto(2), ident_upto(2));
    trans(&id(&a), &id(&b), &id(&c));
});
entry!(h_c01_sets, {
    let (a, b) = (ident_upto(2), ident_upto(2));
    let want = eq_nocase(a.as_bytes(), b.as_bytes());
    sets(&id(&a), &id(&b), want);
});
fn ns_text(n: u32) -> String {
    let mut s = ident_upto(n);
    if any_bool() {
        s.push('.');
        s.push_str(&ident_upto(n));
    }
    s
}
fn c01_ns(n: u32) {
    let (a, b) = (ns_text(n), ns_text(n));
    let want = eq_nocase(a.as_bytes(), b.as_bytes());
    agree(&NamespaceID::new_unchecked(&a), &NamespaceID::new_unchecked(&b), want);
}
entry!(h_c01_ns, { c01_ns(1) });
entry!(h_c01_ns_t, { c01_ns(2) });
entry!(h_c01_ns_trans, {
    let (a, b, c) = (ident(2), ident(2), ident_upto(2));
    trans(&NamespaceID::new_unchecked(&a), &NamespaceID::new_unchecked(&b), &NamespaceID::new_unchecked(&c));
});
struct Parts {
    ns: String,
    name: String,
    member: Option<String>,
}
fn parts(n: u32) -> Parts {
    Parts { ns: ident_upto(n), name: ident_upto(n), member: if any_bool() { Some(ident_upto(n)) } else { None } }
}
impl Parts {
    fn id(&self) -> ShapeID {
        ShapeID::new_unchecked(&self.ns, &self.name, self.member.as_deref())
    }
    fn same(&self, o: &Parts) -> bool {
        let m = match (&self.member, &o.member) {
            (None, None) => true,
            (Some(a), Some(b)) => eq_nocase(a.as_bytes(), b.as_bytes()),
            _ => false,
        };
        m & eq_nocase(self.ns.as_bytes(), o.ns.as_bytes()) & eq_nocase(self.name.as_bytes(), o.name.as_bytes())
    }
}
entry!(h_c01_shape, {
    let (a, b) = (parts(1), parts(1));
    agree(&a.id(), &b.id(), a.same(&b));
});
entry!(h_c01_shape_t, {
    let (a, b) = (parts(2), parts(2));
    agree(&a.id(), &b.id(), a.same(&b));
});
entry!(h_c01_shape_sets, {
    let (a, b) = (parts(1), parts(1));
    sets(&a.id(), &b.id(), a.same(&b));
});
entry!(h_c01_shape_trans, {
    let (a, b, c) = (parts(1), parts(1), parts(1));
    trans(&a.id(), &b.id(), &c.id());
});

// ------------------------------------------------------------------------------------------ C02

/// One component recogniser: the states of `_* ALPHA (_|ALPHA|DIGIT)*`.
fn is_ns(b: &[u8]) -> bool {
    if b.is_empty() {
        return false;
    }
    let mut s = 0;
    for i in 0..=b.len() {
        if i == b.len() || b[i] == b'.' {
            if !ident_ok(&b[s..i]) {
                return false;
            }
            s = i + 1;
        }
    }
    true
}
/// Some((end of namespace, end of shape name)) exactly for the absolute IDs of the ABNF.
fn shape_parts(b: &[u8]) -> Option<(usize, usize)> {
    let h = b.iter().position(|c| *c == b'#')?;
    let d = b[h + 1..].iter().position(|c| *c == b'$').map(|x| x + h + 1);
    let e = d.unwrap_or(b.len());
    if !is_ns(&b[..h]) || !ident_ok(&b[h + 1..e]) {
        return None;
    }
    if let Some(d) = d {
        if !ident_ok(&b[d + 1..]) {
            return None;
        }
    }
    Some((h, e))
}
fn shape_text(s: &str) {
    let b = s.as_bytes();
    let want = shape_parts(b);
    let got = ShapeID::from_str(s);
    check(ShapeID::is_valid(s) == want.is_some(), "ShapeID::is_valid accepts exactly the ABNF");
    match (got, want) {
        (Ok(id), Some((h, e))) => {
            reach(if e < b.len() { "member" } else { "shape" });
            let t = id.to_string();
            observe(t.as_bytes());
            check(eq_bytes(t.as_bytes(), b), "to_string of a parsed shape ID is the parsed text");
            check(eq_bytes(id.namespace().to_string().as_bytes(), &b[..h]), "namespace component unchanged");
            check(eq_bytes(id.shape_name().to_string().as_bytes(), &b[h + 1..e]), "shape name component unchanged");
            match id.member_name() {
                Some(m) => {
                    check(e < b.len(), "no member name is invented");
                    check(eq_bytes(m.to_string().as_bytes(), &b[(e + 1).min(b.len())..]), "member name component unchanged");
                }
                None => check(e == b.len(), "the member name is not lost"),
            }
        }
        (Err(_), None) => reach("rejected"),
        (Ok(_), None) => check(false, "ShapeID accepts text outside the ABNF"),
        (Err(_), Some(_)) => check(false, "ShapeID rejects a valid absolute ID"),
    }
}
fn ident_text(s: &str) {
    let want = ident_ok(s.as_bytes());
    check(Identifier::is_valid(s) == want, "Identifier::is_valid accepts exactly the ABNF");
    match Identifier::from_str(s) {
        Ok(i) => {
            reach("id-ok");
            check(want, "Identifier accepts text outside the ABNF");
            check(eq_bytes(i.to_string().as_bytes(), s.as_bytes()), "to_string of an identifier is its text");
        }
        Err(_) => {
            reach("id-err");
            check(!want, "Identifier rejects a valid identifier")
        }
    }
}
fn ns_check(s: &str) {
    let want = is_ns(s.as_bytes());
    check(NamespaceID::is_valid(s) == want, "NamespaceID::is_valid accepts exactly the ABNF");
    match NamespaceID::from_str(s) {
        Ok(i) => {
            reach("ns-ok");
            check(want, "NamespaceID accepts text outside the ABNF");
            check(eq_bytes(i.to_string().as_bytes(), s.as_bytes()), "to_string of a namespace is its text");
        }
        Err(_) => {
            reach("ns-err");
            check(!want, "NamespaceID rejects a valid namespace")
        }
    }
}
entry!(h_c02_ident, {
    let n = choose(5);
    ident_text(&utf8(n as usize));
});
entry!(h_c02_ident_t, {
    let n = choose(7);
    ident_text(&utf8(n as usize));
});
entry!(h_c02_ns, {
    let n = choose(5);
    ns_check(&utf8(n as usize));
});
entry!(h_c02_ns_t, {
    let n = choose(7);
    ns_check(&utf8(n as usize));
});
entry!(h_c02_shape, {
    let n = choose(6);
    shape_text(&utf8(n as usize));
});
entry!(h_c02_shape_t, {
    let n = choose(7);
    shape_text(&utf8(n as usize));
});
/// A window of any `k` bytes at any position of a long ID (insertion or replacement).
fn window(k: usize) -> String {
    let base = b"_ab1.Cd_2#_Ef3$gH_4";
    let at = choose(base.len() as u32 + 1) as usize;
    let keep = if any_bool() { at } else { (at + k).min(base.len()) };
    let mut w = vec![0u8; k];
    fill(&mut w);
    let mut t = base[..at].to_vec();
    t.extend_from_slice(&w);
    t.extend_from_slice(&base[keep..]);
    match String::from_utf8(t) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}
entry!(h_c02_window, { shape_text(&window(1)) });
entry!(h_c02_window_t, { shape_text(&window(2)) });
entry!(h_c02_long, {
    // long texts with any ASCII character at one place
    let n = [64, 129, 256][pick(3) as usize];
    let mut t: Vec<u8> = (0..n).map(|i| b"aB_c9"[i % 5]).collect();
    let at = [0, 1, n / 2, n - 1][pick(4) as usize];
    fill(&mut t[at..at + 1]);
    assume(t[at] < 128);
    let t = text(&t);
    match pick(4) {
        0 => ident_text(&t),
        1 => ns_check(&format!("{}.b.c.d.e.f.g.h.i.j.k", t)),
        2 => shape_text(&format!("a.b.c.d.e.f.g.h#{}", t)),
        _ => shape_text(&format!("a.b#C${}", t)),
    }
});
entry!(h_c02_panicking, {
    // the constructors that parse their parts accept every valid part
    let (n, s, m) = (ident_upto(2), ident_upto(2), ident_upto(1));
    let a = ShapeID::shape(&n, &s);
    let b = ShapeID::member(&n, &s, &m);
    check(!a.is_member() & b.is_member(), "shape/member");
    check(eq_bytes(a.to_string().as_bytes(), format!("{}#{}", n, s).as_bytes()), "ShapeID::shape keeps its parts");
    check(eq_bytes(b.to_string().as_bytes(), format!("{}#{}${}", n, s, m).as_bytes()), "ShapeID::member keeps its parts");
    reach("built");
});

// ------------------------------------------------------------------------------------------ C03

fn exact(id: &ShapeID, ns: &str, name: &str, member: Option<&str>, what: &str) {
    check(eq_bytes(id.namespace().to_string().as_bytes(), ns.as_bytes()), what);
    check(eq_bytes(id.shape_name().to_string().as_bytes(), name.as_bytes()), what);
    match (id.member_name(), member) {
        (None, None) => (),
        (Some(a), Some(b)) => check(eq_bytes(a.to_string().as_bytes(), b.as_bytes()), what),
        _ => check(false, what),
    }
}
fn c03(n: u32) {
    let p = parts(n);
    let id0 = p.id();
    let other = ident_upto(n);
    let (ns, name, mem) = (p.ns.as_str(), p.name.as_str(), p.member.as_deref());
    exact(&id0, ns, name, mem, "accessors return the parts");
    exact(&id0.shape_only(), ns, name, None, "shape_only drops only the member");
    exact(&id0.make_shape(id(&other)), ns, &other, mem, "make_shape replaces only the shape name");
    exact(&id0.make_member(id(&other)), ns, name, Some(&other), "make_member replaces only the member name");
    check(id0.is_member() == mem.is_some(), "is_member");
    let nsid = NamespaceID::new_unchecked(ns);
    exact(&nsid.make_shape(id(name)), ns, name, None, "NamespaceID::make_shape");
    exact(&nsid.make_member(id(name), id(&other)), ns, name, Some(&other), "NamespaceID::make_member");
    exact(&ShapeID::new(nsid, id(name), mem.map(id)), ns, name, mem, "ShapeID::new");
    exact(&id0, ns, name, mem, "the receiver is unchanged");
    reach(if mem.is_some() { "member" } else { "shape" });
}
entry!(h_c03_derive, { c03(2) });
entry!(h_c03_long, {
    // namespaces of eight segments, long names
    let (a, b) = long_pair(40);
    let ns = format!("a.b.c.{}.e.f.g.h", a);
    let p = ShapeID::new_unchecked(&ns, &b, Some(&a));
    exact(&p, &ns, &b, Some(&a), "accessors return the parts");
    exact(&p.shape_only(), &ns, &b, None, "shape_only drops only the member");
    exact(&p.make_shape(id(&a)), &ns, &a, Some(&a), "make_shape replaces only the shape name");
    exact(&p.make_member(id(&b)), &ns, &b, Some(&b), "make_member replaces only the member name");
    exact(&p.shape_only().make_member(id(&b)), &ns, &b, Some(&b), "make_member adds only the member name");
    check(p.namespace().split().count() == 8, "split yields every segment");
    check(p.is_in_same_namespace(&p.shape_only()) && p.shape_only().is_valid_member(&p), "a member is of its shape");
    let o = ShapeID::new_unchecked(&format!("a.b.c.{}.e.f.g.i", a), &b, Some(&a));
    check(!p.is_in_same_namespace(&o) && !p.shape_only().is_valid_member(&o), "the whole namespace counts");
    reach("long");
});
entry!(h_c03_derive_t, { c03(3) });
entry!(h_c03_related, {
    let (a, b) = (parts(1), parts(1));
    let ns = eq_nocase(a.ns.as_bytes(), b.ns.as_bytes());
    let nm = eq_nocase(a.name.as_bytes(), b.name.as_bytes());
    check(a.id().is_in_same_namespace(&b.id()) == ns, "is_in_same_namespace compares exactly the namespaces");
    let want = a.member.is_none() & b.member.is_some() & ns & nm;
    check(a.id().is_valid_member(&b.id()) == want, "is_valid_member: a shape and a member of that shape");
    reach(if want { "valid-member" } else { "not" });
});
entry!(h_c03_related_t, {
    let (a, b) = (parts(2), parts(2));
    let ns = eq_nocase(a.ns.as_bytes(), b.ns.as_bytes());
    let nm = eq_nocase(a.name.as_bytes(), b.name.as_bytes());
    check(a.id().is_in_same_namespace(&b.id()) == ns, "is_in_same_namespace compares exactly the namespaces");
    let want = a.member.is_none() & b.member.is_some() & ns & nm;
    check(a.id().is_valid_member(&b.id()) == want, "is_valid_member: a shape and a member of that shape");
});
entry!(h_c03_split, {
    let k = choose(3) as usize + 1;
    let segs: Vec<String> = (0..k).map(|_| ident_upto(2)).collect();
    let t = segs.join(".");
    let ns = NamespaceID::new_unchecked(&t);
    let got: Vec<Identifier> = ns.split().collect();
    check(got.len() == k, "split yields every segment");
    for i in 0..k.min(got.len()) {
        check(eq_bytes(got[i].to_string().as_bytes(), segs[i].as_bytes()), "split yields the segments in order");
    }
    reach("split");
});
entry!(h_c03_identity, {
    // HasIdentity::is / set_id on a member
    use atelier_core::model::shapes::MemberShape;
    let (a, b) = (parts(1), parts(1));
    let mut m = MemberShape::new(id(&a.name), ShapeID::new_unchecked(&a.ns, &a.name, None));
    check(m.is(&id(&b.name)) == eq_nocase(a.name.as_bytes(), b.name.as_bytes()), "is compares the identity");
    m.set_id(id(&b.name));
    check(eq_bytes(m.id().to_string().as_bytes(), b.name.as_bytes()), "set_id replaces the identity");
    exact(m.target(), &a.ns, &a.name, None, "set_id keeps the target");
    reach("identity");
});
