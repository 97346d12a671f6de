//! The conformance checks: each compares what the real code does with what
//! the specification's state machines say, on one case.
use crate::core::*;
use crate::model::*;
use crate::types::*;
use crate::visit::*;
use crate::with_ty;
use langtag::*;
use std::cmp::Ordering;

macro_rules! bail {
	($($a:tt)*) => { return Err(format!($($a)*)) };
}
macro_rules! ensure {
	($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)) } };
}
pub fn q(t: &[u8]) -> String {
	format!("\"{}\"", show(t))
}
fn qo(t: Option<&[u8]>) -> String {
	t.map(q).unwrap_or("none".into())
}

/// Chars!LenientAscii: over-long encodings of ASCII replaced by what they
/// encode; None if there are none.
pub fn lenient(t: &[u8]) -> Option<Vec<u8>> {
	let cont = |b: u8| (128..192).contains(&b);
	let mut out = vec![];
	let mut any = false;
	let mut i = 0;
	while i < t.len() {
		let r = &t[i..];
		if r.len() >= 2 && (r[0] == 192 || r[0] == 193) && cont(r[1]) {
			out.push((r[0] - 192) * 64 + (r[1] - 128));
			i += 2;
			any = true
		} else if r.len() >= 3 && r[0] == 224 && (r[1] == 128 || r[1] == 129) && cont(r[2]) {
			out.push((r[1] - 128) * 64 + (r[2] - 128));
			i += 3;
			any = true
		} else if r.len() >= 4 && r[0] == 240 && r[1] == 128 && (r[2] == 128 || r[2] == 129) && cont(r[3]) {
			out.push((r[2] - 128) * 64 + (r[3] - 128));
			i += 4;
			any = true
		} else {
			out.push(r[0]);
			i += 1
		}
	}
	any.then_some(out)
}
/// The recorded finding: bytes accepted because they encode ASCII over-long.
fn is_known(m: &Model, ty: usize, t: &[u8]) -> bool {
	lenient(t).is_some_and(|l| m.well(ty, &l))
}
/// Does the real code accept `t`?  None for inputs of the recorded finding.
fn impl_accepts(m: &Model, ty: usize, t: &[u8]) -> Option<bool> {
	let got = with_ty!(ty, T => T::ref_bytes(0, t).is_ok());
	if got && std::str::from_utf8(t).is_err() && is_known(m, ty, t) { None } else { Some(got) }
}
fn tyname(ty: usize) -> &'static str {
	ALL_TYPES[ty]
}

// ------------------------------------------------------------ C01, C02
pub fn accept(m: &Model, x: &[&[u8]], n: &[i64]) -> Res {
	let (ty, t) = (n[0] as usize, x[0]);
	let want = m.well(ty, t);
	let got = with_ty!(ty, T => T::ref_bytes(0, t).is_ok());
	if got != want {
		if got && is_known(m, ty, t) {
			known("overlong-utf8", t);
			return Ok(());
		}
		bail!("{}::from_bytes({}) {}, specification {}", tyname(ty), q(t), acc(got), acc(want));
	}
	let got = with_ty!(ty, T => T::valid_bytes(t));
	ensure!(got == want, "{}::validate_bytes({}) {}, specification {}", tyname(ty), q(t), acc(got), acc(want));
	if let Ok(s) = std::str::from_utf8(t) {
		let got = with_ty!(ty, T => T::ref_str(0, s).is_ok());
		ensure!(got == want, "{}::from_str({}) {}, specification {}", tyname(ty), q(t), acc(got), acc(want));
		let got = with_ty!(ty, T => T::ref_str(1, s).is_ok());
		ensure!(got == want, "{}::new({}) {}, specification {}", tyname(ty), q(t), acc(got), acc(want));
		let got = with_ty!(ty, T => T::valid_str(s));
		ensure!(got == want, "{}::validate_str({}) {}, specification {}", tyname(ty), q(t), acc(got), acc(want));
	}
	Ok(())
}
fn acc(b: bool) -> &'static str {
	if b { "accepts" } else { "rejects" }
}

// ---------------------------------------------------------------- C03
pub fn cons(m: &Model, x: &[&[u8]], n: &[i64]) -> Res {
	let (ty, t) = (n[0] as usize, x[0]);
	let Some(want) = impl_accepts(m, ty, t) else { return Ok(()) };
	with_ty!(ty, T => cons_t::<T>(want, t))?;
	#[cfg(feature = "std")]
	if owned() {
		with_ty!(ty, T => cons_own::<T>(want, t))?;
	}
	Ok(())
}
fn one<T: Ty + ?Sized>(want: bool, how: &str, t: &[u8], r: TextRes<T>) -> Res {
	let name = T::NAME;
	ensure!(r.is_ok() == want, "{name}: {how}({}) {} but from_bytes {}", q(t), acc(r.is_ok()), acc(want));
	match r {
		Ok(v) => {
			ensure!(v.text() == t, "{name}: {how}({}) has text {}", q(t), q(v.text()));
			ensure!(v.text().as_ptr() == t.as_ptr(), "{name}: {how}({}) does not refer to the given buffer", q(t));
			let mut r = Ok(());
			v.texts(&mut |l, b| {
				if b != t || b.as_ptr() != t.as_ptr() {
					r = Err(format!("{name}: {how}({}).{l} is {}", q(t), q(b)));
				}
			});
			r
		}
		Err(e) => {
			ensure!(e == t, "{name}: {how}({}) gives back {}", q(t), q(e));
			ensure!(e.as_ptr() == t.as_ptr(), "{name}: {how}({}) gives back a different buffer", q(t));
			Ok(())
		}
	}
}
fn cons_t<T: Ty + ?Sized>(want: bool, t: &[u8]) -> Res {
	for (i, how) in REF_BYTES.iter().enumerate() {
		one::<T>(want, how, t, T::ref_bytes(i, t))?;
	}
	let name = T::NAME;
	ensure!(T::valid_bytes(t) == want, "{name}: validate_bytes({}) {} but from_bytes {}", q(t), acc(!want), acc(want));
	if let Ok(s) = std::str::from_utf8(t) {
		ensure!(T::valid_str(s) == want, "{name}: validate_str({}) {} but from_bytes {}", q(t), acc(!want), acc(want));
		if want {
			for (i, how) in UNCHECKED.iter().enumerate() {
				one::<T>(want, how, t, Ok(T::unchecked(i, t)))?;
			}
		}
	}
	let v = t.to_vec();
	one::<T>(want, "new(&Vec<u8>)", &v, T::new_vec(&v))?;
	if let Ok(s) = std::str::from_utf8(t) {
		for (i, how) in REF_STR.iter().enumerate() {
			one::<T>(want, how, t, T::ref_str(i, s))?;
		}
		let s = s.to_owned();
		one::<T>(want, "new(&String)", s.as_bytes(), T::new_string(&s))?;
	}
	Ok(())
}
#[cfg(feature = "std")]
fn cons_own<T: OwnTy + ?Sized>(want: bool, t: &[u8]) -> Res {
	let name = T::NAME;
	let one = |how: &str, r: Result<T::Buf, Vec<u8>>| -> Res {
		ensure!(r.is_ok() == want, "{name}Buf: {how}({}) {} but from_bytes {}", q(t), acc(r.is_ok()), acc(want));
		match r {
			Ok(b) => {
				for how2 in ["buf_as_str", "buf_as_ref_str", "buf_as_bytes", "buf_as_ref_bytes"] {
					let got = T::buf_bytes(how2, &b).unwrap();
					ensure!(got == t, "{name}Buf: {how}({}).{how2} is {}", q(t), q(got));
				}
				for how2 in ["as_inner", "deref", "borrow", "as_ref"] {
					let got = T::buf_ref(how2, &b).unwrap().text();
					ensure!(got == t, "{name}Buf: {how}({}).{how2} has text {}", q(t), q(got));
				}
				let got = T::buf_into("into_bytes", b).unwrap();
				ensure!(got == t, "{name}Buf: {how}({}).into_bytes is {}", q(t), q(&got));
			}
			Err(e) => ensure!(e == t, "{name}Buf: {how}({}) gives back {}", q(t), q(&e)),
		}
		Ok(())
	};
	for (i, how) in BUF_VEC.iter().enumerate() {
		one(how, T::buf_vec(i, t.to_vec()))?;
	}
	if let Ok(s) = std::str::from_utf8(t) {
		for (i, how) in BUF_STRING.iter().enumerate() {
			one(how, T::buf_string(i, s.to_owned()))?;
		}
		one("str::parse", T::buf_parse(s))?;
		if want {
			for (i, how) in BUF_UNCHECKED.iter().enumerate() {
				one(how, Ok(T::buf_unchecked(i, s.to_owned())))?;
			}
		}
	}
	Ok(())
}

// ---------------------------------------------------------------- C04
/// LangTag text.
pub fn class(m: &Model, x: &[&[u8]], _: &[i64]) -> Res {
	let t = x[0];
	let gf_ty = m.ty("Grandfathered");
	if !m.well(0, t) || impl_accepts(m, 0, t) != Some(true) {
		return Ok(());
	}
	let tag = LangTag::from_bytes(t).unwrap_or_else(|_| panic!());
	class_of(m, t, gf_ty, "LangTag", tag.is_normal(), tag.is_private_use(), tag.is_grandfathered(),
		tag.as_normal(), tag.as_private_use(), tag.as_grandfathered(), tag.kind())?;
	typed(m, t, tag.as_typed())?;
	// views made by hand say what they were made as
	if let Some(n) = tag.as_normal() {
		made(m, t, TypedLangTag::Normal(n), Kind3::N)?;
	}
	if let Some(p) = tag.as_private_use() {
		made(m, t, TypedLangTag::PrivateUse(p), Kind3::P)?;
	}
	if let Some(g) = tag.as_grandfathered() {
		made(m, t, TypedLangTag::Grandfathered(g), Kind3::G)?;
	}
	#[cfg(feature = "std")]
	if owned() {
		let b = LangTagBuf::from_bytes(t.to_vec()).unwrap_or_else(|_| panic!());
		class_of(m, t, gf_ty, "LangTagBuf", b.is_normal(), b.is_private_use(), b.is_grandfathered(),
			b.as_normal(), b.as_private_use(), b.as_grandfathered(), b.kind())?;
		typed(m, t, b.as_typed())?;
	}
	Ok(())
}
fn spec_kind(m: &Model, t: &[u8]) -> Kind3 {
	if m.well(NORMAL, t) {
		Kind3::N
	} else if m.well(PU, t) {
		Kind3::P
	} else {
		Kind3::G
	}
}
#[derive(PartialEq, Eq, Debug, Clone, Copy)]
enum Kind3 {
	N,
	P,
	G,
}
fn k3(k: langtag::Kind) -> Kind3 {
	match k {
		langtag::Kind::Normal => Kind3::N,
		langtag::Kind::PrivateUse => Kind3::P,
		langtag::Kind::Grandfathered => Kind3::G,
	}
}
#[allow(clippy::too_many_arguments)]
fn class_of(
	m: &Model, t: &[u8], gf_ty: usize, who: &str,
	is_n: bool, is_p: bool, is_g: bool,
	as_n: Option<&NormalLangTag>, as_p: Option<&PrivateUseLangTag>, as_g: Option<GrandfatheredLangTag>,
	kind: langtag::Kind,
) -> Res {
	let (n, p, g) = (m.well(NORMAL, t), m.well(PU, t), m.well(gf_ty, t));
	ensure!(n || p || g, "specification: {} has no form", q(t));
	for (name, got, want) in [
		("is_normal", is_n, n),
		("is_private_use", is_p, p),
		("is_grandfathered", is_g, g),
		("as_normal().is_some", as_n.is_some(), n),
		("as_private_use().is_some", as_p.is_some(), p),
		("as_grandfathered().is_some", as_g.is_some(), g),
	] {
		ensure!(got == want, "{who} {}: {name} is {got}, specification {want}", q(t));
	}
	if let Some(v) = as_n {
		ensure!(v.as_bytes() == t, "{who} {}: as_normal has text {}", q(t), q(v.as_bytes()));
	}
	if let Some(v) = as_p {
		ensure!(v.as_bytes() == t, "{who} {}: as_private_use has text {}", q(t), q(v.as_bytes()));
	}
	if let Some(v) = as_g {
		ensure!(m.folded(v.as_bytes()) == m.folded(t), "{who} {}: as_grandfathered is {}", q(t), q(v.as_bytes()));
	}
	let want = spec_kind(m, t);
	ensure!(k3(kind) == want, "{who} {}: kind is {kind:?}, specification {want:?}", q(t));
	let preds = (kind.is_normal(), kind.is_private_use(), kind.is_grandfathered());
	let want = (want == Kind3::N, want == Kind3::P, want == Kind3::G);
	ensure!(preds == want, "{who} {}: Kind predicates {preds:?}, specification {want:?}", q(t));
	Ok(())
}
fn made(m: &Model, t: &[u8], v: TypedLangTag, want: Kind3) -> Res {
	let w = (want == Kind3::N, want == Kind3::P, want == Kind3::G);
	let k = v.kind();
	ensure!(k3(k) == want, "TypedLangTag made as {want:?} of {}: kind is {k:?}", q(t));
	ensure!((k.is_normal(), k.is_private_use(), k.is_grandfathered()) == w, "TypedLangTag made as {want:?} of {}: predicates of its kind", q(t));
	let preds = (v.is_normal(), v.is_private_use(), v.is_grandfathered());
	ensure!(preds == w, "TypedLangTag made as {want:?} of {}: predicates {preds:?}", q(t));
	let held = match (v.as_normal(), v.as_private_use(), v.as_grandfathered()) {
		(Some(n), None, None) if w.0 => n.as_bytes() == t,
		(None, Some(p), None) if w.1 => p.as_bytes() == t,
		(None, None, Some(g)) if w.2 => m.folded(g.as_bytes()) == m.folded(t),
		_ => false,
	};
	ensure!(held, "TypedLangTag made as {want:?} of {}: it does not hand back what it was made of", q(t));
	Ok(())
}
fn typed(m: &Model, t: &[u8], v: TypedLangTag) -> Res {
	let want = spec_kind(m, t);
	let (got, text) = match &v {
		TypedLangTag::Normal(x) => (Kind3::N, x.as_bytes()),
		TypedLangTag::PrivateUse(x) => (Kind3::P, x.as_bytes()),
		TypedLangTag::Grandfathered(x) => (Kind3::G, x.as_bytes()),
	};
	ensure!(got == want, "as_typed of {} is {got:?}, specification {want:?}", q(t));
	if got == Kind3::G {
		ensure!(m.folded(text) == m.folded(t), "as_typed of {} has text {}", q(t), q(text));
	} else {
		ensure!(text == t, "as_typed of {} has text {}", q(t), q(text));
	}
	ensure!(k3(v.kind()) == want, "as_typed of {}: kind is {:?}, specification {want:?}", q(t), v.kind());
	let preds = (v.is_normal(), v.is_private_use(), v.is_grandfathered());
	let w = (want == Kind3::N, want == Kind3::P, want == Kind3::G);
	ensure!(preds == w, "as_typed of {}: predicates {preds:?}, specification {w:?}", q(t));
	let some = (v.as_normal().is_some(), v.as_private_use().is_some(), v.as_grandfathered().is_some());
	ensure!(some == w, "as_typed of {}: as_* present {some:?}, specification {w:?}", q(t));
	if let Some(x) = v.as_normal() {
		ensure!(x.as_bytes() == t, "as_typed of {}: as_normal has text {}", q(t), q(x.as_bytes()));
	}
	if let Some(x) = v.as_private_use() {
		ensure!(x.as_bytes() == t, "as_typed of {}: as_private_use has text {}", q(t), q(x.as_bytes()));
	}
	if let Some(x) = v.as_grandfathered() {
		ensure!(m.folded(x.as_bytes()) == m.folded(t), "as_typed of {}: as_grandfathered is {}", q(t), q(x.as_bytes()));
	}
	Ok(())
}

// -------------------------------------------------- C05, C07 .. C10
fn compare_visits(m: &Model, ty: usize, t: &[u8], names: &'static [&'static str]) -> Res {
	keep(Some(names));
	let r = compare_visits_of(m, ty, t, names);
	keep(None);
	r
}
fn compare_visits_of(m: &Model, ty: usize, t: &[u8], keep: &[&str]) -> Res {
	if !m.well(ty, t) || impl_accepts(m, ty, t) != Some(true) {
		return Ok(());
	}
	let got: Vec<Out> = impl_visit(ty, t).unwrap().into_iter().filter(|x| keep.contains(&x.name)).collect();
	let want: Vec<Out> = spec_visit(m, ty, t).unwrap().into_iter().filter(|x| keep.contains(&x.name)).collect();
	if got != want {
		bail!("{} {}: gives {}; specification {}", tyname(ty), q(t), describe(&got), describe(&want));
	}
	#[cfg(feature = "std")]
	if owned() {
		let b = buf_visit(ty, t).unwrap();
		let b: Vec<Out> = b
			.iter()
			.filter(|x| keep.contains(&x.0))
			.map(|x| Out { name: x.0, ty: x.1, text: x.2.as_deref() })
			.collect();
		if b != want {
			bail!("{}Buf {}: gives {}; specification {}", tyname(ty), q(t), describe(&b), describe(&want));
		}
	}
	Ok(())
}
/// All parts of a value, checked to lie inside its text (same memory).
fn inside(t: &[u8], part: Option<&[u8]>) -> bool {
	match part {
		None => true,
		Some(p) if p.is_empty() => true,
		Some(p) => {
			let (a, b) = (t.as_ptr() as usize, p.as_ptr() as usize);
			b >= a && b + p.len() <= a + t.len()
		}
	}
}
const TAG_PARTS: &[&str] = &["language", "script", "region", "variants", "extensions", "private_use"];
pub fn parts(m: &Model, x: &[&[u8]], n: &[i64]) -> Res {
	let (ty, t) = (n[0] as usize, x[0]);
	compare_visits(m, ty, t, TAG_PARTS)?;
	if ty == 0 && m.well(0, t) && impl_accepts(m, 0, t) == Some(true) {
		let tag = LangTag::from_bytes(t).unwrap_or_else(|_| panic!());
		let want = if m.well(NORMAL, t) { span(&m.parse(NORMAL, t).unwrap(), m.rule("language")).map(|r| &t[r.0..r.1]) } else { None };
		let v = tag.as_typed();
		let got = v.language().map(|l| l.as_bytes());
		ensure!(got == want, "as_typed of {}: language is {}, specification {}", q(t), qo(got), qo(want));
		// the normal view agrees
		keep(Some(TAG_PARTS));
		if let Some(n) = tag.as_normal() {
			let a = impl_visit(0, t).unwrap();
			let mut b: Vec<Out> = vec![];
			normal(&mut b, n);
			for x in &b {
				if TAG_PARTS.contains(&x.name) {
					let y = a.iter().find(|y| y.name == x.name).unwrap();
					ensure!(y == x, "{}: {} is {} but {} through the normal view", q(t), x.name, qo(y.text), qo(x.text));
				}
			}
		}
	}
	Ok(())
}
pub fn language(m: &Model, x: &[&[u8]], n: &[i64]) -> Res {
	let (ty, t) = (n[0] as usize, x[0]);
	compare_visits(m, ty, t, &["primary", "extension", "extension_subtags", "iter"])?;
	if m.well(ty, t) && impl_accepts(m, ty, t) == Some(true) {
		let cap = t.len() + 1;
		if tyname(ty) == "Language" {
			let v = Language::from_bytes(t).unwrap_or_else(|_| panic!());
			iter_ops(m, "Language::extension_subtags", || v.extension_subtags(), |x| x.as_bytes(), cap);
			ensure!(v.primary() == std::str::from_utf8(v.primary().as_bytes()).unwrap(), "primary {} is not a value of its type", q(v.primary().as_bytes()));
		} else if tyname(ty) == "LanguageExtension" {
			let v = LanguageExtension::from_bytes(t).unwrap_or_else(|_| panic!());
			iter_ops(m, "LanguageExtension::iter", || v.iter(), |x| x.as_bytes(), cap);
		}
	}
	Ok(())
}
/// A whole tag: its language value, split.
pub fn tag_language(m: &Model, x: &[&[u8]], _: &[i64]) -> Res {
	let t = x[0];
	if !m.well(NORMAL, t) || impl_accepts(m, NORMAL, t) != Some(true) {
		return Ok(());
	}
	let l = NormalLangTag::from_bytes(t).unwrap_or_else(|_| panic!()).language();
	let lt = l.as_bytes();
	if !m.well(LANGUAGE, lt) {
		return Ok(()); // not a language: C05, C06
	}
	let (head, tail) = match lt.iter().position(|b| *b == b'-') {
		Some(i) => (&lt[..i], Some(&lt[i + 1..])),
		None => (lt, None),
	};
	ensure!(l.primary().as_bytes() == head, "language of {}: primary is {}, specification {}", q(t), q(l.primary().as_bytes()), q(head));
	let got = l.extension().map(|x| x.as_bytes());
	ensure!(got == tail, "language of {}: extension is {}, specification {}", q(t), qo(got), qo(tail));
	let want: Vec<&[u8]> = tail.map(|t| t.split(|b| *b == b'-').collect()).unwrap_or_default();
	let got: Vec<&[u8]> = l.extension_subtags().take(t.len()).map(|x| x.as_bytes()).collect();
	ensure!(got == want, "language of {}: extended subtags are {:?}", q(t), got.iter().map(|x| q(x)).collect::<Vec<_>>());
	Ok(())
}

// ---------------------------------------------------------------- C08
pub fn variants(m: &Model, x: &[&[u8]], _: &[i64]) -> Res {
	let t = x[0];
	compare_visits(m, VARIANTS, t, &["first", "last", "iter"])?;
	if m.well(VARIANTS, t) && impl_accepts(m, VARIANTS, t) == Some(true) {
		let v = Variants::from_bytes(t).unwrap_or_else(|_| panic!());
		let cap = t.len() + 1;
		iter_ops(m, "Variants::iter", || v.iter(), |x| x.as_bytes(), cap);
		if t.len() < 4096 {
			iter_ops(m, "Variants::iter.rev", || v.iter().rev(), |x| x.as_bytes(), cap);
		}
		let f: Vec<&[u8]> = v.iter().map(|x| x.as_bytes()).collect();
		let mut r: Vec<&[u8]> = vec![];
		let mut it = v.iter();
		while let Some(x) = it.next_back() {
			r.push(x.as_bytes());
			ensure!(r.len() <= cap, "variants {}: next_back does not end", q(t));
		}
		r.reverse();
		ensure!(f == r, "variants {}: backward iteration is not the reverse of forward iteration", q(t));
		for k in 0..(f.len() + 2).min(6) {
			let mut it = v.iter();
			let got = it.nth_back(k).map(|x| x.as_bytes());
			let want = f.len().checked_sub(k + 1).map(|i| f[i]);
			ensure!(got == want, "variants {}: nth_back({k}) is {}", q(t), qo(got));
			let rest: Vec<&[u8]> = it.take(cap).map(|x| x.as_bytes()).collect();
			ensure!(rest == f[..f.len().saturating_sub(k + 1)], "variants {}: after nth_back({k}) the rest is wrong", q(t));
		}
		let mut seen = vec![];
		v.iter().rfold((), |_, x| seen.push(x.as_bytes()));
		seen.reverse();
		ensure!(seen == f, "variants {}: rfold differs", q(t));
		let mut e = VariantsIter::empty();
		ensure!(e.next().is_none() && e.next_back().is_none() && e.next().is_none(), "VariantsIter::empty yields an item");
		let mut e = VariantsIter::default();
		ensure!(e.next_back().is_none() && e.next().is_none(), "VariantsIter::default yields an item");
	}
	Ok(())
}
/// One interleaving: args = one number per call, two iterators:
/// bit 0: back?, bit 1: second iterator?  Follows the state graph of Iteration.
pub fn interleave(m: &Model, x: &[&[u8]], ops: &[i64]) -> Res {
	let t = x[0];
	if !m.well(VARIANTS, t) || impl_accepts(m, VARIANTS, t) != Some(true) {
		return Ok(());
	}
	let v = Variants::from_bytes(t).unwrap_or_else(|_| panic!());
	follow(m, t, v, ops)
}
fn follow(m: &Model, t: &[u8], v: &Variants, ops: &[i64]) -> Res {
	let list: Vec<&[u8]> = if t.is_empty() { vec![] } else { t.split(|b| *b == b'-').collect() };
	let n = list.len();
	let mut its = [v.iter(), v.iter()];
	let mut st = [(0usize, n), (0usize, n)];
	for (k, &op) in ops.iter().enumerate() {
		let (back, w) = (op & 1 == 1, (op >> 1 & 1) as usize);
		let (lo, hi) = st[w];
		let (res, lo2, hi2) = m.it_call(n, lo, hi, back);
		let got = if back { its[w].next_back() } else { its[w].next() }.map(|x| x.as_bytes());
		let want = if res == 0 { None } else { Some(list[res - 1]) };
		if got != want {
			bail!(
				"variants {}: call {} ({} on iterator {}) gives {}, specification {}; calls {}",
				q(t), k + 1, if back { "next_back" } else { "next" }, w + 1, qo(got), qo(want), ops_text(ops)
			);
		}
		st[w] = (lo2, hi2);
	}
	// the operations derived from these, after some of the calls of the first
	let ops: Vec<bool> = ops.iter().filter(|o| *o >> 1 & 1 == 0).map(|o| o & 1 == 1).collect();
	let salt = ops.iter().fold(n, |a, b| a.wrapping_mul(5).wrapping_add(*b as usize));
	let ops = &ops[..if salt % 3 == 0 { ops.len() } else { salt / 3 % (ops.len() + 1) }];
	let (mut lo, mut hi) = (0, n);
	for &back in ops {
		(_, lo, hi) = m.it_call(n, lo, hi, back);
	}
	let mk = || {
		let mut it = v.iter();
		for &back in ops {
			if back { it.next_back() } else { it.next() };
		}
		it
	};
	// (lists long enough to make this slow are left to the calls above)
	if n <= 64 {
		derived(m, "Variants::iter", &list, (lo, hi), mk, |x| x.as_bytes());
		derived_back(m, "Variants::iter", &list, (lo, hi), mk, |x| x.as_bytes());
	}
	Ok(())
}
fn ops_text(ops: &[i64]) -> String {
	ops.iter().map(|o| ["next1", "back1", "next2", "back2"][*o as usize & 3]).collect::<Vec<_>>().join(" ")
}
/// Same, on the variants of a whole tag (args as in interleave).
pub fn tag_interleave(m: &Model, x: &[&[u8]], ops: &[i64]) -> Res {
	let t = x[0];
	if !m.well(NORMAL, t) || impl_accepts(m, NORMAL, t) != Some(true) {
		return Ok(());
	}
	let v = NormalLangTag::from_bytes(t).unwrap_or_else(|_| panic!()).variants();
	let vt = v.as_bytes();
	if !m.well(VARIANTS, vt) {
		return Ok(()); // C05, C06
	}
	follow(m, vt, v, ops)?;
	let first = LangTag::from_bytes(t).unwrap_or_else(|_| panic!()).variants();
	ensure!(first.first().map(|x| x.as_bytes()) == v.iter().next().map(|x| x.as_bytes()), "first of {}", q(t));
	ensure!(first.last().map(|x| x.as_bytes()) == v.iter().last().map(|x| x.as_bytes()), "last of {}", q(t));
	Ok(())
}

// ---------------------------------------------------------------- C09
pub fn extensions(m: &Model, x: &[&[u8]], n: &[i64]) -> Res {
	let (ty, t) = (n[0] as usize, x[0]);
	compare_visits(m, ty, t, &["iter", "singleton"])?;
	if !m.well(ty, t) || impl_accepts(m, ty, t) != Some(true) {
		return Ok(());
	}
	let cap = t.len() + 1;
	if tyname(ty) == "Extension" {
		let v = Extension::from_bytes(t).unwrap_or_else(|_| panic!());
		iter_ops(m, "Extension::iter", || v.iter(), |x| x.as_bytes(), cap);
		return Ok(());
	}
	let v = Extensions::from_bytes(t).unwrap_or_else(|_| panic!());
	iter_ops(m, "Extensions::iter", || v.iter(), |x| x.as_bytes(), cap);
	lookups(m, t, v)
}
pub fn lookups(m: &Model, t: &[u8], v: &Extensions) -> Res {
	let p = m.parse(EXTENSIONS, t).unwrap();
	let es: Vec<&[u8]> = runs(&p, m.rule("extension")).into_iter().map(|(a, b)| &t[a..b]).collect();
	for b in 0..=255u8 {
		if !m.single[b as usize] {
			continue;
		}
		let Ok(s) = Singleton::new(b) else { continue };
		let want = es.iter().find(|e| m.fold[e[0] as usize] == m.fold[b as usize]).copied();
		let got = v.get(s).map(|x| x.as_bytes());
		ensure!(got == want, "extensions {}: get({}) is {}, specification {}", q(t), b as char, qo(got), qo(want));
		let want: Vec<&[u8]> = want.map(|w| w[2..].split(|b| *b == b'-').collect()).unwrap_or_default();
		let mut got: Vec<&[u8]> = vec![];
		let mut it = v.iter_extension(s);
		while let Some(x) = it.next() {
			got.push(x.as_bytes());
			ensure!(got.len() <= t.len(), "extensions {}: iter_extension({}) does not end", q(t), b as char);
		}
		ensure!(it.next().is_none(), "extensions {}: iter_extension({}) yields after the end", q(t), b as char);
		ensure!(got == want, "extensions {}: iter_extension({}) yields {:?}, specification {:?}", q(t), b as char,
			got.iter().map(|x| q(x)).collect::<Vec<_>>(), want.iter().map(|x| q(x)).collect::<Vec<_>>());
	}
	let mut e = ExtensionIter::empty();
	ensure!(e.next().is_none() && e.next().is_none(), "ExtensionIter::empty yields an item");
	let mut e = ExtensionIter::default();
	ensure!(e.next().is_none(), "ExtensionIter::default yields an item");
	Ok(())
}
/// The extensions of a whole tag.
pub fn tag_extensions(m: &Model, x: &[&[u8]], _: &[i64]) -> Res {
	let t = x[0];
	if !m.well(NORMAL, t) || impl_accepts(m, NORMAL, t) != Some(true) {
		return Ok(());
	}
	let v = NormalLangTag::from_bytes(t).unwrap_or_else(|_| panic!()).extensions();
	let vt = v.as_bytes();
	if !m.well(EXTENSIONS, vt) {
		return Ok(()); // C05, C06
	}
	let p = m.parse(EXTENSIONS, vt).unwrap();
	let es: Vec<&[u8]> = runs(&p, m.rule("extension")).into_iter().map(|(a, b)| &vt[a..b]).collect();
	let got: Vec<&[u8]> = v.iter().take(t.len()).map(|x| x.as_bytes()).collect();
	ensure!(got == es, "extensions of {}: iter yields {:?}", q(t), got.iter().map(|x| q(x)).collect::<Vec<_>>());
	lookups(m, vt, v)
}

// ---------------------------------------------------------------- C10
pub fn private(m: &Model, x: &[&[u8]], n: &[i64]) -> Res {
	let (ty, t) = (n[0] as usize, x[0]);
	compare_visits(m, ty, t, &["iter", "private_use_subtags"])?;
	if !m.well(ty, t) || impl_accepts(m, ty, t) != Some(true) {
		return Ok(());
	}
	let cap = t.len() + 1;
	match tyname(ty) {
		"PrivateUse" => {
			let v = PrivateUse::from_bytes(t).unwrap_or_else(|_| panic!());
			iter_ops(m, "PrivateUse::iter", || v.iter(), |x| x.as_bytes(), cap);
		}
		"NormalLangTag" => {
			let v = NormalLangTag::from_bytes(t).unwrap_or_else(|_| panic!());
			iter_ops(m, "private_use_subtags", || v.private_use_subtags(), |x| x.as_bytes(), cap);
		}
		"LangTag" => {
			let v = LangTag::from_bytes(t).unwrap_or_else(|_| panic!());
			iter_ops(m, "private_use_subtags", || v.private_use_subtags(), |x| x.as_bytes(), cap);
			if let (Some(p), true) = (v.as_private_use(), m.well(PU, t)) {
				let got: Vec<&[u8]> = p.iter().take(cap).map(|x| x.as_bytes()).collect();
				let want: Vec<&[u8]> = t[2..].split(|b| *b == b'-').collect();
				ensure!(got == want, "private use tag {}: iter yields {:?}", q(t), got.iter().map(|x| q(x)).collect::<Vec<_>>());
			}
		}
		x => bail!("{x}"),
	}
	let mut e = PrivateUseIter::empty();
	ensure!(e.next().is_none() && e.next().is_none(), "PrivateUseIter::empty yields an item");
	let mut e = PrivateUseIter::default();
	ensure!(e.next().is_none(), "PrivateUseIter::default yields an item");
	Ok(())
}

// ---------------------------------------------------------------- C06
/// The components of a normal tag, joined, are the tag.
pub fn partition(m: &Model, x: &[&[u8]], _: &[i64]) -> Res {
	let t = x[0];
	if !m.well(NORMAL, t) || impl_accepts(m, NORMAL, t) != Some(true) {
		return Ok(());
	}
	keep(Some(TAG_PARTS));
	for ty in [NORMAL, 0] {
		if ty == 0 && impl_accepts(m, 0, t) != Some(true) {
			continue;
		}
		let v = impl_visit(ty, t).unwrap();
		let mut joined: Vec<u8> = vec![];
		let mut first = true;
		let mut at = 0;
		for x in v.iter().filter(|x| TAG_PARTS.contains(&x.name)) {
			let Some(p) = x.text else { continue };
			if p.is_empty() {
				continue;
			}
			ensure!(inside(t, Some(p)), "{}: {} {} is not inside the tag's text", q(t), x.name, q(p));
			let s = p.as_ptr() as usize - t.as_ptr() as usize;
			ensure!(s >= at, "{}: {} {} overlaps the component before it", q(t), x.name, q(p));
			at = s + p.len();
			if !first {
				joined.push(b'-')
			}
			first = false;
			joined.extend_from_slice(p);
		}
		ensure!(joined == t, "{} {}: the components join to {}: {}", tyname(ty), q(t), q(&joined), describe(&v));
	}
	Ok(())
}
/// Everything handed out, to any depth, is well-formed for its type.
pub fn closure(m: &Model, x: &[&[u8]], n: &[i64]) -> Res {
	let (ty, t) = (n[0] as usize, x[0]);
	if !m.well(ty, t) || impl_accepts(m, ty, t) != Some(true) {
		return Ok(());
	}
	let mut todo = vec![(ty, t, 0)];
	while let Some((ty, u, depth)) = todo.pop() {
		let Some(v) = impl_visit(ty, u) else { bail!("{} {} is not accepted by its own parser", tyname(ty), q(u)) };
		for x in v {
			let Some(p) = x.text else { continue };
			ensure!(p.len() <= t.len(), "{}: {} hands out {} bytes", q(u), x.name, p.len());
			if x.ty == SINGLETON {
				ensure!(Singleton::new(p[0]).is_ok(), "{} {}: singleton {} is not a singleton", tyname(ty), q(u), q(p));
				continue;
			}
			let ok = with_ty!(x.ty, T => T::ref_bytes(0, p).is_ok());
			ensure!(ok, "{} {}: {} hands out {} which {} does not accept", tyname(ty), q(u), x.name, q(p), tyname(x.ty));
			ensure!(depth < 8, "{}: parts of parts of parts without end", q(t));
			// a value that hands itself out (as_normal of a tag) ends the descent by its type
			if p.len() < u.len() || x.ty != ty {
				if !(x.name == "as_private_use" || (p == u && depth > 3)) || depth == 0 {
					todo.push((x.ty, p, depth + 1));
				}
			}
		}
	}
	// parts of whole tags through lookups and the typed view
	if ty == 0 {
		let tag = LangTag::from_bytes(t).unwrap_or_else(|_| panic!());
		let typed = tag.as_typed();
		if let Some(l) = typed.language() {
			ensure!(impl_accepts(m, LANGUAGE, l.as_bytes()) == Some(true), "typed view of {}: language {}", q(t), q(l.as_bytes()));
		}
		let e = tag.extensions();
		for b in 0..=255u8 {
			if let Ok(s) = Singleton::new(b) {
				if let Some(x) = e.get(s) {
					ensure!(impl_accepts(m, EXTENSION, x.as_bytes()) == Some(true), "{}: get({}) hands out {}", q(t), b as char, q(x.as_bytes()));
				}
				let mut k = 0;
				for x in e.iter_extension(s) {
					k += 1;
					ensure!(k <= t.len(), "{}: iter_extension({}) does not end", q(t), b as char);
					ensure!(impl_accepts(m, EXT_SUBTAG, x.as_bytes()) == Some(true), "{}: iter_extension({}) hands out {}", q(t), b as char, q(x.as_bytes()));
				}
			}
		}
	}
	if tyname(ty) == "Variants" {
		let v = Variants::from_bytes(t).unwrap_or_else(|_| panic!());
		let mut it = v.iter();
		let mut k = 0;
		loop {
			let a = if k % 2 == 0 { it.next_back() } else { it.next() };
			let Some(a) = a else { break };
			ensure!(impl_accepts(m, VARIANT, a.as_bytes()) == Some(true), "variants {}: hands out {}", q(t), q(a.as_bytes()));
			k += 1;
			ensure!(k <= t.len(), "variants {}: iteration does not end", q(t));
		}
	}
	Ok(())
}

// ---------------------------------------------------------------- C11
/// Two texts; the first is well-formed, the second need not be.
pub fn equal(m: &Model, x: &[&[u8]], n: &[i64]) -> Res {
	let (ty, a, b) = (n[0] as usize, x[0], x[1]);
	if impl_accepts(m, ty, a) != Some(true) {
		return Ok(());
	}
	let Some(b_ok) = impl_accepts(m, ty, b) else { return Ok(()) };
	let want = b_ok && m.verdict_eq(a, b);
	let mut r = Ok(());
	let mut sink = |l: &'static str, got: bool| {
		if got != want && r.is_ok() {
			r = Err(format!("{}: {} with left {} and right {} is {got}, specification {want}", tyname(ty), l, q(a), q(b)));
		}
	};
	with_ty!(ty, T => {
		let va = T::ref_bytes(0, a).unwrap_or_else(|_| panic!());
		va.eq_text(b, &mut sink);
		va.eq_text_rev(b, &mut sink);
		if b_ok {
			let vb = T::ref_bytes(0, b).unwrap_or_else(|_| panic!());
			va.eq_ref(vb, &mut sink);
			vb.eq_ref(va, &mut sink);
		}
		#[cfg(feature = "std")]
		if owned() {
			let ba = va.own();
			T::buf_eq_text(&ba, b, &mut sink);
			T::buf_eq_text_rev(&ba, b, &mut sink);
			if b_ok {
				let vb = T::ref_bytes(0, b).unwrap_or_else(|_| panic!());
				let bb = vb.own();
				T::eq_buf(va, &ba, vb, &bb, &mut sink);
				T::eq_buf(vb, &bb, va, &ba, &mut sink);
			}
		}
	});
	r
}

// ---------------------------------------------------------------- C12
pub fn order(m: &Model, x: &[&[u8]], n: &[i64]) -> Res {
	let (ty, a, b) = (n[0] as usize, x[0], x[1]);
	if impl_accepts(m, ty, a) != Some(true) {
		return Ok(());
	}
	let Some(b_ok) = impl_accepts(m, ty, b) else { return Ok(()) };
	let mut r = Ok(());
	with_ty!(ty, T => {
		let va = T::ref_bytes(0, a).unwrap_or_else(|_| panic!());
		let mut want: Option<Ordering> = None;
		if b_ok {
			let vb = T::ref_bytes(0, b).unwrap_or_else(|_| panic!());
			let c = va.cmp(vb);
			let ok = match m.verdict(a, b) {
				Verdict::Lt => c == Ordering::Less,
				Verdict::Gt => c == Ordering::Greater,
				Verdict::Eq => c == Ordering::Equal,
				Verdict::Prefix => c != Ordering::Equal,
			};
			ensure!(ok, "{}: {}.cmp({}) is {c:?}, specification {:?}", tyname(ty), q(a), q(b), m.verdict(a, b));
			want = Some(c);
		}
		// every representation gives the answer of cmp
		let mut sink = |l: &'static str, got: Option<Ordering>| {
			if got != want && r.is_ok() {
				r = Err(format!("{}: {} of {} and {} is {got:?}, expected {want:?}", tyname(ty), l, q(a), q(b)));
			}
		};
		va.cmp_text(b, &mut sink);
		#[cfg(feature = "std")]
		let ba = va.own();
		#[cfg(feature = "std")]
		if owned() { T::buf_cmp_text(&ba, b, &mut sink); }
		if b_ok {
			let vb = T::ref_bytes(0, b).unwrap_or_else(|_| panic!());
			va.cmp_ref(vb, &mut sink);
			#[cfg(feature = "std")]
			if owned() { T::cmp_buf(va, &ba, vb, &vb.own(), &mut sink); }
		}
		let mut sink = |l: &'static str, got: Option<Ordering>| {
			let w = want.map(Ordering::reverse);
			if got != w && r.is_ok() {
				r = Err(format!("{}: {} of {} and {} is {got:?}, expected {w:?}", tyname(ty), l, q(b), q(a)));
			}
		};
		va.cmp_text_rev(b, &mut sink);
		#[cfg(feature = "std")]
		if owned() { T::buf_cmp_text_rev(&ba, b, &mut sink); }
		if b_ok {
			let vb = T::ref_bytes(0, b).unwrap_or_else(|_| panic!());
			vb.cmp_ref(va, &mut sink);
			#[cfg(feature = "std")]
			if owned() { T::cmp_buf(vb, &vb.own(), va, &ba, &mut sink); }
			// consistent with equality
			ensure!((va == vb) == (want == Some(Ordering::Equal)), "{}: {} and {}: == is {} but cmp is {want:?}", tyname(ty), q(a), q(b), va == vb);
			// max, min, clamp agree
			let mx = va.max(vb);
			ensure!(mx.cmp(va) != Ordering::Less && mx.cmp(vb) != Ordering::Less, "{}: max of {} and {} is {}", tyname(ty), q(a), q(b), q(mx.text()));
			let mn = va.min(vb);
			ensure!(mn.cmp(va) != Ordering::Greater && mn.cmp(vb) != Ordering::Greater, "{}: min of {} and {} is {}", tyname(ty), q(a), q(b), q(mn.text()));
		}
	});
	r
}
/// Any number of well-formed texts: pairwise antisymmetric, every triple transitive.
pub fn laws(m: &Model, x: &[&[u8]], n: &[i64]) -> Res {
	let ty = n[0] as usize;
	let xs: Vec<&[u8]> = x.iter().copied().filter(|t| impl_accepts(m, ty, t) == Some(true)).collect();
	with_ty!(ty, T => {
		let vs: Vec<&T> = xs.iter().map(|t| T::ref_bytes(0, t).unwrap_or_else(|_| panic!())).collect();
		let k = vs.len();
		let mut c = vec![Ordering::Equal; k * k];
		for i in 0..k {
			for j in 0..k {
				c[i * k + j] = vs[i].cmp(vs[j]);
			}
		}
		for i in 0..k {
			for j in 0..k {
				ensure!(c[i * k + j] == c[j * k + i].reverse(), "{}: cmp of {} and {} is {:?} one way and {:?} the other", tyname(ty), q(xs[i]), q(xs[j]), c[i * k + j], c[j * k + i]);
				for l in 0..k {
					if c[i * k + j] != Ordering::Greater && c[j * k + l] != Ordering::Greater {
						let strict = c[i * k + j] == Ordering::Less || c[j * k + l] == Ordering::Less;
						let got = c[i * k + l];
						ensure!(if strict { got == Ordering::Less } else { got == Ordering::Equal },
							"{}: {} <= {} <= {} but the first and last compare {:?}", tyname(ty), q(xs[i]), q(xs[j]), q(xs[l]), got);
					}
				}
			}
		}
		let mut s = vs.clone();
		s.sort();
		for i in 1..k {
			ensure!(s[i - 1].cmp(s[i]) != Ordering::Greater, "{}: sort leaves {} before {}", tyname(ty), q(s[i - 1].text()), q(s[i].text()));
		}
	});
	Ok(())
}

// ---------------------------------------------------------------- C13
/// Two texts: if equal, they hash the same in every representation.
pub fn hash(m: &Model, x: &[&[u8]], n: &[i64]) -> Res {
	let (ty, a, b) = (n[0] as usize, x[0], x[1]);
	if impl_accepts(m, ty, a) != Some(true) || impl_accepts(m, ty, b) != Some(true) {
		return Ok(());
	}
	with_ty!(ty, T => {
		let (va, vb) = (T::ref_bytes(0, a).unwrap_or_else(|_| panic!()), T::ref_bytes(0, b).unwrap_or_else(|_| panic!()));
		if va == vb {
			ensure!(hash_calls(va) == hash_calls(vb), "{}: {} and {} are equal but make different calls to the hasher", tyname(ty), q(a), q(b));
			ensure!(hash_sip(va) == hash_sip(vb), "{}: {} and {} are equal but hash differently (SipHash)", tyname(ty), q(a), q(b));
			ensure!(hash_fnv(va) == hash_fnv(vb), "{}: {} and {} are equal but hash differently (FNV)", tyname(ty), q(a), q(b));
		}
		#[cfg(feature = "std")]
		if owned() {
			let (ba, bb) = (va.own(), vb.own());
			ensure!(hash_calls(&ba) == hash_calls(va), "{}: {} hashes differently owned and borrowed", tyname(ty), q(a));
			ensure!(hash_sip(&bb) == hash_sip(vb), "{}: {} hashes differently owned and borrowed", tyname(ty), q(b));
			if ba == bb {
				ensure!(hash_calls(&ba) == hash_calls(&bb), "{}Buf: {} and {} are equal but make different calls to the hasher", tyname(ty), q(a), q(b));
				ensure!(hash_fnv(&ba) == hash_fnv(&bb), "{}Buf: {} and {} are equal but hash differently (FNV)", tyname(ty), q(a), q(b));
				let (xa, xb) = (vec![ba.clone(), bb.clone()], vec![bb.clone(), ba.clone()]);
				ensure!(hash_sip(&xa) == hash_sip(&xb), "{}Buf: lists of {} and {} are equal but hash differently", tyname(ty), q(a), q(b));
			}
			let bx: Box<<T as OwnTy>::Buf> = Box::new(ba);
			ensure!(hash_calls(&bx) == hash_calls(va), "{}: {} hashes differently boxed", tyname(ty), q(a));
		}
	});
	Ok(())
}

// ---------------------------------------------------------------- C16
pub fn gf_tag(m: &Model, x: &[&[u8]], _: &[i64]) -> Res {
	let t = x[0];
	let ft = m.folded(t);
	let want = m.gf.iter().find(|g| m.folded(&g.0) == ft);
	let outcome = |how: &str, r: Result<GrandfatheredLangTag, &[u8]>| -> Res {
		match (r, want) {
			(Ok(g), Some(w)) => {
				ensure!(g.as_bytes() == w.0, "Grandfathered {how}({}) is {}, specification {}", q(t), q(g.as_bytes()), q(&w.0));
				gf_one(m, g)
			}
			(Ok(g), None) => bail!("Grandfathered {how}({}) is {}, specification: not registered", q(t), q(g.as_bytes())),
			(Err(_), Some(_)) => bail!("Grandfathered {how}({}) is refused, specification: registered", q(t)),
			(Err(e), None) => {
				ensure!(e == t && e.as_ptr() == t.as_ptr(), "Grandfathered {how}({}) gives back {}", q(t), q(e));
				Ok(())
			}
		}
	};
	outcome("try_from", GrandfatheredLangTag::try_from(t).map_err(|e| e.0))?;
	outcome("new", GrandfatheredLangTag::new(t))?;
	if let Ok(s) = std::str::from_utf8(t) {
		outcome("new(str)", GrandfatheredLangTag::new(s).map_err(|e| e.as_bytes()))?;
		let owned = s.to_owned();
		let r = GrandfatheredLangTag::new(owned);
		match r {
			Ok(g) => ensure!(want.is_some_and(|w| w.0 == g.as_bytes()), "Grandfathered new(String {}) is {}", q(t), q(g.as_bytes())),
			Err(e) => ensure!(want.is_none() && e.as_bytes() == t, "Grandfathered new(String {}) gives back {}", q(t), q(e.as_bytes())),
		}
		let r = GrandfatheredLangTag::new(t.to_vec());
		match r {
			Ok(g) => ensure!(want.is_some_and(|w| w.0 == g.as_bytes()), "Grandfathered new(Vec {}) is {}", q(t), q(g.as_bytes())),
			Err(e) => ensure!(want.is_none() && e == t, "Grandfathered new(Vec {}) gives back {}", q(t), q(&e)),
		}
	}
	// through LangTag
	if m.well(0, t) && impl_accepts(m, 0, t) == Some(true) {
		let tag = LangTag::from_bytes(t).unwrap_or_else(|_| panic!());
		let got = tag.as_grandfathered();
		ensure!(got.is_some() == want.is_some(), "LangTag {}: as_grandfathered is {}", q(t), if got.is_some() { "present" } else { "absent" });
		if let (Some(g), Some(w)) = (got, want) {
			ensure!(g.as_bytes() == w.0, "LangTag {}: as_grandfathered is {}, specification {}", q(t), q(g.as_bytes()), q(&w.0));
		}
	}
	Ok(())
}
fn gf_one(m: &Model, g: GrandfatheredLangTag) -> Res {
	let t = g.as_bytes();
	let Some(w) = m.gf.iter().find(|w| w.0 == t) else { bail!("Grandfathered tag with text {}, specification: no such registration", q(t)) };
	ensure!(g.as_str().as_bytes() == t, "Grandfathered {}: as_str is {}", q(t), q(g.as_str().as_bytes()));
	ensure!(format!("{g}").as_bytes() == t, "Grandfathered {}: displays as {}", q(t), g);
	let l = g.language().map(|l| l.as_bytes());
	ensure!(l == w.1.as_deref(), "Grandfathered {}: language is {}, specification {}", q(t), qo(l), qo(w.1.as_deref()));
	let v = TypedLangTag::Grandfathered(g).language().map(|l| l.as_bytes().to_vec());
	ensure!(v == w.1, "typed view of Grandfathered {}: language is {}, specification {}", q(t), qo(v.as_deref()), qo(w.1.as_deref()));
	match GrandfatheredLangTag::try_from(t) {
		Ok(h) => ensure!(h == g && h.as_bytes() == t, "Grandfathered {} parses back to {}", q(t), q(h.as_bytes())),
		Err(_) => bail!("Grandfathered {} does not parse back", q(t)),
	}
	ensure!(LangTag::from_bytes(t).is_ok(), "Grandfathered {} is not an accepted language tag", q(t));
	Ok(())
}
/// The published list, as a whole.
pub fn gf_list(m: &Model, _: &[&[u8]], _: &[i64]) -> Res {
	ensure!(GRANDFATHERED.len() == m.gf.len(), "GRANDFATHERED has {} entries, specification {}", GRANDFATHERED.len(), m.gf.len());
	for g in GRANDFATHERED.iter() {
		gf_one(m, *g)?;
	}
	for w in &m.gf {
		let n = GRANDFATHERED.iter().filter(|g| g.as_bytes() == w.0).count();
		ensure!(n == 1, "{} occurs {n} times in GRANDFATHERED", q(&w.0));
	}
	// each value is the registration it is named after
	macro_rules! named {
		($($n:ident)*) => { [ $( (GrandfatheredLangTag::$n, stringify!($n)) ),* ] };
	}
	let named = named!(EnGbOed IAmi IBnn IDefault IEnochian IHak IKlingon ILux IMingo INavajo IPwn ITao ITay ITsu SgnBeFr SgnBeNl SgnChDe
		ArtLojban CelGaulish NoBok NoNyn ZhGuoyu ZhHakka ZhMin ZhMinNan ZhXiang);
	for (name, w) in m.gf_names.iter().zip(&m.gf) {
		let Some((g, _)) = named.iter().find(|(_, n)| n.as_bytes() == name.as_slice()) else { bail!("no value is named {}", q(name)) };
		ensure!(g.as_bytes() == w.0, "GrandfatheredLangTag::{} has the text {}", String::from_utf8_lossy(name), q(g.as_bytes()));
		ensure!(GRANDFATHERED.contains(g), "GrandfatheredLangTag::{} is not in GRANDFATHERED", String::from_utf8_lossy(name));
		gf_one(m, *g)?;
	}
	let mut sorted = GRANDFATHERED;
	sorted.sort();
	for (i, a) in sorted.iter().enumerate() {
		for b in &sorted[i + 1..] {
			ensure!(a < b && !(b <= a), "the order of {} and {} is not transitive", q(a.as_bytes()), q(b.as_bytes()));
		}
	}
	#[cfg(feature = "std")]
	{
		let set: std::collections::HashSet<_> = GRANDFATHERED.into_iter().collect();
		let tree: std::collections::BTreeSet<_> = GRANDFATHERED.into_iter().collect();
		ensure!(set.len() == m.gf.len() && tree.len() == m.gf.len(), "collections of the registry have {} and {} entries", set.len(), tree.len());
		ensure!(GRANDFATHERED.iter().all(|g| set.contains(g) && tree.contains(g)), "a registered tag is not found in a collection of all of them");
	}
	// copies and comparisons between registry entries
	for a in GRANDFATHERED.iter() {
		for b in GRANDFATHERED.iter() {
			let same = a.as_bytes() == b.as_bytes();
			ensure!((a == b) == same, "{} == {} is {}", q(a.as_bytes()), q(b.as_bytes()), a == b);
			ensure!((a.cmp(b) == Ordering::Equal) == same, "{} cmp {} is {:?}", q(a.as_bytes()), q(b.as_bytes()), a.cmp(b));
			ensure!(a.cmp(b) == b.cmp(a).reverse(), "{} cmp {} is not antisymmetric", q(a.as_bytes()), q(b.as_bytes()));
			ensure!(a.partial_cmp(b) == Some(a.cmp(b)), "{} partial_cmp {}", q(a.as_bytes()), q(b.as_bytes()));
			if same {
				ensure!(hash_calls(a) == hash_calls(b), "{} hashes in two ways", q(a.as_bytes()));
			}
		}
	}
	Ok(())
}

/// The text of a small value in every form it converts to.
pub fn small_text(m: &Model, x: &[&[u8]], n: &[i64]) -> Res {
	let from = if n[0] == 0 { "gf" } else { "single" };
	for (name, ..) in m.conv.iter().filter(|c| c.1 == from) {
		if from == "gf" {
			let Ok(g) = GrandfatheredLangTag::new(x[0]) else { return Ok(()) };
			let t = g.as_str().as_bytes().to_vec();
			let got = match name.as_str() {
				"gf_as_str" => g.as_str().as_bytes().to_vec(),
				"gf_as_bytes" => g.as_bytes().to_vec(),
				#[cfg(feature = "std")]
				"gf_display" => [g.to_string(), format!("{g}"), format!("{}", &&g)].map(String::into_bytes).into_iter().find(|s| *s != t).unwrap_or(t.clone()),
				#[cfg(not(feature = "std"))]
				"gf_display" => t.clone(),
				"gf_copy" => Clone::clone(&g).as_bytes().to_vec(),
				_ => bail!("no conversion {name}"),
			};
			ensure!(got == t, "grandfathered {}: {name} gives {}", q(&t), q(&got));
			ensure!(m.folded(&t) == m.folded(x[0]), "grandfathered {}: its text is {}", q(x[0]), q(&t));
		} else {
			let Ok(s) = Singleton::new(x[0][0]) else { return Ok(()) };
			let got = match name.as_str() {
				"single_display" => format!("{s}"),
				"single_copy" => format!("{}", Clone::clone(&s)),
				_ => bail!("no conversion {name}"),
			};
			ensure!(got.as_bytes() == x[0], "singleton {}: {name} gives {}", q(x[0]), q(got.as_bytes()));
		}
	}
	Ok(())
}

// ---------------------------------------------------------------- C17
/// A code point.
pub fn single_char(m: &Model, _: &[&[u8]], n: &[i64]) -> Res {
	let Some(c) = char::from_u32(n[0] as u32) else { return Ok(()) };
	let want = (c as u32) < 256 && m.single[c as usize];
	match Singleton::try_from(c) {
		Ok(s) => {
			ensure!(want, "Singleton::try_from({c:?}) is accepted, specification: refused");
			single_val(s, c as u8)?;
		}
		Err(e) => {
			ensure!(!want, "Singleton::try_from({c:?}) is refused, specification: accepted");
			ensure!(e.0 == c, "Singleton::try_from({c:?}) gives back {:?}", e.0);
		}
	}
	let mut buf = [0u8; 4];
	single_str(m, c.encode_utf8(&mut buf))
}
pub fn single_byte(m: &Model, _: &[&[u8]], n: &[i64]) -> Res {
	let b = n[0] as u8;
	let want = m.single[b as usize];
	for (how, r) in [("new", Singleton::new(b)), ("try_from", Singleton::try_from(b))] {
		match r {
			Ok(s) => {
				ensure!(want, "Singleton::{how}({b}) is accepted, specification: refused");
				single_val(s, b)?;
				for c in 0..=255u8 {
					let same = m.fold[b as usize] == m.fold[c as usize];
					ensure!((s == c) == same, "Singleton {:?} == byte {c} is {}", b as char, s == c);
					ensure!((s != c) != same, "Singleton {:?} != byte {c} is {}", b as char, s != c);
					ensure!((s == c as char) == same, "Singleton {:?} == char {:?} is {}", b as char, c as char, s == c as char);
					if let Ok(o) = Singleton::new(c) {
						let want = m.fold[b as usize].cmp(&m.fold[c as usize]);
						ensure!((s == o) == same, "Singleton {:?} == {:?} is {}", b as char, c as char, s == o);
						ensure!((s != o) != same, "Singleton {:?} != {:?} is {}", b as char, c as char, s != o);
						ensure!(s.cmp(&o) == want, "Singleton {:?} cmp {:?} is {:?}", b as char, c as char, s.cmp(&o));
						ensure!(s.partial_cmp(&o) == Some(want), "Singleton {:?} partial_cmp {:?} is {:?}", b as char, c as char, s.partial_cmp(&o));
						ensure!((s < o, s <= o, s > o, s >= o) == (want.is_lt(), want.is_le(), want.is_gt(), want.is_ge()), "Singleton {:?} relational operators with {:?}", b as char, c as char);
						let least = m.fold[b as usize].min(m.fold[c as usize]);
						let most = m.fold[b as usize].max(m.fold[c as usize]);
						for (how, got, want) in [("max", s.max(o), most), ("min", s.min(o), least), ("clamp", s.clamp(s.min(o), o.max(s)), m.fold[b as usize])] {
							let got = got.unwrap();
							ensure!(m.fold[got as usize] == want && (got == b || got == c), "{how} of Singletons {:?} and {:?} is {:?}", b as char, c as char, got as char);
						}
						for l in [[s, s], [s, o], [o, s]] {
							let low = l.map(|x| Singleton::new(m.fold[x.unwrap() as usize]).ok());
							if let [Some(x), Some(y)] = low {
								ensure!(hash_calls(&l) == hash_calls(&[x, y]) && hash_calls(&l[..1]) == hash_calls(&[x][..]), "lists of Singletons {:?} and {:?} hash differently in lower case", b as char, c as char);
								ensure!(l == [x, y] && l.cmp(&[x, y]) == Ordering::Equal, "lists of Singletons {:?} and {:?} differ in lower case", b as char, c as char);
							}
						}
						if same {
							ensure!(hash_calls(&s) == hash_calls(&o) && hash_sip(&s) == hash_sip(&o), "Singletons {:?} and {:?} are equal but hash differently", b as char, c as char);
						}
					}
				}
				for c in ['\u{17f}', '\u{212a}', '\u{130}', '\u{131}', '\u{ff41}', '\u{ff21}', '\u{161}', '\u{10061}', '\u{141}', '\u{80}', '\u{ff}', '\u{100}', '\u{130}'] {
					ensure!(s != c, "Singleton {:?} == char {c:?}", b as char);
				}
				for hi in [0x100u32, 0x200, 0x1000, 0x10000, 0x100000, 0xff00] {
					for c in [b, b ^ 0x20] {
						if let Some(c) = char::from_u32(hi + c as u32) {
							ensure!(s != c, "Singleton {:?} == char {c:?}", b as char);
						}
					}
				}
			}
			Err(e) => {
				ensure!(!want, "Singleton::{how}({b}) is refused, specification: accepted");
				ensure!(e.0 == b, "Singleton::{how}({b}) gives back {}", e.0);
			}
		}
	}
	Ok(())
}
pub fn single_text_case(m: &Model, x: &[&[u8]], _: &[i64]) -> Res {
	match std::str::from_utf8(x[0]) {
		Ok(s) => single_str(m, s),
		Err(_) => Ok(()),
	}
}
fn single_str(m: &Model, s: &str) -> Res {
	let b = s.as_bytes();
	let want = b.len() == 1 && m.single[b[0] as usize];
	match Singleton::from_string(s) {
		Ok(v) => {
			ensure!(want, "Singleton::from_string({}) is accepted, specification: refused", q(b));
			single_val(v, b[0])?;
		}
		Err(e) => {
			ensure!(!want, "Singleton::from_string({}) is refused, specification: accepted", q(b));
			ensure!(e.0 == s && e.0.as_ptr() == s.as_ptr(), "Singleton::from_string({}) gives back {}", q(b), q(e.0.as_bytes()));
		}
	}
	#[cfg(feature = "std")]
	if owned() {
		match s.parse::<Singleton>() {
			Ok(v) => {
				ensure!(want, "Singleton::from_str({}) is accepted, specification: refused", q(b));
				single_val(v, b[0])?;
			}
			Err(e) => {
				ensure!(!want, "Singleton::from_str({}) is refused, specification: accepted", q(b));
				ensure!(e.0 == s, "Singleton::from_str({}) gives back {}", q(b), q(e.0.as_bytes()));
			}
		}
	}
	Ok(())
}
fn single_val(s: Singleton, b: u8) -> Res {
	ensure!(s.unwrap() == b, "Singleton of {:?} unwraps to {}", b as char, s.unwrap());
	ensure!(format!("{s}") == (b as char).to_string(), "Singleton {:?} displays as {s}", b as char);
	ensure!(s == s && s == b && s == b as char, "Singleton {:?} is not equal to itself", b as char);
	let c = s;
	#[allow(clippy::clone_on_copy)]
	let d = s.clone();
	ensure!(c.unwrap() == b && d.unwrap() == b, "copy of Singleton {:?}", b as char);
	Ok(())
}

// ---------------------------------------------------------------- C19
/// Two texts that differ only in letter case.
pub fn twin(m: &Model, x: &[&[u8]], n: &[i64]) -> Res {
	let (ty, a, b) = (n[0] as usize, x[0], x[1]);
	assert_eq!(m.folded(a), m.folded(b));
	let (ra, rb) = (impl_accepts(m, ty, a), impl_accepts(m, ty, b));
	ensure!(ra == rb, "{}: {} is {} but {} is {}", tyname(ty), q(a), acc(ra == Some(true)), q(b), acc(rb == Some(true)));
	if ra != Some(true) {
		return Ok(());
	}
	with_ty!(ty, T => {
		let (va, vb) = (T::ref_bytes(0, a).unwrap_or_else(|_| panic!()), T::ref_bytes(0, b).unwrap_or_else(|_| panic!()));
		ensure!(va == vb && va.cmp(vb) == Ordering::Equal, "{}: {} and {} are not equal", tyname(ty), q(a), q(b));
	});
	let (va, vb) = (impl_visit(ty, a).unwrap(), impl_visit(ty, b).unwrap());
	let same = va.len() == vb.len()
		&& va.iter().zip(&vb).all(|(x, y)| {
			x.name == y.name && x.ty == y.ty && x.text.map(|t| m.folded(t)) == y.text.map(|t| m.folded(t))
		});
	ensure!(same, "{}: {} gives {} but {} gives {}", tyname(ty), q(a), describe(&va), q(b), describe(&vb));
	for (x, y) in va.iter().zip(&vb) {
		if let (Some(p), Some(r)) = (x.text, y.text) {
			if x.ty != SINGLETON {
				if impl_accepts(m, x.ty, p) == Some(true) && impl_accepts(m, x.ty, r) == Some(true) {
					with_ty!(x.ty, T => {
						let (p, r) = (T::ref_bytes(0, p).unwrap_or_else(|_| panic!()), T::ref_bytes(0, r).unwrap_or_else(|_| panic!()));
						ensure!(p == r, "{}: {} of {} and of {} are not equal: {} and {}", tyname(ty), x.name, q(a), q(b), q(p.text()), q(r.text()));
					});
				}
			} else {
				let (p, r) = (Singleton::new(p[0]), Singleton::new(r[0]));
				if let (Ok(p), Ok(r)) = (p, r) {
					ensure!(p == r, "{}: singletons of {} and of {} are not equal", tyname(ty), q(a), q(b));
				}
			}
		}
	}
	if ty == 0 {
		let (ta, tb) = (LangTag::from_bytes(a).unwrap_or_else(|_| panic!()), LangTag::from_bytes(b).unwrap_or_else(|_| panic!()));
		ensure!(ta.kind() == tb.kind(), "{} is {:?} but {} is {:?}", q(a), ta.kind(), q(b), tb.kind());
		ensure!(ta.is_normal() == tb.is_normal() && ta.is_private_use() == tb.is_private_use() && ta.is_grandfathered() == tb.is_grandfathered(),
			"{} and {} are classified differently", q(a), q(b));
		ensure!(ta.as_grandfathered() == tb.as_grandfathered(), "{} and {} are different grandfathered tags", q(a), q(b));
		let (la, lb) = (ta.as_typed(), tb.as_typed());
		ensure!(la.language().map(|l| m.folded(l.as_bytes())) == lb.language().map(|l| m.folded(l.as_bytes())), "typed views of {} and {} have different languages", q(a), q(b));
		twin_lookups(m, ta.extensions(), tb.extensions())?;
	}
	if tyname(ty) == "Extensions" {
		twin_lookups(m, Extensions::from_bytes(a).unwrap_or_else(|_| panic!()), Extensions::from_bytes(b).unwrap_or_else(|_| panic!()))?;
	}
	Ok(())
}
fn twin_lookups(m: &Model, a: &Extensions, b: &Extensions) -> Res {
	for c in 0..=255u8 {
		let (Ok(s), Ok(z)) = (Singleton::new(c), Singleton::new(if c.is_ascii_alphabetic() { c ^ 0x20 } else { c })) else { continue };
		let f = |x: Option<&Extension>| x.map(|x| m.folded(x.as_bytes()));
		let all = [f(a.get(s)), f(a.get(z)), f(b.get(s)), f(b.get(z))];
		ensure!(all.iter().all(|x| *x == all[0]), "extensions {} and {}: looking up {:?} in either case gives different answers", q(a.as_bytes()), q(b.as_bytes()), c as char);
		let g = |it: ExtensionIter| it.take(a.as_bytes().len() + 1).map(|x| m.folded(x.as_bytes())).collect::<Vec<_>>();
		ensure!(g(a.iter_extension(s)) == g(b.iter_extension(z)), "extensions {} and {}: iter_extension({:?}) differs", q(a.as_bytes()), q(b.as_bytes()), c as char);
	}
	Ok(())
}

// ---------------------------------------------------------------- C14
#[cfg(feature = "std")]
pub use own::*;
#[cfg(feature = "std")]
mod own {
	use super::*;
	use std::borrow::Borrow;

	enum F<T: OwnTy + ?Sized> {
		Ref(&'static T),
		Buf(Box<T::Buf>),
		Str(&'static str),
		Bytes(&'static [u8]),
		Str2(Box<String>),
		Vec(Box<Vec<u8>>),
	}
	impl<T: OwnTy + ?Sized> F<T> {
		fn form(&self) -> &'static str {
			match self {
				F::Ref(_) => "ref",
				F::Buf(_) => "buf",
				F::Str(_) => "str",
				F::Bytes(_) => "bytes",
				F::Str2(_) => "string",
				F::Vec(_) => "vec",
			}
		}
		fn text(&self) -> &[u8] {
			match self {
				F::Ref(v) => v.text(),
				F::Buf(b) => T::buf_bytes("buf_as_bytes", b).unwrap(),
				F::Str(s) => s.as_bytes(),
				F::Bytes(b) => b,
				F::Str2(s) => s.as_bytes(),
				F::Vec(v) => v,
			}
		}
	}
	/// A walk in the graph of module Conversion.  args: type, start form
	/// (0 str, 1 bytes, 2 string, 3 vec), then operation numbers; -1 = drop
	/// every other buffer.
	pub fn convert(m: &Model, x: &[&[u8]], n: &[i64]) -> Res {
		let (ty, t) = (n[0] as usize, x[0]);
		if impl_accepts(m, ty, t) != Some(true) || std::str::from_utf8(t).is_err() {
			return Ok(());
		}
		with_ty!(ty, T => walk::<T>(m, t, n[1], &n[2..]))
	}
	fn walk<T: OwnTy + ?Sized>(m: &Model, t: &[u8], start: i64, ops: &[i64]) -> Res {
		// owned things left behind, still alive (each boxed: its address is stable)
		let mut arena: Vec<F<T>> = vec![];
		let s = String::from_utf8(t.to_vec()).unwrap();
		let mut cur: F<T> = F::Str2(Box::new(s));
		unsafe fn life<'a, X: ?Sized>(x: &X) -> &'a X {
			unsafe { &*(x as *const X) }
		}
		macro_rules! keep {
			($e:expr) => {{
				let old = std::mem::replace(&mut cur, $e);
				arena.push(old);
			}};
		}
		match start {
			0 => {
				let F::Str2(s) = &cur else { unreachable!() };
				let s: &'static str = unsafe { life(s.as_str()) };
				keep!(F::Str(s));
			}
			1 => {
				let F::Str2(s) = &cur else { unreachable!() };
				let s: &'static [u8] = unsafe { life(s.as_bytes()) };
				keep!(F::Bytes(s));
			}
			3 => cur = F::Vec(Box::new(t.to_vec())),
			_ => (),
		}
		let mut path = String::new();
		for &op in ops {
			if op < 0 {
				// DropOthers: only from an owned form; the memory is reused
				if matches!(cur, F::Buf(_) | F::Str2(_) | F::Vec(_)) {
					let n = arena.len();
					arena.clear();
					let junk: Vec<Vec<u8>> = (0..n + 2).map(|_| vec![b'?'; t.len().max(1)]).collect();
					std::hint::black_box(&junk);
					ensure!(cur.text() == t, "{}: after {path} and dropping everything else, the text is {}", T::NAME, q(cur.text()));
				}
				continue;
			}
			let (name, from, to, mode) = &m.conv[op as usize % m.conv.len()];
			if from != cur.form() {
				continue;
			}
			path.push_str(name);
			path.push(' ');
			let before = cur.text().as_ptr();
			let bad = |e: &[u8]| format!("{}: {path}from {} fails, gives back {}", T::NAME, q(t), q(e));
			let name = name.as_str();
			let next: F<T> = match &cur {
				F::Str(s) => {
					let s = *s;
					if let Some(i) = REF_STR.iter().position(|h| *h == name) {
						F::Ref(T::ref_str(i, s).map_err(bad)?)
					} else {
						match name {
							"parse" => F::Buf(Box::new(T::buf_parse(s).map_err(|e| bad(&e))?)),
							"str_bytes" => F::Bytes(s.as_bytes()),
							"str_owned" => F::Str2(Box::new(s.to_owned())),
							_ => bail!("no operation {name}"),
						}
					}
				}
				F::Bytes(b) => {
					let b = *b;
					if let Some(i) = REF_BYTES.iter().position(|h| *h == name) {
						F::Ref(T::ref_bytes(i, b).map_err(bad)?)
					} else {
						match name {
							"bytes_owned" => F::Vec(Box::new(b.to_vec())),
							_ => bail!("no operation {name}"),
						}
					}
				}
				F::Str2(s) => {
					if let Some(i) = BUF_STRING.iter().position(|h| *h == name) {
						F::Buf(Box::new(T::buf_string(i, (**s).clone()).map_err(|e| bad(&e))?))
					} else {
						match name {
							"new_string" => F::Ref(T::new_string(unsafe { life(&**s) }).map_err(bad)?),
							"string_as_str" => F::Str(unsafe { life(s.as_str()) }),
							_ => bail!("no operation {name}"),
						}
					}
				}
				F::Vec(v) => {
					if let Some(i) = BUF_VEC.iter().position(|h| *h == name) {
						F::Buf(Box::new(T::buf_vec(i, (**v).clone()).map_err(|e| bad(&e))?))
					} else {
						match name {
							"new_vec" => F::Ref(T::new_vec(unsafe { life(&**v) }).map_err(bad)?),
							"vec_as_bytes" => F::Bytes(unsafe { life(v.as_slice()) }),
							_ => bail!("no operation {name}"),
						}
					}
				}
				F::Ref(v) => {
					let v: &'static T = v;
					match name {
						"display" => F::Str2(Box::new(v.to_string())),
						"to_owned" | "cow" => F::Buf(Box::new(v.own_how(name).unwrap())),
						_ => {
							let mut got = None;
							v.texts(&mut |l, b| {
								if l == name {
									got = Some(b)
								}
							});
							let Some(b) = got else { bail!("no operation {name}") };
							match to.as_str() {
								"str" => F::Str(std::str::from_utf8(b).map_err(|_| format!("{}: {path}is not UTF-8", T::NAME))?),
								"bytes" => F::Bytes(b),
								_ => F::Ref(T::ref_bytes(0, b).map_err(bad)?),
							}
						}
					}
				}
				F::Buf(b) => {
					let r: &'static T::Buf = unsafe { life(&**b) };
					if let Some(x) = T::buf_ref(name, r) {
						F::Ref(x)
					} else if let Some(x) = T::buf_bytes(name, r) {
						match to.as_str() {
							"str" => F::Str(std::str::from_utf8(x).map_err(|_| format!("{}: {path}is not UTF-8", T::NAME))?),
							_ => F::Bytes(x),
						}
					} else if name == "clone" {
						F::Buf(Box::new((**b).clone()))
					} else if name == "clone_from" {
						// into a value that had some other text
						let mut y = (**b).clone();
						y.clone_from(&**b);
						F::Buf(Box::new(y))
					} else if let Some(x) = T::buf_into(name, (**b).clone()) {
						match to.as_str() {
							"string" => F::Str2(Box::new(String::from_utf8(x).map_err(|_| format!("{}: {path}is not UTF-8", T::NAME))?)),
							_ => F::Vec(Box::new(x)),
						}
					} else {
						bail!("no operation {name}")
					}
				}
			};
			ensure!(next.form() == to, "{}: {name} gives a {}", T::NAME, next.form());
			ensure!(next.text() == t, "{}: {path}turns {} into {}", T::NAME, q(t), q(next.text()));
			if mode == "borrow" {
				ensure!(next.text().as_ptr() == before || t.is_empty(), "{}: {path}of {} copies the text", T::NAME, q(t));
			}
			keep!(next);
			// every value on the way equals the original
			let orig = T::ref_bytes(0, t).map_err(bad)?;
			match &cur {
				F::Ref(v) => ensure!(**v == *orig, "{}: {path}of {} is not equal to the original", T::NAME, q(t)),
				F::Buf(b) => {
					let r: &T = (**b).borrow();
					ensure!(*r == *orig && **b == orig.own(), "{}: {path}of {} is not equal to the original", T::NAME, q(t));
				}
				_ => (),
			}
			ensure!(cur.text() == t, "{}: {path}of {} left {}", T::NAME, q(t), q(cur.text()));
		}
		Ok(())
	}
	/// An owned value gives the same answers as the borrowed one.
	pub fn owned_same(m: &Model, x: &[&[u8]], n: &[i64]) -> Res {
		let (ty, t) = (n[0] as usize, x[0]);
		if impl_accepts(m, ty, t) != Some(true) {
			return Ok(());
		}
		let a = impl_visit(ty, t).unwrap();
		let b = buf_visit(ty, t).unwrap_or_default();
		let a2: Vec<_> = a.iter().map(|x| (x.name, x.ty, x.text.map(|t| t.to_vec()))).collect();
		ensure!(a2 == b, "{}: owned and borrowed {} give different answers: {}", tyname(ty), q(t), describe(&a));
		with_ty!(ty, T => {
			let v = T::ref_bytes(0, t).unwrap_or_else(|_| panic!());
			let b = v.own();
			ensure!(format!("{b}") == format!("{v}"), "{}: {} displays differently owned", tyname(ty), q(t));
			ensure!(format!("{b:?}") == format!("{v:?}"), "{}: {} debug-prints differently owned", tyname(ty), q(t));
			ensure!(v.to_string().as_bytes() == t, "{}: {} displays as {v}", tyname(ty), q(t));
			ensure!(hash_calls(&b) == hash_calls(v), "{}: {} hashes differently owned", tyname(ty), q(t));
			// clone_from over a value with a different text
			let mut c = b.clone();
			c.clone_from(&b);
			ensure!(T::buf_bytes("buf_as_bytes", &c) == Some(t), "{}: clone_from of {}", tyname(ty), q(t));
			// the owned value outlives the buffer it was parsed from
			let mut src = t.to_vec();
			let o = T::ref_bytes(0, &src).unwrap_or_else(|_| panic!()).own();
			src.iter_mut().for_each(|b| *b = b'?');
			drop(src);
			ensure!(T::buf_bytes("buf_as_bytes", &o) == Some(t), "{}: owned copy of {} changes with its source", tyname(ty), q(t));
		});
		Ok(())
	}
	/// Two well-formed texts of one type: clone_from replaces the text.
	pub fn clone_from(m: &Model, x: &[&[u8]], n: &[i64]) -> Res {
		let (ty, a, b) = (n[0] as usize, x[0], x[1]);
		if impl_accepts(m, ty, a) != Some(true) || impl_accepts(m, ty, b) != Some(true) {
			return Ok(());
		}
		with_ty!(ty, T => {
			let mut c = T::ref_bytes(0, a).unwrap_or_else(|_| panic!()).own();
			let d = T::ref_bytes(0, b).unwrap_or_else(|_| panic!()).own();
			c.clone_from(&d);
			ensure!(T::buf_bytes("buf_as_bytes", &c) == Some(b) && T::buf_bytes("buf_as_bytes", &d) == Some(b), "{}: clone_from({}) over {}", tyname(ty), q(b), q(a));
			let mut r: &T = T::ref_bytes(0, a).unwrap_or_else(|_| panic!());
			ensure!(r.text() == a, "reference to {}", q(a));
			r = T::ref_bytes(0, b).unwrap_or_else(|_| panic!());
			let e = r.own();
			ensure!(e == d, "{}: two owned copies of {} are not equal", tyname(ty), q(b));
			// ToOwned::clone_into
			let mut f = c.clone();
			r.clone_into(&mut f);
			ensure!(T::buf_bytes("buf_as_bytes", &f) == Some(b), "{}: clone_into({})", tyname(ty), q(b));
		});
		Ok(())
	}

	// ------------------------------------------------------------ C13
	use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
	use std::hash::{BuildHasher, BuildHasherDefault};

	/// What a collection of tags can be asked.
	pub trait Coll<T: OwnTy + ?Sized> {
		fn insert(&mut self, k: T::Buf, x: i64) -> Vec<i64>;
		fn replace(&mut self, k: T::Buf) -> Option<Vec<u8>>;
		fn entry(&mut self, k: T::Buf, x: i64) -> i64;
		fn contains(&self, k: &T) -> bool;
		fn contains_buf(&self, k: &T::Buf) -> bool;
		fn get(&self, k: &T) -> Option<(Vec<u8>, i64)>;
		fn get_buf(&self, k: &T::Buf) -> Option<(Vec<u8>, i64)>;
		fn remove(&mut self, k: &T, by_buf: bool) -> Option<(Vec<u8>, i64)>;
		fn len(&self) -> usize;
		fn all(&self) -> Vec<(Vec<u8>, i64)>;
		fn sorted(&self) -> bool;
	}
	fn tx<T: OwnTy + ?Sized>(b: &T::Buf) -> Vec<u8> {
		T::buf_bytes("buf_as_bytes", b).unwrap().to_vec()
	}
	macro_rules! coll {
		(set, $S:ty, [$($g:tt)*], $sorted:expr) => {
			impl<T: OwnTy + ?Sized, $($g)*> Coll<T> for $S {
				fn insert(&mut self, k: T::Buf, _: i64) -> Vec<i64> {
					vec![self.insert(k) as i64]
				}
				fn replace(&mut self, k: T::Buf) -> Option<Vec<u8>> {
					self.replace(k).map(|b| tx::<T>(&b))
				}
				fn entry(&mut self, _: T::Buf, _: i64) -> i64 {
					panic!()
				}
				fn contains(&self, k: &T) -> bool {
					self.contains::<T>(k)
				}
				fn contains_buf(&self, k: &T::Buf) -> bool {
					self.contains::<T::Buf>(k)
				}
				fn get(&self, k: &T) -> Option<(Vec<u8>, i64)> {
					self.get::<T>(k).map(|b| (tx::<T>(b), 0))
				}
				fn get_buf(&self, k: &T::Buf) -> Option<(Vec<u8>, i64)> {
					self.get::<T::Buf>(k).map(|b| (tx::<T>(b), 0))
				}
				fn remove(&mut self, k: &T, by_buf: bool) -> Option<(Vec<u8>, i64)> {
					if by_buf { self.take::<T::Buf>(&k.own()) } else { self.take::<T>(k) }.map(|b| (tx::<T>(&b), 0))
				}
				fn len(&self) -> usize {
					self.len()
				}
				fn all(&self) -> Vec<(Vec<u8>, i64)> {
					self.iter().map(|b| (tx::<T>(b), 0)).collect()
				}
				fn sorted(&self) -> bool {
					$sorted
				}
			}
		};
		(map, $S:ty, [$($g:tt)*], $sorted:expr) => {
			impl<T: OwnTy + ?Sized, $($g)*> Coll<T> for $S {
				fn insert(&mut self, k: T::Buf, x: i64) -> Vec<i64> {
					self.insert(k, x).into_iter().collect()
				}
				fn replace(&mut self, _: T::Buf) -> Option<Vec<u8>> {
					panic!()
				}
				fn entry(&mut self, k: T::Buf, x: i64) -> i64 {
					*self.entry(k).or_insert(x)
				}
				fn contains(&self, k: &T) -> bool {
					self.contains_key::<T>(k)
				}
				fn contains_buf(&self, k: &T::Buf) -> bool {
					self.contains_key::<T::Buf>(k)
				}
				fn get(&self, k: &T) -> Option<(Vec<u8>, i64)> {
					let r = self.get_key_value::<T>(k).map(|(b, x)| (tx::<T>(b), *x));
					assert_eq!(r.as_ref().map(|x| x.1), self.get::<T>(k).copied(), "get and get_key_value differ");
					r
				}
				fn get_buf(&self, k: &T::Buf) -> Option<(Vec<u8>, i64)> {
					self.get_key_value::<T::Buf>(k).map(|(b, x)| (tx::<T>(b), *x))
				}
				fn remove(&mut self, k: &T, by_buf: bool) -> Option<(Vec<u8>, i64)> {
					if by_buf { self.remove_entry::<T::Buf>(&k.own()) } else { self.remove_entry::<T>(k) }.map(|(b, x)| (tx::<T>(&b), x))
				}
				fn len(&self) -> usize {
					self.len()
				}
				fn all(&self) -> Vec<(Vec<u8>, i64)> {
					self.iter().map(|(b, x)| (tx::<T>(b), *x)).collect()
				}
				fn sorted(&self) -> bool {
					$sorted
				}
			}
		};
	}
	coll!(set, HashSet<T::Buf, H>, [H: BuildHasher], false);
	coll!(set, BTreeSet<T::Buf>, [], true);
	coll!(map, HashMap<T::Buf, i64, H>, [H: BuildHasher], false);
	coll!(map, BTreeMap<T::Buf, i64>, [], true);
	type FnvB = BuildHasherDefault<Fnv>;

	pub const COLLS: &[(&str, bool)] = &[
		("HashSet", false),
		("HashSet<Fnv>", false),
		("BTreeSet", false),
		("HashMap", true),
		("HashMap<Fnv>", true),
		("BTreeMap", true),
	];
	pub fn new_coll<T: OwnTy + ?Sized>(i: usize) -> Box<dyn Coll<T>> {
		match i {
			0 => Box::new(HashSet::<T::Buf>::new()),
			1 => Box::new(HashSet::<T::Buf, FnvB>::default()),
			2 => Box::new(BTreeSet::<T::Buf>::new()),
			3 => Box::new(HashMap::<T::Buf, i64>::new()),
			4 => Box::new(HashMap::<T::Buf, i64, FnvB>::default()),
			_ => Box::new(BTreeMap::<T::Buf, i64>::new()),
		}
	}
	pub const COLL_OPS: &[&str] = &["insert", "contains", "get", "remove", "len", "replace", "entry"];

	/// texts: spellings; args: type, collection, then (operation, spelling,
	/// value) triples.  Spellings of equal text are one class.  The expected
	/// results are those of module Collections, whose transition relation
	/// (After / Results) is re-read here; `coll_edge` checks this reading
	/// against every edge TLC explored.
	pub fn collection(m: &Model, x: &[&[u8]], n: &[i64]) -> Res {
		let (ty, ci) = (n[0] as usize, n[1] as usize);
		if x.iter().any(|t| impl_accepts(m, ty, t) != Some(true)) {
			return Ok(());
		}
		with_ty!(ty, T => drive::<T>(m, x, ci, &n[2..]))
	}
	fn drive<T: OwnTy + ?Sized>(m: &Model, x: &[&[u8]], ci: usize, ops: &[i64]) -> Res {
		let mut c = new_coll::<T>(ci);
		let (cname, is_map) = COLLS[ci];
		let mut st: Vec<(Vec<u8>, Vec<u8>, i64)> = vec![]; // folded, spelling, value
		let mut done = String::new();
		for o in ops.chunks(3) {
			let op = COLL_OPS[o[0] as usize];
			let t = x[o[1] as usize];
			let v = if is_map { o[2] } else { 0 };
			let f = m.folded(t);
			let i = st.iter().position(|e| e.0 == f);
			let key = T::ref_bytes(0, t).unwrap_or_else(|_| panic!());
			if (op == "replace" && is_map) || (op == "entry" && !is_map) {
				continue;
			}
			if done.len() < 4000 {
				done.push_str(&format!("{op}({}) ", show(t)));
			}
			let who = format!("{cname} of {}", T::NAME);
			match op {
				"insert" => {
					let got = c.insert(key.own(), v);
					let want = match (i, is_map) {
						(None, false) => vec![1],
						(Some(_), false) => vec![0],
						(None, true) => vec![],
						(Some(i), true) => vec![st[i].2],
					};
					ensure!(got == want, "{who}: {done}gives {got:?}, specification {want:?}");
					match i {
						None => st.push((f, t.to_vec(), v)),
						Some(i) if is_map => st[i].2 = v,
						_ => (),
					}
				}
				"replace" => {
					let got = c.replace(key.own());
					let want = i.map(|i| st[i].1.clone());
					ensure!(got == want, "{who}: {done}gives {}, specification {}", qo(got.as_deref()), qo(want.as_deref()));
					match i {
						None => st.push((f, t.to_vec(), 0)),
						Some(i) => st[i].1 = t.to_vec(),
					}
				}
				"entry" => {
					let got = c.entry(key.own(), v);
					let want = i.map(|i| st[i].2).unwrap_or(v);
					ensure!(got == want, "{who}: {done}gives {got}, specification {want}");
					if i.is_none() {
						st.push((f, t.to_vec(), v));
					}
				}
				"contains" => {
					for (how, got) in [("by reference", c.contains(key)), ("by owned key", c.contains_buf(&key.own()))] {
						ensure!(got == i.is_some(), "{who}: {done}{how} gives {got}, specification {}", i.is_some());
					}
				}
				"get" => {
					let want = i.map(|i| (st[i].1.clone(), st[i].2));
					for (how, got) in [("by reference", c.get(key)), ("by owned key", c.get_buf(&key.own()))] {
						ensure!(got == want, "{who}: {done}{how} gives {:?}, specification {:?}", pv(&got), pv(&want));
					}
				}
				"remove" => {
					let got = c.remove(key, o[2] % 2 == 1);
					let want = i.map(|i| (st[i].1.clone(), st[i].2));
					ensure!(got == want, "{who}: {done}gives {:?}, specification {:?}", pv(&got), pv(&want));
					if let Some(i) = i {
						st.remove(i);
					}
				}
				_ => (),
			}
			ensure!(c.len() == st.len(), "{who}: after {done}it has {} entries, specification {}", c.len(), st.len());
			if op == "len" || st.len() < 4 {
				let mut got = c.all();
				if c.sorted() {
					for w in got.windows(2) {
						let (a, b) = (T::ref_bytes(0, &w[0].0).unwrap_or_else(|_| panic!()), T::ref_bytes(0, &w[1].0).unwrap_or_else(|_| panic!()));
						ensure!(a.cmp(b) == Ordering::Less, "{who}: after {done}iteration gives {} before {}", q(&w[0].0), q(&w[1].0));
					}
				}
				let mut want: Vec<(Vec<u8>, i64)> = st.iter().map(|e| (e.1.clone(), e.2)).collect();
				got.sort();
				want.sort();
				ensure!(got == want, "{who}: after {done}it holds {:?}, specification {:?}", got.iter().map(|e| q(&e.0)).collect::<Vec<_>>(), want.iter().map(|e| q(&e.0)).collect::<Vec<_>>());
			}
		}
		Ok(())
	}
	fn pv(x: &Option<(Vec<u8>, i64)>) -> Option<(String, i64)> {
		x.as_ref().map(|x| (q(&x.0), x.1))
	}

	/// One edge of the graph of module Collections.  texts: the spellings
	/// (class-major), args: type, collection, edge number.
	pub fn coll_edge(m: &Model, x: &[&[u8]], n: &[i64]) -> Res {
		let (ty, ci, e) = (n[0] as usize, n[1] as usize, n[2] as usize);
		if x.iter().any(|t| impl_accepts(m, ty, t) != Some(true)) {
			return Ok(());
		}
		with_ty!(ty, T => edge::<T>(x, ci, &m.edges[e]))
	}
	fn edge<T: OwnTy + ?Sized>(x: &[&[u8]], ci: usize, e: &CollEdge) -> Res {
		let (cname, is_map) = COLLS[ci];
		if is_map != e.map {
			return Ok(());
		}
		let sp = |s: usize| x[(s / 10 - 1) * 2 + (s % 10 - 1)];
		let key = |s: usize| T::ref_bytes(0, sp(s)).unwrap_or_else(|_| panic!());
		let mut c = new_coll::<T>(ci);
		for en in e.from.iter().flatten() {
			c.insert(key(en.0).own(), en.1);
		}
		let who = || format!("{cname} of {} holding {:?}: {}({})", T::NAME, e.from.iter().flatten().map(|en| q(sp(en.0))).collect::<Vec<_>>(), e.op, show(sp(e.s)));
		let pair = |r: &[i64]| if r.is_empty() { None } else { Some((sp(r[0] as usize).to_vec(), r[1])) };
		let k = key(e.s);
		match e.op.as_str() {
			"insert" => {
				let got = c.insert(k.own(), e.x);
				ensure!(got == e.res, "{} gives {got:?}, specification {:?}", who(), e.res);
			}
			"replace" => {
				let got = c.replace(k.own());
				let want = e.res.first().map(|s| sp(*s as usize).to_vec());
				ensure!(got == want, "{} gives {}, specification {}", who(), qo(got.as_deref()), qo(want.as_deref()));
			}
			"entry" => {
				let got = c.entry(k.own(), e.x);
				ensure!(got == e.res[0], "{} gives {got}, specification {}", who(), e.res[0]);
			}
			"contains" => {
				for got in [c.contains(k), c.contains_buf(&k.own())] {
					ensure!(got as i64 == e.res[0], "{} gives {got}, specification {}", who(), e.res[0]);
				}
			}
			"get" => {
				for got in [c.get(k), c.get_buf(&k.own())] {
					ensure!(got == pair(&e.res), "{} gives {:?}, specification {:?}", who(), pv(&got), pv(&pair(&e.res)));
				}
			}
			"remove" => {
				let got = c.remove(k, e.x % 2 == 1);
				ensure!(got == pair(&e.res), "{} gives {:?}, specification {:?}", who(), pv(&got), pv(&pair(&e.res)));
			}
			"len" => ensure!(c.len() as i64 == e.res[0], "{} gives {}, specification {}", who(), c.len(), e.res[0]),
			o => bail!("no operation {o}"),
		}
		let mut got = c.all();
		let mut want: Vec<(Vec<u8>, i64)> = e.to.iter().flatten().map(|en| (sp(en.0).to_vec(), en.1)).collect();
		got.sort();
		want.sort();
		ensure!(got == want && c.len() == want.len(), "{}: afterwards it holds {:?}, specification {:?}", who(), got.iter().map(|e| q(&e.0)).collect::<Vec<_>>(), want.iter().map(|e| q(&e.0)).collect::<Vec<_>>());
		Ok(())
	}
}

// ---------------------------------------------------------------- C15
#[cfg(all(feature = "std", feature = "serde"))]
pub use ser::*;
#[cfg(all(feature = "std", feature = "serde"))]
mod ser {
	use super::*;
	use serde::de::value::*;
	use serde::de::{Deserialize, DeserializeOwned, IntoDeserializer};
	use serde::ser::{Impossible, Serialize, Serializer};
	use serde_json::Value;

	type E = serde::de::value::Error;

	/// Accepts a string and nothing else; not human-readable.
	struct OnlyStr(bool);
	macro_rules! no {
		($($f:ident($($t:ty),*)),*) => { $(fn $f(self, $(_: $t),*) -> Result<String, E> { Err(serde::ser::Error::custom(concat!(stringify!($f), " called"))) })* };
	}
	impl Serializer for OnlyStr {
		type Ok = String;
		type Error = E;
		type SerializeSeq = Impossible<String, E>;
		type SerializeTuple = Impossible<String, E>;
		type SerializeTupleStruct = Impossible<String, E>;
		type SerializeTupleVariant = Impossible<String, E>;
		type SerializeMap = Impossible<String, E>;
		type SerializeStruct = Impossible<String, E>;
		type SerializeStructVariant = Impossible<String, E>;
		fn is_human_readable(&self) -> bool {
			self.0
		}
		fn serialize_str(self, v: &str) -> Result<String, E> {
			Ok(v.to_owned())
		}
		no!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64),
			serialize_u8(u8), serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_f32(f32), serialize_f64(f64),
			serialize_char(char), serialize_bytes(&[u8]), serialize_none(), serialize_unit(), serialize_unit_struct(&'static str),
			serialize_unit_variant(&'static str, u32, &'static str));
		fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<String, E> {
			Err(serde::ser::Error::custom("serialize_some called"))
		}
		fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<String, E> {
			Err(serde::ser::Error::custom("serialize_newtype_struct called"))
		}
		fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<String, E> {
			Err(serde::ser::Error::custom("serialize_newtype_variant called"))
		}
		fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> {
			Err(serde::ser::Error::custom("serialize_seq called"))
		}
		fn serialize_tuple(self, _: usize) -> Result<Self::SerializeSeq, E> {
			Err(serde::ser::Error::custom("serialize_tuple called"))
		}
		fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeSeq, E> {
			Err(serde::ser::Error::custom("serialize_tuple_struct called"))
		}
		fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeSeq, E> {
			Err(serde::ser::Error::custom("serialize_tuple_variant called"))
		}
		fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> {
			Err(serde::ser::Error::custom("serialize_map called"))
		}
		fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeSeq, E> {
			Err(serde::ser::Error::custom("serialize_struct called"))
		}
		fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeSeq, E> {
			Err(serde::ser::Error::custom("serialize_struct_variant called"))
		}
	}

	/// A string in a format which is not human-readable, handed over in one of three ways.
	struct Binary<'de>(&'de str, u8);
	impl<'de> serde::Deserializer<'de> for Binary<'de> {
		type Error = E;
		fn is_human_readable(&self) -> bool {
			false
		}
		fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
			match self.1 {
				0 => v.visit_str(self.0),
				1 => v.visit_string(self.0.to_owned()),
				_ => v.visit_borrowed_str(self.0),
			}
		}
		serde::forward_to_deserialize_any! {
			bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct
			newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
		}
	}

	/// All the ways a string can be deserialized into an owned or borrowed value.
	fn owned<B: DeserializeOwned>(s: &str, f: &mut dyn FnMut(&'static str, Result<B, String>)) {
		f("serde_json::from_str", serde_json::from_str(&serde_json::to_string(s).unwrap()).map_err(|e| e.to_string()));
		f("serde_json::from_slice", serde_json::from_slice(&serde_json::to_vec(s).unwrap()).map_err(|e| e.to_string()));
		f("serde_json::from_reader", serde_json::from_reader(serde_json::to_string(s).unwrap().as_bytes()).map_err(|e| e.to_string()));
		f("serde_json::from_value", serde_json::from_value(Value::String(s.to_owned())).map_err(|e| e.to_string()));
		f("json with escapes", serde_json::from_str(&escaped(s)).map_err(|e| e.to_string()));
		f("StrDeserializer", B::deserialize(IntoDeserializer::<E>::into_deserializer(s)).map_err(|e| e.to_string()));
		f("StringDeserializer", B::deserialize(IntoDeserializer::<E>::into_deserializer(s.to_owned())).map_err(|e| e.to_string()));
		f("BorrowedStrDeserializer", B::deserialize(BorrowedStrDeserializer::<E>::new(s)).map_err(|e| e.to_string()));
		f("not human-readable, visit_str", B::deserialize(Binary(s, 0)).map_err(|e| e.to_string()));
		f("not human-readable, visit_string", B::deserialize(Binary(s, 1)).map_err(|e| e.to_string()));
		f("not human-readable, visit_borrowed_str", B::deserialize(Binary(s, 2)).map_err(|e| e.to_string()));
		f("in place", {
			// a field of something larger
			serde_json::from_str::<Vec<B>>(&format!("[{}]", serde_json::to_string(s).unwrap())).map_err(|e| e.to_string()).map(|mut v| v.pop().unwrap())
		});
	}
	fn escaped(s: &str) -> String {
		let mut o = String::from("\"");
		for u in s.encode_utf16() {
			o.push_str(&format!("\\u{u:04x}"));
		}
		o.push('"');
		o
	}
	pub fn serde_case(m: &Model, x: &[&[u8]], n: &[i64]) -> Res {
		let (ty, t) = (n[0] as usize, x[0]);
		let Ok(s) = std::str::from_utf8(t) else { return Ok(()) };
		let Some(want) = impl_accepts(m, ty, t) else { return Ok(()) };
		with_ty!(ty, T => {
			let name = tyname(ty);
			type B = <T as OwnTy>::Buf;
			// deserialize
			let mut r: Res = Ok(());
			owned::<B>(s, &mut |how, got: Result<B, String>| {
				if r.is_err() {
					return;
				}
				r = match got {
					Ok(b) if want => {
						let g = T::buf_bytes("buf_as_bytes", &b).unwrap();
						if g == t { Ok(()) } else { Err(format!("{name}Buf: {how} of {} has text {}", q(t), q(g))) }
					}
					Err(_) if !want => Ok(()),
					Ok(_) => Err(format!("{name}Buf: {how} accepts {} which the parser rejects", q(t))),
					Err(e) => Err(format!("{name}Buf: {how} rejects {} ({e}) which the parser accepts", q(t))),
				};
			});
			r?;
			let json = serde_json::to_string(s).unwrap();
			let plain = !json.contains('\\');
			let mut ways: Vec<(&str, Result<&T, String>, bool)> = vec![];
			ways.push(("BorrowedStrDeserializer", <&T>::deserialize(BorrowedStrDeserializer::<E>::new(s)).map_err(|e| e.to_string()), true));
			ways.push(("not human-readable, visit_borrowed_str", <&T>::deserialize(Binary(s, 2)).map_err(|e| e.to_string()), true));
			if plain {
				ways.push(("serde_json::from_str", serde_json::from_str(&json).map_err(|e| e.to_string()), false));
				ways.push(("serde_json::from_slice", serde_json::from_slice(json.as_bytes()).map_err(|e| e.to_string()), false));
			}
			for (how, got, same) in ways {
				match got {
					Ok(v) => {
						ensure!(want, "&{name}: {how} accepts {} which the parser rejects", q(t));
						ensure!(v.text() == t, "&{name}: {how} of {} has text {}", q(t), q(v.text()));
						ensure!(!same || v.text().as_ptr() == t.as_ptr(), "&{name}: {how} of {} is not borrowed", q(t));
					}
					Err(e) => ensure!(!want, "&{name}: {how} rejects {} ({e}) which the parser accepts", q(t)),
				}
			}
			// serialize
			if want {
				let v = T::ref_bytes(0, t).unwrap_or_else(|_| panic!());
				let b = v.own();
				let mut r: Vec<(&str, Result<String, String>)> = vec![];
				for h in [true, false] {
					r.push(("serialize", v.serialize(OnlyStr(h)).map_err(|e| e.to_string())));
					r.push(("serialize &&", (&v).serialize(OnlyStr(h)).map_err(|e| e.to_string())));
					r.push(("serialize owned", b.serialize(OnlyStr(h)).map_err(|e| e.to_string())));
				}
				for (how, got) in r {
					match got {
						Ok(g) => ensure!(g.as_bytes() == t, "{name}: {how} of {} is {}", q(t), q(g.as_bytes())),
						Err(e) => bail!("{name}: {how} of {} is not a plain string: {e}", q(t)),
					}
				}
				for (how, got) in [
					("to_string", serde_json::to_string(v).map_err(|e| e.to_string())),
					("to_string owned", serde_json::to_string(&b).map_err(|e| e.to_string())),
					("to_value", serde_json::to_value(v).map(|v| v.to_string()).map_err(|e| e.to_string())),
					("to_value owned", serde_json::to_value(&b).map(|v| v.to_string()).map_err(|e| e.to_string())),
				] {
					ensure!(got.as_deref() == Ok(json.as_str()), "{name}: {how} of {} is {got:?}", q(t));
				}
				// round trip
				let back: B = serde_json::from_str(&serde_json::to_string(&b).unwrap()).map_err(|e| e.to_string())?;
				ensure!(T::buf_bytes("buf_as_bytes", &back) == Some(t) && back == b, "{name}: {} does not survive a round trip", q(t));
			}
		});
		Ok(())
	}
	/// Inputs that are not strings.
	pub fn serde_other(_: &Model, _: &[&[u8]], n: &[i64]) -> Res {
		let ty = n[0] as usize;
		with_ty!(ty, T => {
			let name = tyname(ty);
			type B = <T as OwnTy>::Buf;
			for j in ["null", "true", "false", "0", "1", "12", "419", "-3", "1.5", "1e3", "[]", "[\"fr\"]", "[\"x-a\"]", "{}", "{\"fr\":1}", "{\"0\":\"fr\"}", "[[]]", ""] {
				ensure!(serde_json::from_str::<B>(j).is_err(), "{name}Buf deserializes from {j:?}");
				ensure!(serde_json::from_str::<&T>(j).is_err(), "&{name} deserializes from {j:?}");
				if let Ok(v) = serde_json::from_str::<Value>(j) {
					ensure!(serde_json::from_value::<B>(v).is_err(), "{name}Buf deserializes from value {j:?}");
				}
			}
			ensure!(B::deserialize(IntoDeserializer::<E>::into_deserializer(())).is_err(), "{name}Buf deserializes from unit");
			ensure!(B::deserialize(IntoDeserializer::<E>::into_deserializer(7u8)).is_err(), "{name}Buf deserializes from u8");
			ensure!(B::deserialize(IntoDeserializer::<E>::into_deserializer(419u64)).is_err(), "{name}Buf deserializes from u64");
			ensure!(B::deserialize(IntoDeserializer::<E>::into_deserializer(-1i64)).is_err(), "{name}Buf deserializes from i64");
			ensure!(B::deserialize(IntoDeserializer::<E>::into_deserializer(true)).is_err(), "{name}Buf deserializes from bool");
			ensure!(B::deserialize(IntoDeserializer::<E>::into_deserializer(1.5f64)).is_err(), "{name}Buf deserializes from f64");
			ensure!(<&T>::deserialize(IntoDeserializer::<E>::into_deserializer(7u8)).is_err(), "&{name} deserializes from u8");
			ensure!(<&T>::deserialize(IntoDeserializer::<E>::into_deserializer(())).is_err(), "&{name} deserializes from unit");
			ensure!(<&T>::deserialize(IntoDeserializer::<E>::into_deserializer(true)).is_err(), "&{name} deserializes from bool");
		});
		Ok(())
	}
}

// ---------------------------------------------------------------- C20
/// Everything observable about a text without std, as text.
pub fn observe(ty: usize, t: &[u8], other: &[u8]) -> String {
	use std::fmt::Write;
	keep(None);
	let mut o = String::new();
	with_ty!(ty, T => {
		for i in 0..REF_BYTES.len() {
			let _ = write!(o, "{}", T::ref_bytes(i, t).is_ok());
		}
		if let Ok(s) = std::str::from_utf8(t) {
			for i in 0..REF_STR.len() {
				let _ = write!(o, "{}", T::ref_str(i, s).is_ok());
			}
			#[cfg(feature = "serde")]
			{
				use serde::Deserialize;
				let d = serde::de::value::BorrowedStrDeserializer::<serde::de::value::Error>::new(s);
				let got = <&T>::deserialize(d).ok().map(|v| v.text());
				if got != T::ref_str(0, s).ok().map(|v| v.text()) {
					let _ = write!(o, "deserialized {:?}", got.map(q));
				}
			}
			if let Ok(v) = T::ref_str(0, s) {
				let _ = write!(o, "{v} {:?} {:?} {:x} {:x}", v, hash_calls(v), hash_sip(v), hash_fnv(v));
				v.texts(&mut |l, b| { let _ = write!(o, "{l}{b:?}"); });
				v.eq_text(other, &mut |l, r| { let _ = write!(o, "{l}{r}"); });
				v.eq_text_rev(other, &mut |l, r| { let _ = write!(o, "{l}{r}"); });
				if let Ok(w) = T::ref_bytes(0, other) {
					v.eq_ref(w, &mut |l, r| { let _ = write!(o, "{l}{r}"); });
					v.cmp_ref(w, &mut |l, r| { let _ = write!(o, "{l}{r:?}"); });
				}
				v.cmp_text(other, &mut |l, r| { let _ = write!(o, "{l}{r:?}"); });
				v.cmp_text_rev(other, &mut |l, r| { let _ = write!(o, "{l}{r:?}"); });
				// nothing is written when serialization is as it should be: it is not there without serde
				#[cfg(feature = "serde")]
				if serde_json::to_string(v).ok() != serde_json::to_string(s).ok() {
					let _ = write!(o, "serialized {:?}", serde_json::to_string(v));
				}
			}
		}
	});
	if std::str::from_utf8(t).is_err() {
		return o;
	}
	if let Some(v) = impl_visit(ty, t) {
		o.push_str(&describe(&v));
	}
	if ty == 0 {
		if let Ok(tag) = LangTag::from_bytes(t) {
			let _ = write!(o, "{:?}{}{}{}", tag.kind(), tag.is_normal(), tag.is_private_use(), tag.is_grandfathered());
			let ty = tag.as_typed();
			let _ = write!(o, "{:?} {}", ty.kind(), qo(ty.language().map(|l| l.as_bytes())));
			let e = tag.extensions();
			for b in 0..=255u8 {
				if let Ok(s) = Singleton::new(b) {
					let _ = write!(o, "{}", qo(e.get(s).map(|x| x.as_bytes())));
				}
			}
		}
		let _ = write!(o, "{}", qo(GrandfatheredLangTag::new(t).ok().as_ref().map(|g| g.as_bytes())));
	}
	if t.len() == 1 {
		let _ = write!(o, "{:?}", Singleton::new(t[0]).ok().map(|s| s.unwrap()));
	}
	o
}
