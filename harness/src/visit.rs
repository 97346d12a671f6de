//! Everything a value hands out, in a fixed order: from the real code and
//! from the specification.
use crate::model::{Model, runs, span};
use crate::types::ALL_TYPES;
use langtag::*;

/// What was handed out: its name, its type (index in ALL_TYPES), its text.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Out<'a> {
	pub name: &'static str,
	pub ty: usize,
	pub text: Option<&'a [u8]>,
}
pub const LANGUAGE: usize = 3;
pub const PRIMARY: usize = 4;
pub const EXTLANG: usize = 5;
pub const EXTLANG_TAG: usize = 6;
pub const SCRIPT: usize = 7;
pub const REGION: usize = 8;
pub const VARIANT: usize = 9;
pub const VARIANTS: usize = 10;
pub const EXTENSION: usize = 11;
pub const EXTENSIONS: usize = 12;
pub const EXT_SUBTAG: usize = 13;
pub const PU: usize = 2;
pub const PU_SUBTAG: usize = 14;
pub const NORMAL: usize = 1;
pub const SINGLETON: usize = 16;

thread_local!(static KEEP: std::cell::Cell<Option<&'static [&'static str]>> = const { std::cell::Cell::new(None) });
/// Restricts visits to the parts a property is about (None: all).
pub fn keep(names: Option<&'static [&'static str]>) {
	KEEP.with(|k| k.set(names))
}
pub fn wants(name: &str) -> bool {
	KEEP.with(|k| k.get().is_none_or(|n| n.contains(&name)))
}

pub type V<'a> = Vec<Out<'a>>;
fn o<'a>(v: &mut V<'a>, name: &'static str, ty: usize, text: Option<&'a [u8]>) {
	v.push(Out { name, ty, text })
}

/// Takes at most `cap` items, then reports the iterator as endless; asks for
/// one more item after the end.
pub fn drain<'a, T: ?Sized + 'a>(
	v: &mut V<'a>,
	name: &'static str,
	ty: usize,
	mut it: impl Iterator<Item = &'a T>,
	cap: usize,
	f: impl Fn(&'a T) -> &'a [u8],
) {
	let mut n = 0;
	while let Some(x) = it.next() {
		o(v, name, ty, Some(f(x)));
		n += 1;
		if n > cap {
			panic!("{name}: yields more than {cap} items");
		}
	}
	if it.next().is_some() {
		panic!("{name}: yields an item after the end");
	}
}

/// Derived operations on an iterator in the state (lo, hi) over `all`, as
/// Iteration has them: nth goes on from where it stopped, and every consuming
/// operation sees Rest.
pub fn derived<'a, T: ?Sized + 'a, I: Iterator<Item = &'a T>>(
	m: &Model,
	name: &str,
	all: &[&'a [u8]],
	(lo, hi): (usize, usize),
	mk: impl Fn() -> I,
	f: impl Fn(&'a T) -> &'a [u8],
) {
	let n = all.len();
	let (count, last, rest) = m.it_rest(n, lo, hi);
	let item = |i: usize| if i == 0 { None } else { Some(all[i - 1]) };
	let rest: Vec<&[u8]> = rest.iter().map(|i| all[i - 1]).collect();
	let bad = |op: &str| -> ! { panic!("{name}: {op} on items {lo}..{hi} of {n} is not what repeated next() gives") };
	let (least, most) = mk().size_hint();
	if least > count || most.is_some_and(|h| h < count) {
		panic!("{name}: size_hint ({least}, {most:?}) excludes {count}, items {lo}..{hi} of {n}");
	}
	if mk().count() != count {
		bad("count()")
	}
	if mk().last().map(&f) != item(last) {
		bad("last()")
	}
	if mk().map(&f).ne(rest.iter().copied()) {
		bad("map()")
	}
	if mk().map(&f).collect::<Vec<_>>() != rest {
		bad("collect()")
	}
	let mut seen = vec![];
	mk().for_each(|x| seen.push(f(x)));
	if seen != rest {
		bad("for_each()")
	}
	let seen = mk().fold(vec![], |mut v, x| {
		v.push(f(x));
		v
	});
	if seen != rest {
		bad("fold()")
	}
	for k in 0..=(count + 1).min(3) {
		let (i, lo2, hi2) = m.it_nth(n, lo, hi, false, k);
		let mut it = mk();
		if it.nth(k).map(&f) != item(i) {
			bad(&format!("nth({k})"));
		}
		let (j, _, _) = m.it_call(n, lo2, hi2, false);
		if it.next().map(&f) != item(j) {
			bad(&format!("next() after nth({k})"));
		}
		if mk().skip(k).map(&f).ne(rest.iter().copied().skip(k)) {
			bad(&format!("skip({k})"));
		}
		if mk().take(k).map(&f).ne(rest.iter().copied().take(k)) {
			bad(&format!("take({k})"));
		}
		let mut it = mk();
		let p = it.position(|x| f(x).as_ptr() == all.get(lo + k).map_or(std::ptr::null(), |y| y.as_ptr()));
		if p != (k < count).then_some(k) {
			bad(&format!("position() of item {k}"));
		}
		if it.next().map(&f) != rest.get(k + 1).copied() {
			bad(&format!("next() after position() of item {k}"));
		}
		let x = mk().find(|x| f(x).as_ptr() == all.get(lo + k).map_or(std::ptr::null(), |y| y.as_ptr()));
		if x.map(&f) != rest.get(k).copied() {
			bad(&format!("find() of item {k}"));
		}
	}
	if mk().step_by(2).map(&f).ne(rest.iter().copied().step_by(2)) {
		bad("step_by(2)")
	}
	let mut it = mk();
	if it.any(|x| f(x).is_empty() && false) || it.next().is_some() {
		bad("any()")
	}
	let mut it = mk();
	if !it.all(|_| true) || it.next().is_some() {
		bad("all()")
	}
	if mk().max_by_key(|x| f(x).as_ptr()).map(&f) != rest.iter().copied().max_by_key(|x| x.as_ptr()) {
		bad("max_by_key()")
	}
	if mk().min_by_key(|x| f(x).as_ptr()).map(&f) != rest.iter().copied().min_by_key(|x| x.as_ptr()) {
		bad("min_by_key()")
	}
	let (p, q): (Vec<_>, Vec<_>) = mk().map(&f).partition(|x| x.len() % 2 == 0);
	if p.len() + q.len() != count {
		bad("partition()")
	}
	if mk().reduce(|_, y| y).map(&f) != item(last) {
		bad("reduce()")
	}
}
/// Same, from the other end.
pub fn derived_back<'a, T: ?Sized + 'a, I: DoubleEndedIterator<Item = &'a T>>(
	m: &Model,
	name: &str,
	all: &[&'a [u8]],
	(lo, hi): (usize, usize),
	mk: impl Fn() -> I,
	f: impl Fn(&'a T) -> &'a [u8],
) {
	let n = all.len();
	let (count, _, rest) = m.it_rest(n, lo, hi);
	let item = |i: usize| if i == 0 { None } else { Some(all[i - 1]) };
	let rest: Vec<&[u8]> = rest.iter().rev().map(|i| all[i - 1]).collect();
	let bad = |op: &str| -> ! { panic!("{name}: {op} on items {lo}..{hi} of {n} is not what repeated next_back() gives") };
	for k in 0..=(count + 1).min(3) {
		let (i, lo2, hi2) = m.it_nth(n, lo, hi, true, k);
		let mut it = mk();
		if it.nth_back(k).map(&f) != item(i) {
			bad(&format!("nth_back({k})"));
		}
		for back in [false, true] {
			let mut it = mk();
			it.nth_back(k);
			let (j, _, _) = m.it_call(n, lo2, hi2, back);
			let got = if back { it.next_back() } else { it.next() };
			if got.map(&f) != item(j) {
				bad(&format!("{} after nth_back({k})", if back { "next_back()" } else { "next()" }));
			}
			let (_, lo3, hi3) = m.it_nth(n, lo, hi, false, k);
			let mut it = mk();
			it.nth(k);
			let (j, _, _) = m.it_call(n, lo3, hi3, back);
			let got = if back { it.next_back() } else { it.next() };
			if got.map(&f) != item(j) {
				bad(&format!("{} after nth({k})", if back { "next_back()" } else { "next()" }));
			}
		}
		let x = mk().rfind(|x| f(x).as_ptr() == rest.get(k).map_or(std::ptr::null(), |y| y.as_ptr()));
		if x.map(&f) != rest.get(k).copied() {
			bad(&format!("rfind() of item {k}"));
		}
	}
	if mk().rev().map(&f).ne(rest.iter().copied()) {
		bad("rev()")
	}
	if mk().rev().count() != count {
		bad("rev().count()")
	}
	if mk().rev().last().map(&f) != rest.last().copied() {
		bad("rev().last()")
	}
	let mut seen = vec![];
	mk().rfold((), |_, x| seen.push(f(x)));
	if seen != rest {
		bad("rfold()")
	}
}
/// The derived operations after j calls of next, for small j and past the end.
pub fn iter_ops<'a, T: ?Sized + 'a, I: Iterator<Item = &'a T>>(m: &Model, name: &str, mk: impl Fn() -> I, f: impl Fn(&'a T) -> &'a [u8], cap: usize) {
	let mut all: Vec<&[u8]> = vec![];
	let mut it = mk();
	while let Some(x) = it.next() {
		all.push(f(x));
		if all.len() > cap {
			panic!("{name}: yields more than {cap} items")
		}
	}
	let n = all.len();
	for j in [0, 1, 2, n.saturating_sub(1), n, n + 1] {
		if j < 3 || n > 3 {
			let start = || {
				let mut it = mk();
				for _ in 0..j {
					it.next();
				}
				it
			};
			derived(m, name, &all, (j.min(n), n), start, &f);
		}
	}
}

/// What a value hands out, method by method.  Macros, so that the same calls
/// are made on the borrowed type and (by method resolution) on the owned one.
macro_rules! tag_parts {
	($v:ident, $t:expr, $lang:expr, $cap:expr) => {
		if wants("language") { o($v, "language", LANGUAGE, $lang); }
		if wants("script") { o($v, "script", SCRIPT, $t.script().map(|x| x.as_bytes())); }
		if wants("region") { o($v, "region", REGION, $t.region().map(|x| x.as_bytes())); }
		if wants("variants") { o($v, "variants", VARIANTS, Some($t.variants().as_bytes())); }
		if wants("extensions") { o($v, "extensions", EXTENSIONS, Some($t.extensions().as_bytes())); }
		if wants("private_use") { o($v, "private_use", PU, $t.private_use().map(|x| x.as_bytes())); }
		if wants("private_use_subtags") { drain($v, "private_use_subtags", PU_SUBTAG, $t.private_use_subtags(), $cap, |x| x.as_bytes()); }
	};
}
macro_rules! visit_type {
	(LangTag, $v:ident, $t:expr, $cap:expr) => {
		tag_parts!($v, $t, $t.language().map(|x| x.as_bytes()), $cap);
		if wants("as_normal") { o($v, "as_normal", NORMAL, $t.as_normal().map(|x| x.as_bytes())); }
		if wants("as_private_use") { o($v, "as_private_use", PU, $t.as_private_use().map(|x| x.as_bytes())); }
	};
	(NormalLangTag, $v:ident, $t:expr, $cap:expr) => {
		tag_parts!($v, $t, Some($t.language().as_bytes()), $cap);
	};
	(PrivateUse, $v:ident, $t:expr, $cap:expr) => {
		if wants("iter") { drain($v, "iter", PU_SUBTAG, $t.iter(), $cap, |x| x.as_bytes()); }
	};
	(Language, $v:ident, $t:expr, $cap:expr) => {
		if wants("primary") { o($v, "primary", PRIMARY, Some($t.primary().as_bytes())); }
		if wants("extension") { o($v, "extension", EXTLANG, $t.extension().map(|x| x.as_bytes())); }
		if wants("extension_subtags") { drain($v, "extension_subtags", EXTLANG_TAG, $t.extension_subtags(), $cap, |x| x.as_bytes()); }
	};
	(LanguageExtension, $v:ident, $t:expr, $cap:expr) => {
		if wants("iter") { drain($v, "iter", EXTLANG_TAG, $t.iter(), $cap, |x| x.as_bytes()); }
	};
	(Variants, $v:ident, $t:expr, $cap:expr) => {
		if wants("first") { o($v, "first", VARIANT, $t.first().map(|x| x.as_bytes())); }
		if wants("last") { o($v, "last", VARIANT, $t.last().map(|x| x.as_bytes())); }
		if wants("iter") { drain($v, "iter", VARIANT, $t.iter(), $cap, |x| x.as_bytes()); }
	};
	(Extension, $v:ident, $t:expr, $cap:expr) => {
		if wants("singleton") { o($v, "singleton", SINGLETON, Some(single_text($t.singleton()))); }
		if wants("iter") { drain($v, "iter", EXT_SUBTAG, $t.iter(), $cap, |x| x.as_bytes()); }
	};
	(Extensions, $v:ident, $t:expr, $cap:expr) => {
		if wants("iter") { drain($v, "iter", EXTENSION, $t.iter(), $cap, |x| x.as_bytes()); }
		for e in $t.iter() {
			if wants("singleton") { o($v, "singleton", SINGLETON, Some(single_text(e.singleton()))); }
			if wants("iter") { drain($v, "iter", EXT_SUBTAG, e.iter(), $cap, |x| x.as_bytes()); }
		}
	};
}
macro_rules! visits {
	($ty:expr, $v:ident, $cap:expr, $mk:ident) => {
		match ALL_TYPES[$ty] {
			"LangTag" => { let t = $mk!(LangTag, LangTagBuf); visit_type!(LangTag, $v, t, $cap); }
			"NormalLangTag" => { let t = $mk!(NormalLangTag, NormalLangTagBuf); visit_type!(NormalLangTag, $v, t, $cap); }
			"PrivateUse" => { let t = $mk!(PrivateUse, PrivateUseBuf); visit_type!(PrivateUse, $v, t, $cap); }
			"Language" => { let t = $mk!(Language, LanguageBuf); visit_type!(Language, $v, t, $cap); }
			"LanguageExtension" => { let t = $mk!(LanguageExtension, LanguageExtensionBuf); visit_type!(LanguageExtension, $v, t, $cap); }
			"Variants" => { let t = $mk!(Variants, VariantsBuf); visit_type!(Variants, $v, t, $cap); }
			"Extension" => { let t = $mk!(Extension, ExtensionBuf); visit_type!(Extension, $v, t, $cap); }
			"Extensions" => { let t = $mk!(Extensions, ExtensionsBuf); visit_type!(Extensions, $v, t, $cap); }
			_ if $ty < crate::types::N_STR => (),
			x => panic!("{x}"),
		}
	};
}

pub fn normal<'a>(v: &mut V<'a>, t: &'a NormalLangTag) {
	let cap = t.as_str().len() + 1;
	visit_type!(NormalLangTag, v, t, cap);
}

/// From the borrowed value parsed from `t`.
pub fn impl_visit<'a>(ty: usize, t: &'a [u8]) -> Option<V<'a>> {
	let cap = t.len() + 1;
	let mut v: V = vec![];
	{
		let v = &mut v;
		macro_rules! mk {
			($T:ident, $B:ident) => {
				$T::from_bytes(t).ok()?
			};
		}
		crate::with_ty!(ty, T => { T::from_bytes(t).ok()?; });
		visits!(ty, v, cap, mk);
	}
	Some(v)
}
/// From a borrowed value kept as its pointer.
#[allow(dead_code)]
pub fn held_visit<'a>(ty: usize, p: [usize; 2], cap: usize) -> V<'a> {
	let mut v: V = vec![];
	{
		let v = &mut v;
		macro_rules! mk {
			($T:ident, $B:ident) => {
				unsafe { std::mem::transmute_copy::<[usize; 2], &'a $T>(&p) }
			};
		}
		visits!(ty, v, cap, mk);
	}
	v
}
/// From an owned value; hands each part to `f`.
#[cfg(feature = "std")]
pub fn buf_visit(ty: usize, t: &[u8]) -> Option<Vec<(&'static str, usize, Option<Vec<u8>>)>> {
	let cap = t.len() + 1;
	let mut out = vec![];
	macro_rules! mk {
		($T:ident, $B:ident) => {
			$B::from_bytes(t.to_vec()).ok()?
		};
	}
	macro_rules! go {
		($T:ident, $B:ident) => {{
			let b = mk!($T, $B);
			let mut v: V = vec![];
			{
				let v = &mut v;
				visit_type!($T, v, b, cap);
			}
			for x in v {
				out.push((x.name, x.ty, x.text.map(|t| t.to_vec())));
			}
		}};
	}
	match ALL_TYPES[ty] {
		"LangTag" => go!(LangTag, LangTagBuf),
		"NormalLangTag" => go!(NormalLangTag, NormalLangTagBuf),
		"PrivateUse" => go!(PrivateUse, PrivateUseBuf),
		"Language" => go!(Language, LanguageBuf),
		"LanguageExtension" => go!(LanguageExtension, LanguageExtensionBuf),
		"Variants" => go!(Variants, VariantsBuf),
		"Extension" => go!(Extension, ExtensionBuf),
		"Extensions" => go!(Extensions, ExtensionsBuf),
		_ => (),
	}
	Some(out)
}

/// A singleton as text (its displayed form is checked to be the same).
pub fn single_text(s: Singleton) -> &'static [u8] {
	static ALL: [u8; 256] = {
		let mut a = [0u8; 256];
		let mut i = 0;
		while i < 256 {
			a[i] = i as u8;
			i += 1
		}
		a
	};
	let b = s.unwrap() as usize;
	&ALL[b..b + 1]
}

/// What the specification says the same value hands out.  None if `t` is not
/// well-formed.
pub fn spec_visit<'a>(m: &Model, ty: usize, t: &'a [u8]) -> Option<V<'a>> {
	if !m.well(ty, t) {
		return None;
	}
	let mut v: V = vec![];
	let v = &mut v;
	let at = |r: (usize, usize)| &t[r.0..r.1];
	let all = |v: &mut V<'a>, name, ty, rs: Vec<(usize, usize)>| {
		for r in rs {
			o(v, name, ty, Some(at(r)));
		}
	};
	match ALL_TYPES[ty] {
		"LangTag" => {
			if m.well(NORMAL, t) {
				*v = spec_visit(m, NORMAL, t).unwrap();
				o(v, "as_normal", NORMAL, Some(t));
			} else {
				o(v, "language", LANGUAGE, None);
				o(v, "script", SCRIPT, None);
				o(v, "region", REGION, None);
				o(v, "variants", VARIANTS, Some(&t[..0]));
				o(v, "extensions", EXTENSIONS, Some(&t[..0]));
				o(v, "private_use", PU, None);
				o(v, "as_normal", NORMAL, None);
			}
			o(v, "as_private_use", PU, m.well(PU, t).then_some(t));
		}
		"NormalLangTag" => {
			let p = m.parse(ty, t).unwrap();
			let sp = |r: &str| span(&p, m.rule(r)).map(at);
			o(v, "language", LANGUAGE, sp("language"));
			o(v, "script", SCRIPT, sp("script"));
			o(v, "region", REGION, sp("region"));
			o(v, "variants", VARIANTS, Some(sp("variant").unwrap_or(&t[..0])));
			o(v, "extensions", EXTENSIONS, Some(sp("extension").unwrap_or(&t[..0])));
			o(v, "private_use", PU, sp("privateuse"));
			all(v, "private_use_subtags", PU_SUBTAG, runs(&p, m.rule("privateuse-subtag")));
		}
		"PrivateUse" => {
			let p = m.parse(ty, t).unwrap();
			all(v, "iter", PU_SUBTAG, runs(&p, m.rule("privateuse-subtag")));
		}
		"Language" => {
			let p = m.parse(ty, t).unwrap();
			let prim = m.rule("primary23") | m.rule("primary4") | m.rule("primary58");
			o(v, "primary", PRIMARY, span(&p, prim).map(at));
			o(v, "extension", EXTLANG, span(&p, m.rule("extlang")).map(at));
			all(v, "extension_subtags", EXTLANG_TAG, runs(&p, m.rule("extlang-tag")));
		}
		"LanguageExtension" => {
			let p = m.parse(ty, t).unwrap();
			all(v, "iter", EXTLANG_TAG, runs(&p, m.rule("extlang-tag")));
		}
		"Variants" => {
			let p = m.parse(ty, t).unwrap();
			let rs = runs(&p, m.rule("variant"));
			o(v, "first", VARIANT, rs.first().map(|r| at(*r)));
			o(v, "last", VARIANT, rs.last().map(|r| at(*r)));
			all(v, "iter", VARIANT, rs);
		}
		"Extension" => {
			let p = m.parse(ty, t).unwrap();
			o(v, "singleton", SINGLETON, span(&p, m.rule("singleton")).map(at));
			all(v, "iter", EXT_SUBTAG, runs(&p, m.rule("extension-subtag")));
		}
		"Extensions" => {
			let p = m.parse(ty, t).unwrap();
			let es = runs(&p, m.rule("extension"));
			all(v, "iter", EXTENSION, es.clone());
			for (a, b) in es {
				let q = &p[a..b];
				let sh = |r: (usize, usize)| (r.0 + a, r.1 + a);
				o(v, "singleton", SINGLETON, span(q, m.rule("singleton")).map(sh).map(at));
				all(v, "iter", EXT_SUBTAG, runs(q, m.rule("extension-subtag")).into_iter().map(sh).collect());
			}
		}
		_ => (),
	}
	Some(std::mem::take(v))
}

pub fn describe(v: &[Out]) -> String {
	v.iter()
		.map(|x| format!("{}={}", x.name, x.text.map(|t| format!("\"{}\"", crate::core::show(t))).unwrap_or("none".into())))
		.collect::<Vec<_>>()
		.join(" ")
}
