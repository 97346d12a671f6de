//! Building: pieces the specification's Compose graph puts together are
//! joined, and the result is taken apart again.
use crate::checks::q;
use crate::core::*;
use crate::model::*;
use crate::types::*;
use crate::visit::*;
use crate::with_ty;
use langtag::*;

macro_rules! ensure {
	($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)) } };
}

/// The text of a piece as the real value shows it; None when it is not a value.
fn shown(m: &Model, ty: Option<usize>, t: &[u8]) -> Option<String> {
	let s = std::str::from_utf8(t).ok()?;
	let Some(ty) = ty else { return t.eq_ignore_ascii_case(b"x").then(|| s.to_owned()) };
	if !m.well(ty, t) {
		return None;
	}
	if ty == SINGLETON {
		return Some(s.to_owned());
	}
	with_ty!(ty, T => { let _: &T = T::ref_str(0, s).ok()?; });
	Some(s.to_owned())
}

/// Cases that were not passed over, by form.
pub static JUDGED: [std::sync::atomic::AtomicU64; 8] = [const { std::sync::atomic::AtomicU64::new(0) }; 8];
/// nums: form, then the stage of each piece.
pub fn compose(m: &Model, x: &[&[u8]], n: &[i64]) -> Res {
	let f = &m.forms[n[0] as usize];
	let at: Vec<usize> = n[1..].iter().map(|k| *k as usize).collect();
	if at.last().is_none_or(|k| *k < f.done) {
		return Ok(());
	}
	let mut stage = 0;
	let mut text = String::new();
	let mut put: Vec<Vec<&[u8]>> = vec![vec![]; f.stages.len() + 1];
	for (t, &k) in x.iter().zip(&at) {
		let s = &f.stages[k - 1];
		if !f.edges.contains(&(stage, k)) || s.max > 0 && put[k].len() >= s.max || s.short > 0 && stage != k && text.len() > s.short {
			return Ok(());
		}
		// pieces that are not (C01, C02 say so) are not put in
		let Some(p) = shown(m, s.ty, t) else { return Ok(()) };
		if !text.is_empty() {
			text.push('-')
		}
		text.push_str(&p);
		put[k].push(t);
		stage = k;
	}
	JUDGED[n[0] as usize % 8].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
	let t = text.as_bytes();
	let what = || x.iter().map(|p| q(p)).collect::<Vec<_>>().join(" + ");
	for &ty in &f.types {
		let name = ALL_TYPES[ty];
		ensure!(with_ty!(ty, T => T::ref_str(1, &text).is_ok() && T::ref_bytes(1, t).is_ok()), "{}: {} is not a {name}", what(), q(t));
		let got = impl_visit(ty, t).unwrap();
		judge(f, &put, ty, &got, &|| format!("{name} {}, built of {}", q(t), what()))?;
		#[cfg(feature = "std")]
		if owned() {
			let got = buf_visit(ty, t);
			ensure!(got.is_some(), "{}: {} is not a {name}Buf", what(), q(t));
			let got = got.unwrap();
			let got: Vec<Out> = got.iter().map(|x| Out { name: x.0, ty: x.1, text: x.2.as_deref() }).collect();
			judge(f, &put, ty, &got, &|| format!("{name}Buf {}, built of {}", q(t), what()))?;
		}
	}
	lists(f, &put, &text, &what)
}

/// The parts, and the items of the value itself.
fn judge(f: &Form, put: &[Vec<&[u8]>], ty: usize, got: &[Out], who: &dyn Fn() -> String) -> Res {
	for (i, s) in f.stages.iter().enumerate() {
		let p = &put[i + 1];
		if !s.acc.is_empty() {
			if let Some(o) = got.iter().find(|o| o.name == s.acc) {
				let want = p.join(&b'-');
				let ok = match o.text {
					None => p.is_empty() && !matches!(s.acc.as_str(), "variants" | "extensions"),
					Some([]) => p.is_empty() && matches!(s.acc.as_str(), "variants" | "extensions"),
					Some(t) => !p.is_empty() && t == want,
				};
				ensure!(ok, "{}: {} is {}, put in: {}", who(), s.acc, o.text.map(q).unwrap_or("none".into()), q(&want));
			}
		}
		if s.items == "result" && ty == f.own {
			let item = match ALL_TYPES[ty] {
				"PrivateUse" => PU_SUBTAG,
				"LanguageExtension" => EXTLANG_TAG,
				"Variants" => VARIANT,
				"Extensions" => EXTENSION,
				"Extension" => EXT_SUBTAG,
				x => panic!("items of {x}"),
			};
			same(p, got.iter().filter(|o| o.name == "iter" && o.ty == item).map(|o| o.text.unwrap()), "the items", who)?;
		}
	}
	Ok(())
}
fn same<'a>(put: &[&[u8]], got: impl Iterator<Item = &'a [u8]>, what: &str, who: &dyn Fn() -> String) -> Res {
	let got: Vec<&[u8]> = got.take(put.len() + 1).collect();
	ensure!(got == put, "{}: {what} are {:?}", who(), got.iter().map(|t| q(t)).collect::<Vec<_>>());
	Ok(())
}
/// The items of the lists the value hands out.
fn lists(f: &Form, put: &[Vec<&[u8]>], text: &str, what: &dyn Fn() -> String) -> Res {
	let who = || format!("{} built of {}", q(text.as_bytes()), what());
	let stage = |n: &str| &put[1 + f.stages.iter().position(|s| s.name == n).unwrap()];
	match f.name.as_str() {
		"tag" => {
			let t = NormalLangTag::new(text).unwrap_or_else(|_| panic!());
			let l = LangTag::new(text).unwrap_or_else(|_| panic!());
			for (v, e, i) in [
				(t.variants(), t.extensions(), t.private_use_subtags()),
				(l.variants(), l.extensions(), l.private_use_subtags()),
			] {
				same(stage("variants"), v.iter().map(|x| x.as_bytes()), "the variants", &who)?;
				let mut r: Vec<&[u8]> = v.iter().rev().take(text.len()).map(|x| x.as_bytes()).collect();
				r.reverse();
				same(stage("variants"), r.into_iter(), "the variants from the back", &who)?;
				same(stage("extensions"), e.iter().map(|x| x.as_bytes()), "the extensions", &who)?;
				for x in stage("extensions") {
					let want = stage("extensions").iter().find(|y| y[0].eq_ignore_ascii_case(&x[0])).unwrap();
					let got = Singleton::new(x[0]).ok().and_then(|s| e.get(s)).map(|x| x.as_bytes());
					ensure!(got == Some(*want), "{}: extension {} is {}", who(), x[0] as char, got.map(q).unwrap_or("none".into()));
				}
				let subtags: Vec<&[u8]> = stage("private_use").iter().flat_map(|p| p.split(|b| *b == b'-').skip(1)).collect();
				same(&subtags, i.map(|x| x.as_bytes()), "the private use subtags", &who)?;
			}
			ensure!(l.is_normal() && l.as_normal().is_some_and(|n| n.as_bytes() == text.as_bytes()), "{}: not a normal tag", who());
		}
		"language" => {
			let l = Language::new(text).unwrap_or_else(|_| panic!());
			same(stage("extlangs"), l.extension_subtags().map(|x| x.as_bytes()), "the extended subtags", &who)?;
			if let Some(x) = l.extension() {
				same(stage("extlangs"), x.iter().map(|x| x.as_bytes()), "the items of extension()", &who)?;
			}
		}
		"private_use" => {
			let l = LangTag::new(text).unwrap_or_else(|_| panic!());
			let p = l.as_private_use();
			ensure!(l.is_private_use() && p.is_some(), "{}: not a private use tag", who());
			same(stage("pusubtags"), p.unwrap().iter().map(|x| x.as_bytes()), "the subtags", &who)?;
		}
		_ => (),
	}
	Ok(())
}
