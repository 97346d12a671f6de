//! Many threads use the crate at once (module Sharing): schedules drawn by TLC
//! are executed, and what was answered to which question about which text is
//! recorded.  Two answers to one question are never right, whatever they are.
use crate::core::*;
use crate::gen_ as g;
use crate::model::*;
use crate::types::*;
use crate::visit::*;
use crate::with_ty;
use langtag::*;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::mpsc::{Receiver, Sender, channel};
use std::sync::{Arc, Mutex};

const BUFFERS: usize = 3;
const THREADS: usize = 4;

/// Another text, a function of this one.
fn other(t: &[u8]) -> Vec<u8> {
	let mut o: Vec<u8> = t.iter().map(|b| if b.is_ascii_alphabetic() { b ^ 0x20 } else { *b }).collect();
	if t.len() % 3 == 1 {
		if let Some(b) = o.last_mut() {
			*b = if *b == b'a' { b'b' } else { b'a' };
		}
	}
	if t.len() % 3 == 2 {
		o.extend_from_slice(b"-x-a");
	}
	o
}
/// A borrowed value kept across steps: its (fat) pointer.
type Held = Option<[usize; 2]>;
fn parse<T: Ty + ?Sized>(t: &[u8]) -> Held {
	let v: &T = T::ref_bytes(0, t).ok()?;
	assert_eq!(std::mem::size_of::<&T>(), std::mem::size_of::<[usize; 2]>());
	Some(unsafe { std::mem::transmute_copy::<&T, [usize; 2]>(&v) })
}
unsafe fn held<'a, T: Ty + ?Sized>(h: [usize; 2]) -> &'a T {
	unsafe { std::mem::transmute_copy::<[usize; 2], &'a T>(&h) }
}
fn opt(t: Option<&[u8]>) -> String {
	t.map(crate::checks::q).unwrap_or("none".into())
}

/// The answer to a question about a text, lying at `t`, parsed as `h`.
pub fn answer(ty: usize, t: &[u8], h: Held, question: i64) -> String {
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| answer_of(ty, t, h, question)));
	r.unwrap_or_else(|e| panic_text(e))
}
fn answer_of(ty: usize, t: &[u8], h: Held, question: i64) -> String {
	let mut o = String::new();
	keep(None);
	let oth = other(t);
	match question {
		// may it be parsed?
		1 => with_ty!(ty, T => {
			for i in 0..REF_BYTES.len() {
				let r = T::ref_bytes(i, t);
				let _ = write!(o, "{}:{} ", r.is_ok(), r.map(|v| v.text().to_vec()).unwrap_or_else(|e| e.to_vec()) == t);
			}
			if let Ok(s) = std::str::from_utf8(t) {
				for i in 0..REF_STR.len() {
					let _ = write!(o, "{} ", T::ref_str(i, s).is_ok());
				}
				let _ = write!(o, "{} ", T::buf_parse(s).is_ok());
			}
			let _ = write!(o, "{}", T::buf_vec(0, t.to_vec()).is_ok());
		}),
		// its parts and items
		2 => match h {
			Some(p) => o = describe(&held_visit(ty, p, t.len() + 1)),
			None => o = impl_visit(ty, t).map(|v| describe(&v)).unwrap_or("rejected".into()),
		},
		3 => with_ty!(ty, T => {
			if let Some(p) = h {
				let v: &T = unsafe { held(p) };
				let _ = write!(o, "{v} {v:?} {:?} {:x} {:x} ", hash_calls(v), hash_sip(v), hash_fnv(v));
				v.texts(&mut |l, b| { let _ = write!(o, "{l}={} ", show(b)); });
			}
		}),
		4 => with_ty!(ty, T => {
			if let Some(p) = h {
				let v: &T = unsafe { held(p) };
				v.eq_text(&oth, &mut |l, r| { let _ = write!(o, "{l}:{r} "); });
				v.eq_text_rev(&oth, &mut |l, r| { let _ = write!(o, "{l}:{r} "); });
				v.cmp_text(&oth, &mut |l, r| { let _ = write!(o, "{l}:{r:?} "); });
				v.cmp_text_rev(&oth, &mut |l, r| { let _ = write!(o, "{l}:{r:?} "); });
				if let Ok(w) = T::ref_bytes(0, &oth) {
					v.eq_ref(w, &mut |l, r| { let _ = write!(o, "{l}:{r} "); });
					v.cmp_ref(w, &mut |l, r| { let _ = write!(o, "{l}:{r:?} "); });
					let (a, b) = (v.own(), w.own());
					T::eq_buf(v, &a, w, &b, &mut |l, r| { let _ = write!(o, "{l}:{r} "); });
					T::cmp_buf(v, &a, w, &b, &mut |l, r| { let _ = write!(o, "{l}:{r:?} "); });
				}
			}
		}),
		// what kind of tag, which extension
		5 => {
			let gets = |o: &mut String, e: &Extensions| {
				for b in 0..=127u8 {
					if let Ok(s) = Singleton::new(b) {
						if let Some(x) = e.get(s) {
							let _ = write!(o, "{}:{} {:?}", b as char, opt(Some(x.as_bytes())), x.singleton().unwrap());
						}
					}
				}
			};
			match (h, ALL_TYPES[ty]) {
				(Some(p), "LangTag") => {
					let v: &LangTag = unsafe { held(p) };
					let _ = write!(o, "{:?} {} {} {} ", v.kind(), v.is_normal(), v.is_private_use(), v.is_grandfathered());
					let x = v.as_typed();
					let _ = write!(o, "{:?} {} ", x.kind(), opt(x.language().map(|l| l.as_bytes())));
					let _ = write!(o, "{} ", opt(v.as_grandfathered().as_ref().map(|g| g.as_bytes())));
					let _ = write!(o, "{} {} ", opt(v.as_normal().map(|g| g.as_bytes())), opt(v.as_private_use().map(|g| g.as_bytes())));
					gets(&mut o, v.extensions());
				}
				(Some(p), "NormalLangTag") => gets(&mut o, unsafe { held::<NormalLangTag>(p) }.extensions()),
				(Some(p), "Extensions") => gets(&mut o, unsafe { held::<Extensions>(p) }),
				_ => (),
			}
			let _ = write!(o, "{}", opt(GrandfatheredLangTag::new(t).ok().as_ref().map(|g| g.as_bytes())));
		}
		// owned
		6 => {
			match buf_visit(ty, t) {
				None => o.push_str("rejected"),
				Some(v) => {
					let v: Vec<Out> = v.iter().map(|x| Out { name: x.0, ty: x.1, text: x.2.as_deref() }).collect();
					o = describe(&v);
				}
			}
			with_ty!(ty, T => {
				if let Some(p) = h {
					let v: &T = unsafe { held(p) };
					let a = v.own();
					let _ = write!(o, "{a} {a:?} {:?} {}", hash_calls(&a), a.clone() == a);
					if ty == 0 {
						let b = LangTagBuf::from_bytes(t.to_vec()).unwrap_or_else(|_| panic!());
						let _ = write!(o, "{:?} {}", b.kind(), opt(b.as_grandfathered().as_ref().map(|g| g.as_bytes())));
					}
				}
			});
		}
		7 => with_ty!(ty, T => {
			if let Some(p) = h {
				let v: &T = unsafe { held(p) };
				let _ = write!(o, "{:?} ", serde_json::to_string(v).ok());
			}
			if let Ok(s) = std::str::from_utf8(t) {
				use serde::Deserialize;
				let d = serde::de::value::BorrowedStrDeserializer::<serde::de::value::Error>::new(s);
				let _ = write!(o, "{} ", <&T>::deserialize(d).is_ok());
				let j = serde_json::to_string(s).unwrap();
				let _ = write!(o, "{}", serde_json::from_str::<<T as OwnTy>::Buf>(&j).is_ok());
			}
		}),
		// from the other end
		_ => {
			let mut back = |v: &Variants| {
				let mut it = v.iter();
				let mut n = 0;
				while let Some(x) = if n % 3 == 1 { it.next() } else { it.next_back() } {
					let _ = write!(o, "{} ", x);
					n += 1;
					if n > t.len() { break }
				}
			};
			match (h, ALL_TYPES[ty]) {
				(Some(p), "LangTag") => back(unsafe { held::<LangTag>(p) }.variants()),
				(Some(p), "NormalLangTag") => back(unsafe { held::<NormalLangTag>(p) }.variants()),
				(Some(p), "Variants") => back(unsafe { held::<Variants>(p) }),
				_ => (),
			}
			if let [b] = t {
				let _ = write!(o, "{:?}", Singleton::new(*b).ok().map(|s| (s.unwrap(), hash_calls(&s))));
			}
		}
	}
	o
}

/// The number of single calls `call` knows.
pub const CALLS: usize = 24;
/// One call only, for when it matters how little happens beside it.
fn call(ty: usize, t: &[u8], h: Held, oth: &[u8], k: usize) -> u64 {
	fn part(t: &[u8], p: Option<&[u8]>) -> u64 {
		match p {
			None => 1,
			Some([]) => 2,
			Some(p) => (p.as_ptr() as u64).wrapping_sub(t.as_ptr() as u64).wrapping_mul(1009).wrapping_add(p.len() as u64 + 3),
		}
	}
	macro_rules! both {
		($v:ident, $e:expr) => {
			match (h, ty) {
				(Some(p), 0) => {
					let $v: &LangTag = unsafe { held(p) };
					$e
				}
				(Some(p), 1) => {
					let $v: &NormalLangTag = unsafe { held(p) };
					$e
				}
				_ => 0,
			}
		};
	}
	let tag: Option<&LangTag> = if ty == 0 { h.map(|p| unsafe { held(p) }) } else { None };
	let count = |n: usize, i: usize| if n > t.len() { panic!("endless") } else { i };
	match k {
		0 => with_ty!(ty, T => T::ref_bytes(0, t).is_ok() as u64),
		1 => with_ty!(ty, T => std::str::from_utf8(t).map(|s| T::ref_str(0, s).is_ok() as u64).unwrap_or(2)),
		2 => with_ty!(ty, T => h.map(|p| unsafe { held::<T>(p) }).map(|v| part(t, Some(v.text()))).unwrap_or(0)),
		3 => with_ty!(ty, T => h.map(|p| unsafe { held::<T>(p) }).map(|v| hash_fnv(v)).unwrap_or(0)),
		4 => with_ty!(ty, T => match (h, T::ref_bytes(0, oth)) {
			(Some(p), Ok(o)) => (unsafe { held::<T>(p) } == o) as u64,
			_ => 2,
		}),
		5 => with_ty!(ty, T => match (h, T::ref_bytes(0, oth)) {
			(Some(p), Ok(o)) => unsafe { held::<T>(p) }.cmp(o) as i8 as u8 as u64,
			_ => 2,
		}),
		6 => both!(v, { #[allow(unused)] fn o<'a, A: Into<Option<&'a Language>>>(a: A) -> Option<&'a Language> { a.into() } part(t, o(v.language()).map(|x| x.as_bytes())) }),
		7 => both!(v, part(t, v.script().map(|x| x.as_bytes()))),
		8 => both!(v, part(t, v.region().map(|x| x.as_bytes()))),
		9 => both!(v, part(t, Some(v.variants().as_bytes()))),
		10 => both!(v, part(t, Some(v.extensions().as_bytes()))),
		11 => both!(v, part(t, v.private_use().map(|x| x.as_bytes()))),
		12 => both!(v, v.private_use_subtags().enumerate().fold(0, |a, (i, x)| a * 31 % 1_000_000_007 + part(t, Some(x.as_bytes())) % 1000 + count(i, i) as u64)),
		13 => both!(v, v.variants().iter().enumerate().fold(0, |a, (i, x)| a * 31 % 1_000_000_007 + part(t, Some(x.as_bytes())) % 1000 + count(i, i) as u64)),
		14 => both!(v, v.variants().iter().rev().enumerate().fold(0, |a, (i, x)| a * 31 % 1_000_000_007 + part(t, Some(x.as_bytes())) % 1000 + count(i, i) as u64)),
		15 => both!(v, v.extensions().iter().enumerate().fold(0, |a, (i, x)| a * 31 % 1_000_000_007 + part(t, Some(x.as_bytes())) % 1000 + count(i, i) as u64)),
		16 => both!(v, {
			let l = t.iter().rev().find(|b| b.is_ascii_alphanumeric()).copied().unwrap_or(b'a');
			let s = t.windows(3).find(|w| w[0] == b'-' && w[2] == b'-').map(|w| w[1]).unwrap_or(l);
			Singleton::new(s).ok().map(|s| part(t, v.extensions().get(s).map(|x| x.as_bytes()))).unwrap_or(0)
		}),
		17 => tag.map(|v| v.kind() as u64).unwrap_or(9),
		18 => tag.map(|v| v.as_grandfathered().map(|g| g as u64 + 1).unwrap_or(0)).unwrap_or(99),
		19 => tag.map(|v| v.is_normal() as u64 + 2 * v.is_private_use() as u64 + 4 * v.is_grandfathered() as u64).unwrap_or(9),
		20 => GrandfatheredLangTag::new(t).map(|g| g as u64 + 1).unwrap_or(0),
		21 => tag.map(|v| match v.as_typed() {
			TypedLangTag::Normal(n) => part(t, Some(n.as_bytes())),
			TypedLangTag::PrivateUse(n) => 5 + part(t, Some(n.as_bytes())),
			TypedLangTag::Grandfathered(g) => g as u64,
		}).unwrap_or(0),
		22 => with_ty!(ty, T => T::buf_vec(0, t.to_vec()).map(|b| hash_fnv(&b)).unwrap_or(1)),
		_ => match (h, ALL_TYPES[ty]) {
			(Some(p), "Language") => {
				let v: &Language = unsafe { held(p) };
				part(t, Some(v.primary().as_bytes())) ^ part(t, v.extension().map(|x| x.as_bytes())).rotate_left(20)
			}
			(Some(p), "Extension") => unsafe { held::<Extension>(p) }.iter().fold(0, |a, x| a * 31 % 1_000_000_007 + part(t, Some(x.as_bytes())) % 1000),
			(Some(p), "PrivateUse") => unsafe { held::<PrivateUse>(p) }.iter().fold(0, |a, x| a * 31 % 1_000_000_007 + part(t, Some(x.as_bytes())) % 1000),
			(Some(p), "Extensions") => unsafe { held::<Extensions>(p) }.iter().fold(0, |a, x| a * 31 % 1_000_000_007 + part(t, Some(x.as_bytes())) % 1000),
			(Some(p), "LanguageExtension") => unsafe { held::<LanguageExtension>(p) }.iter().fold(0, |a, x| a * 31 % 1_000_000_007 + part(t, Some(x.as_bytes())) % 1000),
			_ => 0,
		},
	}
}
/// As `call`; u64::MAX - 1 is a panic.
fn called(ty: usize, t: &[u8], h: Held, oth: &[u8], k: usize) -> u64 {
	std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(ty, t, h, oth, k))).unwrap_or(u64::MAX - 1)
}
fn call_name(k: usize) -> &'static str {
	["from bytes", "from str", "text", "hash", "==", "cmp", "language", "script", "region", "variants", "extensions", "private_use",
	"private_use_subtags", "variants, iterated", "variants, iterated back", "extensions, iterated", "extensions.get", "kind",
	"as_grandfathered", "is_..", "GrandfatheredLangTag::new", "as_typed", "owned and hashed", "items"][k]
}
/// Several threads make one call again and again, each about a text of its own.
fn hammer(ty: usize, texts: &[Vec<u8>], k: usize, threads: usize, times: usize) -> Option<String> {
	let oths: Vec<Vec<u8>> = texts.iter().map(|t| other(t)).collect();
	let hs: Vec<Held> = texts.iter().map(|t| std::panic::catch_unwind(|| with_ty!(ty, T => parse::<T>(t))).unwrap_or(None)).collect();
	let want: Vec<u64> = (0..texts.len()).map(|i| called(ty, &texts[i], hs[i], &oths[i], k)).collect();
	let bad = AtomicU64::new(u64::MAX);
	std::thread::scope(|sc| {
		for id in 0..threads {
			let (oths, hs, want, bad) = (&oths, &hs, &want, &bad);
			sc.spawn(move || {
				let i = id % texts.len();
				for _ in 0..times {
					if called(ty, &texts[i], hs[i], &oths[i], k) != want[i] {
						bad.store(i as u64, Relaxed);
						return;
					}
				}
			});
		}
	});
	let i = bad.into_inner() as usize;
	(i < texts.len()).then(|| {
		format!("{} {}: {} answers differently while other threads ask about {}", ALL_TYPES[ty], crate::checks::q(&texts[i]), call_name(k),
			texts.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, t)| crate::checks::q(t)).collect::<Vec<_>>().join(", "))
	})
}

#[derive(Clone, Debug)]
enum Ev {
	Write(usize, usize),
	Parse(usize, usize),
	Drop(usize),
	Ask(usize, i64),
}
pub struct Schedule {
	mem: Vec<usize>,
	evs: Vec<Ev>,
	raw: Vec<Value>,
}
pub fn schedules(lines: &[Value]) -> Vec<Schedule> {
	let mut out: Vec<Schedule> = vec![];
	for v in lines {
		if v[0] == 1 {
			let mem = v[2].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
			out.push(Schedule { mem, evs: vec![], raw: vec![] });
		}
		let e = &v[1];
		let n = |k: &str| e[k].as_u64().unwrap() as usize;
		let s = out.last_mut().expect("schedule");
		s.evs.push(match e["e"].as_str().unwrap() {
			"write" => Ev::Write(n("b") - 1, n("x")),
			"parse" => Ev::Parse(n("t") - 1, n("b") - 1),
			"drop" => Ev::Drop(n("t") - 1),
			_ => Ev::Ask(n("t") - 1, n("q") as i64),
		});
		s.raw.push(v.clone());
	}
	out
}

/// The texts a schedule is about: 0, 2, 4, 6 of one length, 1, 3, 5, 7 of another.
fn cast(pools: &[Vec<Vec<Vec<u8>>>], rng: &mut Rng) -> (usize, Vec<Vec<u8>>) {
	let ty = if rng.chance(1, 2) { rng.below(2) } else { rng.below(N_STR) };
	let by_len = &pools[ty];
	let mut texts = vec![vec![]; 8];
	let registered: Vec<&Vec<u8>> = if ty == 0 && rng.chance(1, 3) { model().gf.iter().map(|x| &x.0).collect() } else { vec![] };
	for class in 0..2 {
		let one = if registered.is_empty() { None } else { Some(*rng.pick(&registered)) };
		let group = loop {
			let i = rng.below(by_len.len());
			if one.is_some_and(|t| by_len[i][0].len() != t.len()) {
				continue;
			}
			if !by_len[i].is_empty() {
				break &by_len[i];
			}
		};
		let mut have: Vec<Vec<u8>> = vec![];
		for k in 0..4 {
			let mut t = rng.pick(group).clone();
			if let (Some(g), 0) = (one, k) {
				t = if rng.chance(1, 2) { g.clone() } else { g::recase(rng, g) };
			}
			for _ in 0..3 {
				if k > 0 && rng.chance(1, 3) {
					t = have[rng.below(k)].clone();
					let n = t.len();
					match rng.below(6) {
						0 | 1 => t = g::recase(rng, &t),
						2 => {
							// two subtags change places
							let mut p: Vec<Vec<u8>> = t.split(|b| *b == b'-').map(|x| x.to_vec()).collect();
							let (i, j) = (rng.below(p.len()), rng.below(p.len()));
							p.swap(i, j);
							t = p.join(&b'-');
						}
						3 => {
							let i = rng.below(n);
							t[i] = g::alnum(rng)
						}
						4 => {
							let i = rng.below(n);
							t[i] = b'-'
						}
						_ => {
							if let Some(i) = t.iter().position(|b| *b == b'-') {
								if i + 1 < n {
									t.swap(i, i + 1)
								}
							}
						}
					}
				}
				if !have.contains(&t) {
					break;
				}
				t = rng.pick(group).clone();
			}
			have.push(t);
		}
		for (k, t) in have.into_iter().enumerate() {
			texts[2 * k + class] = t;
		}
	}
	(ty, texts)
}

/// Everything said so far: (text, question) -> answer.
#[derive(Default)]
pub struct Said {
	ids: Mutex<HashMap<(usize, Vec<u8>), u32>>,
	names: Mutex<Vec<(usize, Vec<u8>)>>,
	answers: [Mutex<HashMap<(u32, i64), Arc<str>>>; 16],
	pub bad: Mutex<Option<Value>>,
	pub asked: AtomicU64,
	interned: Mutex<HashMap<Arc<str>, u32>>,
}
impl Said {
	fn id(&self, ty: usize, t: &[u8]) -> u32 {
		let mut ids = self.ids.lock().unwrap();
		let n = ids.len() as u32;
		*ids.entry((ty, t.to_vec())).or_insert_with(|| {
			self.names.lock().unwrap().push((ty, t.to_vec()));
			n
		})
	}
	/// A number for the answer (never 0).
	fn intern(&self, a: &str) -> u32 {
		let mut m = self.interned.lock().unwrap();
		let n = m.len() as u32 + 1;
		*m.entry(a.into()).or_insert(n)
	}
	fn say(&self, x: u32, q: i64, a: &str, how: &str) -> Option<String> {
		self.asked.fetch_add(1, Relaxed);
		let mut m = self.answers[(x as usize * 8 + q as usize) % 16].lock().unwrap();
		let before = m.entry((x, q)).or_insert_with(|| a.into());
		if &**before == a {
			return None;
		}
		let (ty, t) = self.names.lock().unwrap()[x as usize].clone();
		Some(format!(
			"{} {}: question {q} ({}) is answered in two ways: first {}, then ({how}) {}",
			ALL_TYPES[ty],
			crate::checks::q(&t),
			["", "may it be parsed", "parts and items", "hash and display", "comparisons", "kind and lookups", "as an owned value", "serialization", "iteration from both ends"][q as usize],
			clip(before, a),
			clip(a, before)
		))
	}
}
fn clip(a: &str, b: &str) -> String {
	let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
	let mut i = i.saturating_sub(40);
	while !a.is_char_boundary(i) {
		i -= 1
	}
	format!("{}{}", if i > 0 { ".." } else { "" }, a[i..].chars().take(160).collect::<String>())
}

enum Job {
	Parse(usize, usize, usize),
	Drop,
	/// question, how often
	Ask(i64, usize),
}
struct Worker {
	tx: Sender<Vec<Job>>,
	rx: Receiver<Vec<(i64, String)>>,
}
/// A thread: it has a value, or not, and answers.
fn worker() -> Worker {
	let (tx, jobs) = channel::<Vec<Job>>();
	let (out, rx) = channel();
	std::thread::spawn(move || {
		let mut at: (usize, &[u8], Held) = (0, &[], None);
		while let Ok(js) = jobs.recv() {
			let mut r: Vec<(i64, String)> = vec![];
			for j in js {
				match j {
					Job::Parse(ty, p, n) => {
						let t: &'static [u8] = unsafe { std::slice::from_raw_parts(p as *const u8, n) };
						let h = std::panic::catch_unwind(|| with_ty!(ty, T => parse::<T>(t))).unwrap_or(None);
						at = (ty, t, h);
					}
					Job::Drop => at = (0, &[], None),
					Job::Ask(q, n) => {
						let a = answer(at.0, at.1, at.2, q);
						for _ in 1..n {
							let b = answer(at.0, at.1, at.2, q);
							if a != b {
								r.push((q, b));
								break;
							}
						}
						r.push((q, a));
					}
				}
			}
			if out.send(r).is_err() {
				break;
			}
		}
	});
	Worker { tx, rx }
}

pub struct Stage {
	workers: Vec<Worker>,
	mem: Vec<Vec<u64>>,
}
impl Stage {
	pub fn new() -> Self {
		Stage { workers: (0..THREADS).map(|_| worker()).collect(), mem: vec![vec![0; 1024]; BUFFERS] }
	}
	fn buf(&mut self, b: usize) -> *mut u8 {
		self.mem[b].as_mut_ptr() as *mut u8
	}
	fn write(&mut self, b: usize, t: &[u8]) {
		let p = self.buf(b);
		unsafe { std::ptr::copy_nonoverlapping(t.as_ptr(), p, t.len()) };
	}

	/// Executes a schedule.  `free`: the threads run freely between two writes.
	/// Otherwise what happened is recorded.
	fn run(&mut self, s: &Schedule, ty: usize, texts: &[Vec<u8>], said: &Said, free: usize, trace: Option<&mut Vec<Value>>) {
		let ids: Vec<u32> = texts.iter().map(|t| said.id(ty, t)).collect();
		let mut mem = s.mem.clone();
		let mut val: Vec<Option<usize>> = vec![None; THREADS];
		let mut log: Vec<Value> = vec![];
		for (b, x) in s.mem.iter().enumerate() {
			self.write(b, &texts[*x]);
		}
		log.push(json!({"e": "reset", "mem": s.mem.iter().map(|x| ids[*x]).collect::<Vec<_>>()}));
		let mut todo: Vec<Vec<Job>> = (0..THREADS).map(|_| vec![]).collect();
		// per thread, what its questions are about
		let mut about: Vec<Vec<u32>> = vec![vec![]; THREADS];
		for w in &self.workers {
			w.tx.send(vec![Job::Drop]).unwrap();
			w.rx.recv().unwrap();
		}
		let repeat = if free > 0 { free } else { 1 };
		for (i, e) in s.evs.iter().enumerate() {
			let mut asked: Option<(usize, i64)> = None;
			match *e {
				Ev::Write(b, x) => {
					if free > 0 {
						self.flush(&mut todo, &mut about, said);
					}
					self.write(b, &texts[x]);
					mem[b] = x;
					log.push(json!({"e": "write", "b": b + 1, "x": ids[x]}));
				}
				Ev::Parse(t, b) => {
					let p = self.buf(b) as usize;
					todo[t].push(Job::Parse(ty, p, texts[mem[b]].len()));
					val[t] = Some(b);
					log.push(json!({"e": "parse", "t": t + 1, "b": b + 1, "x": ids[mem[b]]}));
				}
				Ev::Drop(t) => {
					todo[t].push(Job::Drop);
					val[t] = None;
					log.push(json!({"e": "drop", "t": t + 1}));
				}
				Ev::Ask(t, q) => {
					let x = ids[mem[val[t].unwrap()]];
					todo[t].push(Job::Ask(q, repeat));
					about[t].push(x);
					asked = Some((t, q));
					log.push(json!({"e": "ask", "t": t + 1, "q": q, "x": x}));
				}
			}
			if free == 0 {
				let n = log.len() - 1;
				if let Some(a) = self.flush(&mut todo, &mut about, said) {
					log[n]["a"] = json!(said.intern(&a));
				}
				let _ = asked;
			}
			let mut bad = said.bad.lock().unwrap();
			if let Some(v) = bad.as_mut() {
				if v.get("ty").is_none() {
					v["ty"] = json!(ty);
					v["texts"] = json!(texts);
					v["schedule"] = json!(s.raw);
					v["step"] = json!(i + 1);
				}
				break;
			}
		}
		if free > 0 {
			self.flush(&mut todo, &mut about, said);
		}
		if let Some(t) = trace {
			t.append(&mut log);
		}
	}
	/// Lets the threads do what is to be done; the last answer.
	fn flush(&mut self, todo: &mut [Vec<Job>], about: &mut [Vec<u32>], said: &Said) -> Option<String> {
		let mut last = None;
		let busy: Vec<usize> = (0..THREADS).filter(|t| !todo[*t].is_empty()).collect();
		for &t in &busy {
			self.workers[t].tx.send(std::mem::take(&mut todo[t])).unwrap();
		}
		for &t in &busy {
			let r = self.workers[t].rx.recv().unwrap();
			let xs = std::mem::take(&mut about[t]);
			let mut k = 0;
			for (i, (q, a)) in r.iter().enumerate() {
				// a question asked again with another answer comes twice
				let twice = r.len() > xs.len() && i + 1 < r.len() && r[i + 1].0 == *q && r[i + 1].1 != *a && k < xs.len();
				if let Some(msg) = said.say(xs[k.min(xs.len() - 1)], *q, a, &format!("thread {}", t + 1)) {
					let mut bad = said.bad.lock().unwrap();
					if bad.is_none() {
						*bad = Some(json!({"msg": msg}));
					}
				}
				if !twice {
					k += 1
				}
				last = Some(a.clone());
			}
		}
		last
	}
}

fn pools(m: &Model, seed: u64) -> Vec<Vec<Vec<Vec<u8>>>> {
	(0..N_STR)
		.map(|ty| {
			let mut by: Vec<Vec<Vec<u8>>> = vec![vec![]; 400];
			for t in g::corpus(m, ty, seed, if ty < 2 { 1500 } else { 400 }) {
				if !t.is_empty() && t.len() < 400 {
					by[t.len()].push(t);
				}
			}
			for v in &mut by {
				v.sort();
				v.dedup();
			}
			// lengths that at least two texts have
			by.retain(|v| v.len() > 1);
			by
		})
		.collect()
}

/// What a process of its own answers about one text: nothing was asked before.
fn alone(ty: usize, t: &[u8]) -> Result<Vec<String>, String> {
	let hex: String = t.iter().map(|b| format!("{b:02x}")).collect();
	let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["alone", &ty.to_string(), &hex]).output().map_err(|e| e.to_string())?;
	if out.status.code().is_some_and(|c| c != 0) {
		// not the crate: its panics are answers
		eprintln!("alone: {} {}", out.status, String::from_utf8_lossy(&out.stderr));
		std::process::exit(2)
	}
	if let Some(m) = serde_json::from_slice::<Value>(&out.stdout).ok().and_then(|v| v["differ"].as_str().map(|s| s.to_owned())) {
		return Err(m);
	}
	serde_json::from_slice(&out.stdout).map_err(|_| format!("a process that asks about {} only ends with {}", crate::checks::q(t), out.status))
}
pub fn alone_main(ty: usize, t: &[u8]) {
	let t: &'static [u8] = Box::leak(t.to_vec().into_boxed_slice());
	// the questions in an order of this text's own
	let k: usize = t.iter().fold(0usize, |a, b| (a * 7 + *b as usize) % 1009) % 8;
	let mut out = vec![String::new(); 8];
	let oth = other(t);
	// First the single calls, by four threads at the same moment.
	const N: usize = 4;
	let at = AtomicU64::new(0);
	let got: Vec<Vec<u64>> = std::thread::scope(|sc| {
		let all: Vec<_> = (0..N)
			.map(|_| {
				let (at, oth) = (&at, &oth);
				sc.spawn(move || {
					let mut got = vec![0; CALLS];
					let mut h: Held = None;
					for i in 0..CALLS + 1 {
						at.fetch_add(1, Relaxed);
						let mut spins = 0;
						while at.load(Relaxed) < ((i + 1) * N) as u64 {
							spins += 1;
							if spins > 20000 {
								std::thread::yield_now()
							} else {
								std::hint::spin_loop()
							}
						}
						if i == 0 {
							h = std::panic::catch_unwind(|| with_ty!(ty, T => parse::<T>(t))).unwrap_or(None);
						} else {
							let c = ((i - 1) * 5 + k * 3) % CALLS;
							got[c] = called(ty, t, h, oth, c);
						}
					}
					got
				})
			})
			.collect();
		all.into_iter().map(|x| x.join().unwrap()).collect()
	});
	let h = std::panic::catch_unwind(|| with_ty!(ty, T => parse::<T>(t))).unwrap_or(None);
	for c in 0..CALLS {
		let one = called(ty, t, h, &oth, c);
		if got.iter().any(|g| g[c] != one) {
			println!("{}", json!({"differ": format!("{} {}: {} is answered in two ways to threads of a new process that ask at the same moment", ALL_TYPES[ty], crate::checks::q(t), call_name(c))}));
			return;
		}
	}
	for i in 0..8 {
		let q = (i * 5 + k) % 8;
		out[q] = answer(ty, t, h, q as i64 + 1);
	}
	println!("{}", json!(out));
}
fn compare_alone(said: &Said, list: &[(usize, Vec<u8>)], trace: &Mutex<Vec<Value>>) -> u64 {
	let n = AtomicU64::new(0);
	// each has four threads
	let next = AtomicU64::new(0);
	par(list.len().min(3), |_| loop {
		let i = next.fetch_add(1, Relaxed) as usize;
		if i >= list.len() {
			return;
		}
		let (ty, t) = &list[i];
		if said.bad.lock().unwrap().is_some() {
			return;
		}
		let msg = match alone(*ty, t) {
			Err(m) => Some(m),
			Ok(a) => {
				n.fetch_add(1, Relaxed);
				let x = said.id(*ty, t);
				let mut bad = None;
				let mut l = vec![];
				for (q, a) in a.iter().enumerate() {
					let q = q as i64 + 1;
					l.push(json!({"e": "alone", "x": x, "q": q, "a": said.intern(a)}));
					bad = bad.or(said.say(x, q, a, "a process that is asked about this text only"));
				}
				trace.lock().unwrap().append(&mut l);
				bad
			}
		};
		if let Some(msg) = msg {
			let mut b = said.bad.lock().unwrap();
			if b.is_none() {
				*b = Some(json!({"msg": msg, "ty": ty, "texts": [t], "schedule": []}));
			}
		}
	});
	n.into_inner()
}

// ---------------------------------------------------- may it be shared at all?
struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait NotShared {
	fn shared(&self) -> bool {
		false
	}
}
impl<T: ?Sized> NotShared for Probe<T> {}
impl<T: ?Sized + Send + Sync> Probe<T> {
	fn shared(&self) -> bool {
		true
	}
}
/// The types whose values cannot be used from several threads.
pub fn not_shared() -> Vec<&'static str> {
	let mut v = vec![];
	macro_rules! p {
		($($T:ty),*) => { $( if !Probe::<$T>(std::marker::PhantomData).shared() { v.push(stringify!($T)) } )* };
	}
	p!(LangTag, NormalLangTag, PrivateUse, Language, PrimaryLanguage, LanguageExtension, ExtendedLangTag, Script, Region, Variant,
		Variants, Extension, Extensions, ExtensionSubtag, PrivateUseSubtag, LangTagBuf, NormalLangTagBuf, PrivateUseBuf, LanguageBuf,
		PrimaryLanguageBuf, LanguageExtensionBuf, ExtendedLangTagBuf, ScriptBuf, RegionBuf, VariantBuf, VariantsBuf, ExtensionBuf,
		ExtensionsBuf, ExtensionSubtagBuf, PrivateUseSubtagBuf, Singleton, GrandfatheredLangTag, TypedLangTag<'static>, langtag::Kind,
		VariantsIter<'static>, ExtensionIter<'static>, ExtensionsIter<'static>, PrivateUseIter<'static>, LanguageExtensionIter<'static>);
	v
}

/// Runs all schedules; prints what happened.
pub fn main(file: &str, trace: &str, seed: u64, deep: bool) {
	let lines: Vec<Value> = std::fs::read_to_string(file).unwrap().lines().map(|l| serde_json::from_str(l).expect("schedule")).collect();
	let scheds = schedules(&lines);
	let m = model();
	let pools = pools(m, seed);
	let said = Said::default();
	let log: Mutex<Vec<Value>> = Mutex::default();
	if let Some(t) = not_shared().first() {
		*said.bad.lock().unwrap() = Some(json!({"msg": format!("{t} may not be shared between threads (it is not Send or not Sync)"), "ty": 0, "texts": [], "schedule": []}));
	}
	let mut rng = Rng::new(seed, 31337);
	let mut stage = Stage::new();
	let mut used: Vec<(usize, Vec<u8>)> = vec![];
	let mut free_steps = 0u64;
	for (i, s) in scheds.iter().enumerate() {
		if said.bad.lock().unwrap().is_some() {
			break;
		}
		let (ty, texts) = cast(&pools, &mut rng);
		// (the order matters to what remembers the first or the last)
		if i % 2 == 0 {
			stage.run(s, ty, &texts, &said, 0, Some(&mut log.lock().unwrap()));
			stage.run(s, ty, &texts, &said, if deep { 20 } else { 4 }, None);
		} else {
			stage.run(s, ty, &texts, &said, if deep { 20 } else { 4 }, None);
			stage.run(s, ty, &texts, &said, 0, Some(&mut log.lock().unwrap()));
		}
		free_steps += s.evs.len() as u64;
		// the same texts once more, in other roles
		if i % 4 == 1 {
			let mut t2 = texts.clone();
			t2.rotate_left(2 * (1 + i % 3));
			stage.run(s, ty, &t2, &said, 0, Some(&mut log.lock().unwrap()));
		}
		if i % 16 == 15 {
			stage = Stage::new(); // threads and buffers that are new
		}
		let k = rng.below(8);
		used.push((ty, texts[k].clone()));
	}
	// many threads and few texts
	let storms = if deep { 400 } else { 60 };
	let mut storm_asked = 0;
	for i in 0..storms {
		if said.bad.lock().unwrap().is_some() {
			break;
		}
		let (ty, texts) = cast(&pools, &mut rng);
		let ids: Vec<u32> = texts.iter().map(|t| said.id(ty, t)).collect();
		let before = said.asked.load(Relaxed);
		std::thread::scope(|sc| {
			for k in 0..8 {
				let (said, texts, ids) = (&said, &texts, &ids);
				let mut rng = Rng::new(seed ^ 77, (i * 8 + k) as u64);
				sc.spawn(move || {
					for _ in 0..if deep { 150 } else { 60 } {
						let x = if rng.chance(1, 2) { 2 * rng.below(4) } else { rng.below(8) };
						// shared memory, or a copy at an address used before
						let copy = texts[x].clone();
						let t: &[u8] = if rng.chance(1, 2) { &copy } else { &texts[x] };
						let h = std::panic::catch_unwind(|| with_ty!(ty, T => parse::<T>(t))).unwrap_or(None);
						for _ in 0..3 {
							let q = 1 + rng.below(8) as i64;
							if let Some(msg) = said.say(ids[x], q, &answer(ty, t, h, q), "one of eight threads") {
								let mut b = said.bad.lock().unwrap();
								if b.is_none() {
									*b = Some(json!({"msg": msg, "ty": ty, "texts": texts, "schedule": []}));
								}
								return;
							}
						}
					}
				});
			}
		});
		storm_asked += said.asked.load(Relaxed) - before;
		used.push((ty, texts[0].clone()));
	}
	// one call again and again
	let mut hammered = 0u64;
	for i in 0..if deep { 12000 } else { 1500 } {
		if said.bad.lock().unwrap().is_some() {
			break;
		}
		let (ty, mut texts) = cast(&pools, &mut rng);
		texts.truncate([1, 2, 3, 8][i % 4]);
		let k = rng.below(CALLS);
		hammered += 8 * 150;
		if let Some(m) = hammer(ty, &texts, k, 8, 150) {
			*said.bad.lock().unwrap() = Some(json!({"msg": m, "ty": ty, "texts": texts, "schedule": [], "call": k}));
		}
	}
	rng = Rng::new(seed, 4711);
	let n = used.len().min(if deep { 2500 } else { 300 });
	for i in 0..n {
		let j = i + rng.below(used.len() - i);
		used.swap(i, j);
	}
	used.truncate(n);
	let alone_n = compare_alone(&said, &used, &log);
	let log = log.into_inner().unwrap();
	let mut o = String::new();
	for e in &log {
		o.push_str(&e.to_string());
		o.push('\n');
	}
	std::fs::write(trace, o).unwrap();
	let bad = said.bad.lock().unwrap().clone();
	let texts = said.ids.lock().unwrap().len();
	println!("{}", json!({"schedules": scheds.len(), "lockstep_events": log.len(), "free_steps": free_steps, "storm_answers": storm_asked,
		"answers": said.asked.load(Relaxed), "texts": texts, "processes": alone_n, "hammered": hammered, "violation": bad,
		"sample": log.iter().take(8).collect::<Vec<_>>(),
		"names": said.names.lock().unwrap().iter().map(|(ty, t)| json!([ALL_TYPES[*ty], show(t)])).collect::<Vec<_>>()}));
}

/// One recorded schedule again, many times; the message if it fails.
pub fn replay(case: &Value) -> Option<String> {
	if let Some(t) = not_shared().first() {
		return Some(format!("{t} may not be shared between threads"));
	}
	let ty = case["ty"].as_u64()? as usize;
	let texts: Vec<Vec<u8>> = serde_json::from_value(case["texts"].clone()).ok()?;
	let said = Said::default();
	let log = Mutex::default();
	let bad = |s: &Said| s.bad.lock().unwrap().as_ref().map(|v| v["msg"].as_str().unwrap().to_owned());
	let list: Vec<(usize, Vec<u8>)> = texts.iter().map(|t| (ty, t.clone())).collect();
	let seq: Vec<Value> = case["schedule"].as_array().cloned().unwrap_or_default();
	let scheds = schedules(&seq);
	for round in 0..20 {
		for s in &scheds {
			let mut st = Stage::new();
			st.run(s, ty, &texts, &said, 0, None);
			st.run(s, ty, &texts, &said, 10, None);
		}
		// all at once
		std::thread::scope(|sc| {
			for k in 0..8 {
				let (said, texts) = (&said, &texts);
				let mut rng = Rng::new(round, k);
				sc.spawn(move || {
					for _ in 0..200 {
						let Some(t) = (!texts.is_empty()).then(|| rng.pick(texts).clone()) else { return };
						let h = std::panic::catch_unwind(|| with_ty!(ty, T => parse::<T>(&t))).unwrap_or(None);
						let q = 1 + rng.below(8) as i64;
						if let Some(msg) = said.say(said.id(ty, &t), q, &answer(ty, &t, h, q), "one of eight threads") {
							*said.bad.lock().unwrap() = Some(json!({"msg": msg}));
						}
					}
				});
			}
		});
		if let Some(k) = case["call"].as_u64() {
			for _ in 0..200 {
				if let Some(m) = hammer(ty, &texts, k as usize, 8, 500) {
					return Some(m);
				}
			}
		}
		if round < 3 {
			compare_alone(&said, &list, &log);
		}
		if let Some(m) = bad(&said) {
			return Some(m);
		}
	}
	None
}
