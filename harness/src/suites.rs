//! Which cases each property is decided on.
use crate::core::*;
use crate::gen_::*;
use crate::kinds::*;
use crate::model::*;
use crate::types::*;
use crate::visit::*;
use crate::with_ty;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

struct Ctx {
	seed: u64,
	deep: bool,
	start: Instant,
	budget: Duration,
}
impl Ctx {
	/// quick or thorough amount
	fn n(&self, q: usize, t: usize) -> usize {
		if self.deep { t } else { q }
	}
	fn time_left(&self) -> bool {
		!stop() && self.start.elapsed() < self.budget
	}
}

const COMPOUND: &[usize] = &[0, NORMAL, PU, LANGUAGE, EXTLANG, VARIANTS, EXTENSION, EXTENSIONS];

pub fn run(id: &str, seed: u64, deep: bool) {
	let budget = std::env::var("BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if deep { 240 } else { 12 });
	let c = Ctx { seed, deep, start: Instant::now(), budget: Duration::from_secs(budget) };
	let m = model();
	match id {
		"C01" => accept_suite(m, &c, &[0]),
		"C02" => accept_suite(m, &c, &(1..N_STR).collect::<Vec<_>>()),
		"C03" => cons_suite(m, &c),
		"C04" => {
			texts(m, &c, 0, 1, &|t| {
				run1(&CLASS, t, &[]);
			});
			for w in gf_words(m) {
				run1(&CLASS, &w, &[]);
			}
		}
		"C05" => {
			for ty in [0, NORMAL] {
				texts(m, &c, ty, 2, &|t| {
					run1(&PARTS, t, &[ty as i64]);
				});
			}
		}
		"C06" => {
			texts(m, &c, NORMAL, 3, &|t| {
				run1(&PARTITION, t, &[]);
			});
			for &ty in COMPOUND {
				texts(m, &c, ty, COMPOUND.len(), &|t| {
					run1(&CLOSURE, t, &[ty as i64]);
				});
			}
		}
		"C07" => {
			for ty in [LANGUAGE, EXTLANG] {
				texts(m, &c, ty, 3, &|t| {
					run1(&LANGUAGE_K, t, &[ty as i64]);
				});
			}
			texts(m, &c, NORMAL, 3, &|t| {
				run1(&TAG_LANGUAGE, t, &[]);
			});
		}
		"C08" => variants_suite(m, &c),
		"C09" => {
			for ty in [EXTENSION, EXTENSIONS] {
				texts(m, &c, ty, 3, &|t| {
					run1(&EXTENSIONS_K, t, &[ty as i64]);
				});
			}
			texts(m, &c, NORMAL, 3, &|t| {
				run1(&TAG_EXTENSIONS, t, &[]);
			});
			extension_lists(m, &c);
		}
		"C10" => {
			for ty in [PU, NORMAL, 0] {
				texts(m, &c, ty, 3, &|t| {
					run1(&PRIVATE, t, &[ty as i64]);
				});
			}
		}
		"C11" => {
			pairs(m, &c, &|ty, a, b| {
				run2(&EQUAL, a, b, &[ty as i64]);
			});
			crowd(m, &c, false);
			digests(m, &c);
		}
		"C12" => {
			pairs(m, &c, &|ty, a, b| {
				run2(&ORDER, a, b, &[ty as i64]);
			});
			laws_suite(m, &c);
			crowd(m, &c, true);
		}
		"C13" => hash_suite(m, &c),
		"C14" => conv_suite(m, &c),
		"C15" => serde_suite(m, &c),
		"C16" => gf_suite(m, &c),
		"C17" => single_suite(m, &c),
		"C19" => twin_suite(m, &c),
		"C20" => union_suite(m, &c),
		"C22" => compose_suite(m, &c),
		x => panic!("no suite for {x}"),
	}
}
fn run1(k: &'static Kind, t: &[u8], n: &[i64]) -> bool {
	crate::core::run(k, &[t], n)
}
fn run2(k: &'static Kind, a: &[u8], b: &[u8], n: &[i64]) -> bool {
	crate::core::run(k, &[a, b], n)
}

/// Accepted texts of a type: graph covers, bounded-exhaustive shapes, sizes,
/// long ones, random ones.  `share`: part of the time budget (1/share).
fn texts(m: &Model, c: &Ctx, ty: usize, share: usize, f: &(dyn Fn(&[u8]) + Sync)) {
	let d = &m.dfa[ty];
	let seed = c.seed;
	let count = AtomicU64::new(0);
	let f = &|t: &[u8]| {
		count.fetch_add(1, Relaxed);
		f(t)
	};
	let list = corpus(m, ty, seed, c.n(2500, 20000));
	par(list.len(), |i| f(&list[i]));
	let list = word_pairs(m, ty, seed, c.n(120_000, 1_000_000));
	note("texts with two words of the sources in them", list.len() as u64);
	par(list.len(), |i| f(&list[i]));
	// exhaustive sequences of subtag shapes
	shapes(m, ty, POOL, c.n(3, 4), seed, f);
	shapes(m, ty, SMALL, c.n(5, 6), seed + 1, f);
	if c.deep {
		shapes(m, ty, POOL, 3, seed + 2, f);
		shapes(m, ty, &["AA", "AAA", "DNNN", "A", "x", "NN"], 8, seed + 3, f);
	}
	// sizes
	let comp = completion(m, d);
	let sizes: Vec<usize> = (1..c.n(300, 700)).chain(boundaries(true)).collect();
	par(sizes.len(), |i| {
		let mut rng = Rng::new(seed, 31_000 + i as u64);
		for _ in 0..c.n(2, 6) {
			f(&walk(d, &comp, &mut rng, sizes[i]));
		}
	});
	let list = huge(m, ty, c.n(1 << 17, 1 << 19));
	note("texts of more than 130 000 bytes, in threads with a small stack", list.len() as u64);
	par_in(list.len(), SMALL_STACK, |i| f(&list[i]));
	if ty <= 1 {
		let mut rng = Rng::new(seed, 5);
		let list = boundary_tags(&mut rng, true);
		par(list.len(), |i| f(&list[i]));
		// exact sizes of every section
		let n = c.n(64, 300);
		par(n, |i| {
			let mut rng = Rng::new(seed, 32_000 + i as u64);
			for sec in 0..3 {
				for around in 0..4 {
					let z = |k: usize| if sec == k { i } else if around & (1 << (k & 1)) != 0 { 12 } else { 0 };
					let (e, s, r) = (*rng.pick(&[0, 0, 1, 2, 3]), rng.chance(1, 2), *rng.pick(&[0, 2, 3]));
					f(&sized(&mut rng, e, s, r, z(0), z(1), z(2)));
				}
			}
		});
	}
	if matches!(ty, 0 | 1) {
		// short subtags, exhaustively
		let two: Vec<[u8; 2]> = (0..676).map(|i| [b'a' + (i / 26) as u8, b'a' + (i % 26) as u8]).collect();
		par(two.len(), |i| {
			let p = two[i];
			f(&p);
			f(&[b"de-".as_slice(), &p].concat());
			f(&[b"de-1996-".as_slice(), &[p[0]], b"-", &p].concat()[..if p[0] == b'x' { 10 } else { 12 }].to_vec());
			for l in b'a'..=b'z' {
				f(&[p[0], p[1], l]);
				f(&[b"zh-", p.as_slice(), &[l]].concat());
			}
		});
		let mut v: Vec<Vec<u8>> = vec![];
		for i in 0..1000 {
			v.push(format!("de-{i:03}").into_bytes());
			v.push(format!("sl-Latn-{i:03}-x-{i}").into_bytes());
		}
		for i in 0..10000 {
			v.push(format!("de-{i:04}").into_bytes());
		}
		par(v.len(), |i| f(&v[i]));
	}
	note(&format!("texts of {}", ALL_TYPES[ty]), count.load(Relaxed));
	// random, until the time is up
	let n = c.n(4000, 20000);
	let share_ms = (c.budget.as_millis() as u64 / (2 * share as u64)).max(200);
	let t0 = Instant::now();
	let mut round = 0u64;
	let before = count.load(Relaxed);
	while !stop() && (round == 0 || (c.deep && t0.elapsed().as_millis() < share_ms as u128)) {
		par(threads() * 4, |i| {
			let mut rng = Rng::new(seed ^ 0xabcdef, round * 1000 + i as u64);
			for _ in 0..n / (threads() * 4) {
				let len = match rng.below(10) {
					0..5 => 1 + rng.below(24),
					5..8 => 10 + rng.below(50),
					8 => 30 + rng.below(200),
					_ => 100 + rng.below(1500),
				};
				let w = match rng.below(4) {
					0 => echo(d, &comp, &mut rng, 1 + len / 6),
					1 | 2 if ty <= 1 => random_tag(&mut rng, len),
					_ => walk(d, &comp, &mut rng, len),
				};
				f(&w);
			}
		});
		round += 1;
	}
	note("random texts", count.load(Relaxed) - before);
}

// ------------------------------------------------------------ C01, C02
fn accept_suite(m: &Model, c: &Ctx, tys: &[usize]) {
	for &ty in tys {
		let x = [ty as i64];
		let f = |t: &[u8]| {
			run1(&ACCEPT, t, &x);
		};
		let d = &m.dfa[ty];
		// conformance testing from the graph
		let big = d.n > 60;
		let k = if c.deep { if big { 3 } else { 4 } } else if big { 2 } else { 3 };
		let n = wmethod(m, ty, k, c.seed, &f);
		note(&format!("W-method words (k={k}) {}", ALL_TYPES[ty]), n);
		// every byte and every odd sequence at every state, and what may come after it
		// wherever it leads, or would lead if it were taken for something else
		let acc = access(m, d);
		let comp = completion(m, d);
		let odd = odd();
		let seps = separators(m, d);
		par(d.n, |s| {
			let Some(a) = &acc[s] else { return };
			let mut after: Vec<&[u8]> = seps.iter().map(|x| &x[..]).collect();
			after.extend(comp[s].as_deref());
			after.extend((0..128).filter_map(|b| comp[d.step(s as u16, b) as usize].as_deref()));
			after.sort();
			after.dedup();
			for b in 0..=255u8 {
				let w = [a.as_slice(), &[b]].concat();
				for e in &after {
					f(&[&w, *e].concat());
				}
				if let Some(e) = &comp[d.step(s as u16, b) as usize] {
					f(&[&w[..], e].concat());
				}
			}
			for o in &odd {
				let w = [a.as_slice(), o].concat();
				for e in &after {
					f(&[&w, *e].concat());
				}
			}
			// and the words of the sources
			let mut rng = Rng::new(c.seed, 42_000 + s as u64);
			for o in dictionary() {
				for o in [o.clone(), recase(&mut rng, o)] {
					let w = [a.as_slice(), &o].concat();
					f(&w);
					for e in &after {
						f(&[&w, *e].concat());
					}
				}
			}
		});
		// every two characters at every state
		par(d.n, |s| {
			let Some(a) = &acc[s] else { return };
			for x in ALNUM {
				let t = d.step(s as u16, *x);
				for y in ALNUM.iter().chain(b"-") {
					let u = d.step(t, *y);
					let w = [a.as_slice(), &[*x, *y]].concat();
					f(&w);
					if let Some(e) = comp[u as usize].as_ref().or(comp[t as usize].as_ref()).or(comp[s].as_ref()) {
						f(&[&w[..], e].concat());
					}
				}
			}
		});
		// short words, exhaustively
		let reps = reps(m);
		let len = c.n(3, 4) + (tys.len() == 1) as usize;
		par(reps.len() * reps.len(), |i| {
			fn rec(w: &mut Vec<u8>, left: usize, reps: &[u8], f: &dyn Fn(&[u8])) {
				f(w);
				if left > 0 && !stop() {
					for &b in reps {
						w.push(b);
						rec(w, left - 1, reps, f);
						w.pop();
					}
				}
			}
			let mut w = vec![reps[i / reps.len()], reps[i % reps.len()]];
			rec(&mut w, len.saturating_sub(2), &reps, &f);
		});
		f(b"");
		for b in 0..=255u8 {
			f(&[b]);
		}
		// single characters
		let acc2: Vec<Vec<u8>> = {
			let mut r = Rng::new(c.seed, 9);
			let all: Vec<Vec<u8>> = acc.iter().flatten().cloned().collect();
			(0..3).map(|_| r.pick(&all).clone()).collect()
		};
		par(0x1100, |i| {
			for j in 0..0x100 {
				let Some(ch) = char::from_u32((i * 0x100 + j) as u32) else { continue };
				let mut b = [0u8; 4];
				let s = ch.encode_utf8(&mut b).as_bytes();
				f(s);
				if c.deep || i == 0 || (i * 0x100 + j) % 61 == 0 {
					for a in &acc2 {
						f(&[a, s].concat());
					}
				}
			}
		});
		// accepted texts, and their near misses
		texts(m, c, ty, tys.len(), &|t| {
			f(t);
			if t.is_empty() || t.len() > 4000 {
				return;
			}
			let mut rng = Rng::new(c.seed, t.iter().fold(t.len() as u64, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64)));
			for _ in 0..2 {
				let mut w = t.to_vec();
				let i = rng.below(w.len());
				match rng.below(7) {
					0 => w[i] = alnum(&mut rng),
					1 => w[i] = (rng.next() & 255) as u8,
					2 => w.insert(i, alnum(&mut rng)),
					3 => w.insert(i, b'-'),
					4 => {
						w.remove(i);
					}
					5 => w.truncate(i),
					_ => {
						w.push(b'-');
						let p = *rng.pick(POOL);
						fill(&mut rng, p, &mut w)
					}
				}
				f(&w);
			}
		});
		// four-letter subtags, exhaustively
		if matches!(ty, 0 | 1 | SCRIPT | VARIANT | PRIMARY | LANGUAGE) {
			let pre: &[u8] = if ty <= 1 { b"de-" } else { b"" };
			par(26 * 26, |i| {
				let (a, b) = (b'a' + (i / 26) as u8, b'a' + (i % 26) as u8);
				for x in 0..36u8 {
					for y in 0..36u8 {
						let al = |x: u8| if x < 26 { b'a' + x } else { b'0' + x - 26 };
						f(&[pre, &[a, b, al(x), al(y)]].concat());
						f(&[pre, &[b'0' + a % 10, b, al(x), al(y)]].concat());
					}
				}
			});
		}
		// the registry, its prefixes and extensions
		if ty <= 1 {
			for w in gf_words(m) {
				f(&w);
				for i in 0..w.len() {
					f(&w[..i]);
				}
				for e in [&b"-a"[..], b"-x-a", b"a", b"-", b"-aa", b"-1996", b"\0", b" "] {
					f(&[&w[..], e].concat());
				}
			}
		}
	}
}
fn gf_words(m: &Model) -> Vec<Vec<u8>> {
	let mut rng = Rng::new(1, 1);
	let mut v = vec![];
	for (w, _) in &m.gf {
		v.push(w.clone());
		v.push(w.to_ascii_lowercase());
		v.push(w.to_ascii_uppercase());
		for _ in 0..10 {
			v.push(recase(&mut rng, w));
		}
	}
	v
}

// ---------------------------------------------------------------- C03
fn cons_suite(m: &Model, c: &Ctx) {
	let odd = odd();
	for ty in 0..N_STR {
		let x = [ty as i64];
		let f = |t: &[u8]| {
			run1(&CONS, t, &x);
		};
		texts(m, c, ty, N_STR, &|t| {
			f(t);
			if t.len() > 2000 {
				return;
			}
			let mut rng = Rng::new(c.seed, t.iter().fold(t.len() as u64, |a, b| a.wrapping_mul(37).wrapping_add(*b as u64)));
			let mut w = t.to_vec();
			let i = rng.below(w.len() + 1);
			match rng.below(5) {
				0 => {
					let o = rng.pick(&odd);
					w.splice(i..i, o.iter().copied());
				}
				1 => w.insert(i, b'-'),
				2 => w.truncate(i),
				3 => w.extend_from_slice(b" "),
				_ => w.insert(i, (rng.next() & 255) as u8),
			}
			f(&w);
		});
		let d = &m.dfa[ty];
		let acc = access(m, d);
		par(d.n, |s| {
			let Some(a) = &acc[s] else { return };
			f(a);
			for o in &odd {
				f(&[a, o.as_slice()].concat());
			}
			for b in 0..=255u8 {
				f(&[a.as_slice(), &[b]].concat());
			}
		});
		for other in 0..N_STR {
			if other != ty {
				let l = corpus(m, other, c.seed, 40);
				par(l.len(), |i| f(&l[i]));
			}
		}
	}
}

// ---------------------------------------------------------------- C08
fn variant_list(rng: &mut Rng, n: usize) -> Vec<u8> {
	let mut t = vec![];
	for i in 0..n {
		if i > 0 {
			t.push(b'-');
		}
		if i > 0 && rng.chance(1, 6) {
			// a repeated variant is still a variant of the list
			let s: Vec<u8> = t.split(|b| *b == b'-').nth(rng.below(i)).unwrap().to_vec();
			t.extend(recase(rng, &s));
			continue;
		}
		let p = *rng.pick(&["DNNN", "NNNNN", "NNNNNN", "NNNNNNN", "NNNNNNNN"]);
		fill(rng, p, &mut t);
	}
	t
}
fn variants_suite(m: &Model, c: &Ctx) {
	texts(m, c, VARIANTS, 3, &|t| {
		run1(&VARIANTS_K, t, &[]);
	});
	// every interleaving of next and next_back
	let top = c.n(6, 9);
	for n in 0..=top {
		let len = n + 3;
		for rep in 0..c.n(3, 4) {
			par(1 << len, |bits| {
				let mut rng = Rng::new(c.seed, (n * 100 + rep) as u64);
				let t = variant_list(&mut rng, n);
				let ops: Vec<i64> = (0..len).map(|k| (bits >> k & 1) as i64).collect();
				crate::core::run(&INTERLEAVE, &[&t], &ops);
			});
		}
	}
	// two iterators over one list
	let top = c.n(3, 4);
	for n in 0..=top {
		let len = n + if n < 4 { 3 } else { 2 };
		par(1 << (2 * len), |bits| {
			let mut rng = Rng::new(c.seed, (n * 100 + 50) as u64);
			let t = variant_list(&mut rng, n);
			let ops: Vec<i64> = (0..len).map(|k| (bits >> (2 * k) & 3) as i64).collect();
			crate::core::run(&INTERLEAVE, &[&t], &ops);
		});
	}
	// in whole tags, and long
	let n = c.n(4000, 200_000);
	par(threads() * 8, |i| {
		let mut rng = Rng::new(c.seed, 8800 + i as u64);
		for _ in 0..n / (threads() * 8) {
			if !c.time_left() {
				return;
			}
			let k = if rng.chance(1, 20) { 10 + rng.below(60) } else { rng.below(9) };
			let list = variant_list(&mut rng, k);
			let len = k + 2 + rng.below(4);
			let bias = rng.below(4);
			let ops: Vec<i64> = (0..2 * len)
				.map(|_| match bias {
					0 => rng.below(4) as i64,
					1 => rng.below(2) as i64,
					2 => 1,
					_ => (rng.chance(1, 5)) as i64,
				})
				.collect();
			crate::core::run(&INTERLEAVE, &[&list], &ops);
			let (e, s, r) = (*rng.pick(&[0, 0, 1, 2, 3]), rng.chance(1, 2), *rng.pick(&[0, 2, 3]));
			let head = sized(&mut rng, e, s, r, 0, 0, 0);
			let tail = match rng.below(4) {
				0 => &b"-a-bb-x-1"[..],
				1 => b"-x-12345678",
				2 => b"-0-abcdefgh-9-zz",
				_ => b"",
			};
			let t = if list.is_empty() { [&head, tail].concat() } else { [&head, &b"-"[..], &list, tail].concat() };
			crate::core::run(&TAG_INTERLEAVE, &[&t], &ops);
		}
	});
}

// ---------------------------------------------------------------- C09
fn extension_lists(m: &Model, c: &Ctx) {
	let _ = m;
	// singletons and sizes, exhaustively for few, at random for many
	let s: Vec<u8> = (0..=255u8).filter(|b| model().single[*b as usize]).collect();
	par(s.len() * s.len(), |i| {
		let (a, b) = (s[i / s.len()], s[i % s.len()]);
		for (x, y) in [("aa", "bb"), ("1a-2b", "12345678"), ("ab", "cd-x1")] {
			let t = [&[a], &b"-"[..], x.as_bytes(), b"-", &[b], b"-", y.as_bytes()].concat();
			run1(&EXTENSIONS_K, &t, &[EXTENSIONS as i64]);
			run1(&TAG_EXTENSIONS, &[&b"de-"[..], &t].concat(), &[]);
			run1(&TAG_EXTENSIONS, &[&b"de-1996-"[..], &t, b"-x-", &[a], b"-yy"].concat(), &[]);
		}
	});
	let n = c.n(6000, 200_000);
	par(threads() * 8, |i| {
		let mut rng = Rng::new(c.seed, 9900 + i as u64);
		for _ in 0..n / (threads() * 8) {
			let few: Vec<u8> = (0..2).map(|_| *rng.pick(&s)).collect();
			let k = 1 + rng.below(6);
			let mut t = vec![];
			for j in 0..k {
				if j > 0 {
					t.push(b'-');
				}
				let mut b = if rng.chance(2, 3) { *rng.pick(&few) } else { *rng.pick(&s) };
				if b.is_ascii_alphabetic() && rng.chance(1, 2) {
					b ^= 0x20
				}
				t.push(b);
				for _ in 0..1 + rng.below(4) {
					t.push(b'-');
					for _ in 0..2 + rng.below(7) {
						t.push(alnum(&mut rng));
					}
				}
			}
			run1(&EXTENSIONS_K, &t, &[EXTENSIONS as i64]);
		}
	});
}

// ----------------------------------------------------------- C11, C12
/// Pairs of texts of each type: the first well-formed.
fn pairs(m: &Model, c: &Ctx, f: &(dyn Fn(usize, &[u8], &[u8]) + Sync)) {
	let odd = odd();
	for ty in 0..N_STR {
		let list = corpus(m, ty, c.seed, c.n(700, 6000));
		let d = &m.dfa[ty];
		let comp = completion(m, d);
		let count = AtomicU64::new(0);
		let g = |a: &[u8], b: &[u8]| {
			count.fetch_add(1, Relaxed);
			f(ty, a, b)
		};
		let one = |t: &[u8], rng: &mut Rng| {
			g(t, t);
			g(t, &t.to_ascii_lowercase());
			g(t, &t.to_ascii_uppercase());
			g(t, &recase(rng, t));
			for _ in 0..2 {
				g(t, rng.pick(&list));
			}
			g(t, b"");
			// almost equal
			for k in 0..6 {
				let mut w = recase(rng, t);
				if w.is_empty() {
					break;
				}
				let i = match k {
					0 => 0,
					1 => w.len() - 1,
					_ => rng.below(w.len()),
				};
				match rng.below(8) {
					0 => w[i] = alnum(rng),
					1 => w[i] ^= 0x20,
					2 => w[i] = w[i].wrapping_add(1),
					3 => w[i] |= 0x80,
					4 => {
						w.remove(i);
					}
					5 => w.insert(i, alnum(rng)),
					6 => w[i] = w[i].wrapping_sub(1),
					_ => {
						let o = rng.pick(&odd);
						w.splice(i..i + 1, o.iter().copied());
					}
				}
				g(t, &w);
			}
			// a difference that keeps the text well-formed
			for _ in 0..3 {
				if t.is_empty() {
					break;
				}
				let mut w = t.to_vec();
				for _ in 0..12 {
					let i = rng.below(w.len());
					let old = w[i];
					w[i] = alnum(rng);
					if w[i] != old && m.well(ty, &w) {
						break;
					}
					w[i] = old;
				}
				g(t, &recase(rng, &w));
			}
			// prefixes, extensions
			if !t.is_empty() {
				let cut: Vec<usize> = (0..t.len()).filter(|i| m.well(ty, &t[..*i])).collect();
				if !cut.is_empty() {
					let i = *rng.pick(&cut);
					let p = recase(rng, &t[..i]);
					g(t, &p);
					g(&p, t);
				}
				let i = rng.below(t.len());
				g(t, &t[..i]);
			}
			let s = d.run(d.init, t);
			for _ in 0..2 {
				let mut w = recase(rng, t);
				let b = if rng.chance(1, 2) { b'-' } else { alnum(rng) };
				let s2 = d.step(s, b);
				w.push(b);
				if let Some(e) = &comp[s2 as usize] {
					w.extend_from_slice(e);
				}
				g(t, &w);
				if m.well(ty, &w) {
					g(&w, t);
				}
			}
			g(t, &[t, b"-"].concat());
			g(t, &[t, b"\0"].concat());
			// the same subtags, or the same characters, in another order
			let mut parts: Vec<&[u8]> = t.split(|b| *b == b'-').collect();
			if parts.len() > 1 {
				let (i, j) = (rng.below(parts.len()), rng.below(parts.len()));
				parts.swap(i, j);
				g(t, &recase(rng, &parts.join(&b'-')));
			}
			if t.len() > 1 {
				let mut w = t.to_vec();
				let i = rng.below(w.len() - 1);
				w.swap(i, i + 1);
				g(t, &recase(rng, &w));
			}
			// several differences that make up for each other
			for k in 0..4 {
				if t.len() < 4 {
					break;
				}
				for _ in 0..12 {
					let mut w = t.to_ascii_lowercase();
					let gap = 1 + rng.below(w.len() / 3);
					let i = rng.below(w.len() - 2 * gap);
					let d = 1 + rng.below(2) as u8;
					match k {
						// the same sum
						0 => {
							w[i] = w[i].wrapping_add(d);
							w[i + gap] = w[i + gap].wrapping_sub(d);
						}
						// the same sum, and the same sum of sums
						1 => {
							w[i] = w[i].wrapping_add(d);
							w[i + gap] = w[i + gap].wrapping_sub(2 * d);
							w[i + 2 * gap] = w[i + 2 * gap].wrapping_add(d);
						}
						2 => {
							w[i] = w[i].wrapping_sub(d);
							w[i + gap] = w[i + gap].wrapping_add(2 * d);
							w[i + 2 * gap] = w[i + 2 * gap].wrapping_sub(d);
						}
						// the same exclusive or
						_ => {
							w[i] ^= d;
							w[i + gap] ^= d;
						}
					}
					if m.well(ty, &w) {
						g(t, &recase(rng, &w));
						break;
					}
				}
			}
		};
		par(list.len(), |i| {
			if list[i].len() > 3000 && i % 7 != 0 {
				return;
			}
			let mut rng = Rng::new(c.seed, (ty * 100_000 + i) as u64);
			one(&list[i], &mut rng);
		});
		// every pair of characters, after a shared beginning
		let acc = access(m, d);
		par(d.n, |s| {
			let Some(a) = &acc[s] else { return };
			if !d.alive[s] {
				return;
			}
			for x in 0..128u8 {
				let sx = d.step(s as u16, x);
				let Some(ex) = &comp[sx as usize] else { continue };
				let wx = [a.as_slice(), &[x], ex].concat();
				for y in 0..128u8 {
					let sy = d.step(s as u16, y);
					let Some(ey) = &comp[sy as usize] else { continue };
					g(&wx, &[&a.to_ascii_uppercase(), &[y][..], ey].concat());
				}
			}
		});
		// long texts differing at one place
		let mut rng = Rng::new(c.seed, 777 + ty as u64);
		let bs = boundaries(c.deep);
		let long: Vec<Vec<u8>> = bs.iter().map(|b| walk(d, &comp, &mut rng, *b)).collect();
		par(long.len(), |i| {
			let mut rng = Rng::new(c.seed, 778 + i as u64);
			let t = &long[i];
			g(t, &recase(&mut rng, t));
			for k in 0..24 {
				let mut w = recase(&mut rng, t);
				if w.is_empty() {
					break;
				}
				let i = if k == 0 { w.len() - 1 } else { rng.below(w.len()) };
				let old = w[i];
				for _ in 0..20 {
					w[i] = alnum(&mut rng);
					if w[i].to_ascii_lowercase() != old.to_ascii_lowercase() && m.well(ty, &w) {
						break;
					}
					w[i] = old;
				}
				g(t, &w);
			}
		});
		note("pairs", count.load(Relaxed));
		// random until the time is up
		let until = c.budget.as_millis() / 2 * (ty as u128 + 1) / N_STR as u128;
		let mut round = 0;
		while c.deep && !stop() && c.start.elapsed().as_millis() < until {
			par(threads() * 2, |i| {
				let mut rng = Rng::new(c.seed, 5_000_000 + round * 64 + i as u64);
				for _ in 0..300 {
					let len = if rng.chance(1, 4) { rng.below(300) } else { rng.below(30) };
					let t = if ty <= 1 && rng.chance(1, 2) { random_tag(&mut rng, len) } else { walk(d, &comp, &mut rng, len) };
					one(&t, &mut rng);
				}
			});
			round += 1;
		}
	}
}
/// Many different texts of the same length, each against all others: no two are
/// equal, and sorted they are in the order of their lower-case texts.
fn crowd(m: &Model, c: &Ctx, order: bool) {
	let until = Instant::now() + Duration::from_secs(c.n(6, 60) as u64);
	for ty in 0..N_STR {
		let d = &m.dfa[ty];
		let comp = completion(m, d);
		let mut rng = Rng::new(c.seed, 9_000_000 + ty as u64);
		let n = if ty == 0 { c.n(120_000, 600_000) } else { c.n(12_000, 80_000) };
		let mut by_len: std::collections::BTreeMap<usize, std::collections::HashMap<Vec<u8>, Vec<u8>>> = Default::default();
		for _ in 0..n {
			let len = *rng.pick(&[7, 13, 20, 36, 70]);
			let t = walk(d, &comp, &mut rng, len);
			by_len.entry(t.len()).or_default().entry(t.to_ascii_lowercase()).or_insert(t);
		}
		let pairs = AtomicU64::new(0);
		for (_, group) in by_len {
			let mut ts: Vec<(Vec<u8>, Vec<u8>)> = group.into_iter().collect();
			ts.sort();
			// different beginnings side by side
			let ts: Vec<Vec<u8>> = ts.into_iter().map(|x| x.1).collect();
			let hits = std::sync::Mutex::new(vec![]);
			let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
				with_ty!(ty, T => {
					let vs: Vec<&T> = ts.iter().filter_map(|t| T::ref_bytes(0, t).ok()).collect();
					if vs.len() != ts.len() {
						// C01 and C02 say so
						return;
					}
					if order {
						let mut idx: Vec<usize> = (0..vs.len()).collect();
						let mut rng = Rng::new(c.seed, 9_100_000);
						for i in (1..idx.len()).rev() {
							idx.swap(i, rng.below(i + 1));
						}
						idx.sort_by(|a, b| vs[*a].cmp(vs[*b]));
						for (k, i) in idx.iter().enumerate() {
							if k != *i && hits.lock().unwrap().len() < 4 {
								hits.lock().unwrap().push((k, *i));
							}
						}
						return;
					}
					par(vs.len().div_ceil(64), |b| {
						// blocks, so that the values stay in the cache
						if Instant::now() > until {
							return;
						}
						let rows = &vs[b * 64..vs.len().min(b * 64 + 64)];
						pairs.fetch_add((rows.len() * (vs.len() - b * 64)) as u64, Relaxed);
						for j in b * 64..vs.len() {
							for (k, x) in rows.iter().enumerate() {
								if *x == vs[j] && b * 64 + k != j && hits.lock().unwrap().len() < 4 {
									hits.lock().unwrap().push((b * 64 + k, j));
								}
							}
						}
					});
				})
			}));
			for (i, j) in hits.into_inner().unwrap() {
				run2(if order { &ORDER } else { &EQUAL }, &ts[i], &ts[j], &[ty as i64]);
			}
		}
		note(if order { "texts sorted" } else { "pairs in a crowd" }, if order { n as u64 } else { pairs.load(Relaxed) });
	}
}
/// Texts that well-known short digests confuse: an equality, or a shortcut in
/// one, that compares digests would confuse them too.
fn digests(m: &Model, c: &Ctx) {
	use std::hash::{DefaultHasher, Hash, Hasher};
	fn sip(f: impl FnOnce(&mut DefaultHasher)) -> u32 {
		let mut h = DefaultHasher::new();
		f(&mut h);
		h.finish() as u32
	}
	fn crc(t: &[u8]) -> u32 {
		!t.iter().fold(!0u32, |h, b| (0..8).fold(h ^ *b as u32, |h, _| h >> 1 ^ if h & 1 == 1 { 0xedb8_8320 } else { 0 }))
	}
	let digests: &[fn(&[u8]) -> u32] = &[
		|t| t.iter().fold(0x811c_9dc5, |h, b| (h ^ *b as u32).wrapping_mul(0x0100_0193)),
		|t| t.iter().fold(0x811c_9dc5, |h, b| h.wrapping_mul(0x0100_0193) ^ *b as u32),
		|t| t.iter().fold(5381, |h: u32, b| h.wrapping_mul(33).wrapping_add(*b as u32)),
		|t| t.iter().fold(5381, |h: u32, b| h.wrapping_mul(33) ^ *b as u32),
		|t| t.iter().fold(0, |h: u32, b| h.wrapping_mul(65599).wrapping_add(*b as u32)),
		|t| t.iter().fold(0, |h: u32, b| h.wrapping_mul(31).wrapping_add(*b as u32)),
		|t| t.iter().fold(0, |h: u32, b| h.wrapping_mul(131).wrapping_add(*b as u32)),
		|t| t.iter().fold(0, |h: u32, b| h.rotate_left(5) ^ *b as u32),
		|t| t.iter().fold(0, |h: u32, b| (h.rotate_left(5) ^ *b as u32).wrapping_mul(0x9e37_79b9)),
		|t| t.iter().fold(0, |h: u32, b| (h.rotate_left(5) ^ *b as u32).wrapping_mul(0x27220a95)),
		|t| t.chunks(4).fold(0, |h: u32, b| (h.rotate_left(5) ^ b.iter().fold(0, |x, b| x << 8 | *b as u32)).wrapping_mul(0x9e37_79b9)),
		|t| {
			let (a, b) = t.iter().fold((1u32, 0u32), |(a, b), x| ((a + *x as u32) % 65521, (b + (a + *x as u32) % 65521) % 65521));
			b << 16 | a
		},
		crc,
		|t| sip(|h| h.write(t)),
		|t| sip(|h| t.hash(h)),
		|t| sip(|h| std::str::from_utf8(t).unwrap().hash(h)),
		// the other half
		|t| {
			let h = t.iter().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x0100_0000_01b3));
			(h >> 32) as u32
		},
		|t| t.iter().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x0100_0000_01b3)) as u32,
	];
	for ty in 0..N_STR {
		let d = &m.dfa[ty];
		let comp = completion(m, d);
		let parts = std::sync::Mutex::new(vec![]);
		let n = if ty == 0 { c.n(300_000, 1_000_000) } else { c.n(100_000, 500_000) };
		par(8, |k| {
			let mut rng = Rng::new(c.seed, 9_200_000 + (ty * 8 + k) as u64);
			let v: Vec<Vec<u8>> = (0..n / 8)
				.map(|i| {
					let len = [9, 15, 29][i % 3];
					let mut t = walk(d, &comp, &mut rng, len);
					t.make_ascii_lowercase();
					t
				})
				.collect();
			parts.lock().unwrap().push(v);
		});
		let mut texts: Vec<Vec<u8>> = parts.into_inner().unwrap().concat();
		texts.sort();
		texts.dedup();
		let hits = AtomicU64::new(0);
		par(2 * digests.len(), |k| {
			let mut v: Vec<(u32, usize, usize)> = texts
				.iter()
				.enumerate()
				.map(|(i, t)| (if k % 2 == 0 { digests[k / 2](t) } else { digests[k / 2](&t.to_ascii_uppercase()) }, t.len(), i))
				.collect();
			v.sort();
			let mut left = 60;
			for w in v.windows(2) {
				if w[0].0 == w[1].0 && left > 0 {
					// those of one length are the ones that matter most
					left -= if w[0].1 == w[1].1 { 1 } else { 2 };
					hits.fetch_add(1, Relaxed);
					run2(&EQUAL, &texts[w[0].2], &texts[w[1].2], &[ty as i64]);
				}
			}
		});
		note("pairs of texts with the same 32-bit digest", hits.load(Relaxed));
	}
}
fn laws_suite(m: &Model, c: &Ctx) {
	for ty in 0..N_STR {
		let list: Vec<Vec<u8>> = corpus(m, ty, c.seed + 1, c.n(300, 2000)).into_iter().filter(|t| t.len() < 200).collect();
		let d = &m.dfa[ty];
		let comp = completion(m, d);
		let n = c.n(300, 20_000);
		par(n, |i| {
			let mut rng = Rng::new(c.seed, 40_000 + (ty * 1_000_000 + i) as u64);
			// a family around one text: prefixes, extensions, recased, one-off
			let base = if rng.chance(1, 2) { rng.pick(&list).clone() } else { walk(d, &comp, &mut rng.clone(), 1 + i % 40) };
			let mut fam: Vec<Vec<u8>> = vec![base.clone(), recase(&mut rng, &base), rng.pick(&list).clone()];
			for j in 0..base.len() {
				if m.well(ty, &base[..j]) && fam.len() < 6 {
					fam.push(recase(&mut rng, &base[..j]));
				}
			}
			for _ in 0..4 {
				let cut = rng.below(base.len() + 1);
				let mut w = base[..cut].to_vec();
				let mut s = d.run(d.init, &w);
				for _ in 0..1 + rng.below(6) {
					let b = if rng.chance(1, 4) { b'-' } else { alnum(&mut rng) };
					if d.alive[d.step(s, b) as usize] {
						s = d.step(s, b);
						w.push(b);
					}
				}
				if let Some(e) = &comp[s as usize] {
					w.extend_from_slice(e);
					fam.push(w);
				}
			}
			let refs: Vec<&[u8]> = fam.iter().map(|t| t.as_slice()).collect();
			crate::core::run(&LAWS, &refs, &[ty as i64]);
		});
	}
}

// ---------------------------------------------------------------- C13
fn hash_suite(m: &Model, c: &Ctx) {
	for ty in 0..N_STR {
		let list = corpus(m, ty, c.seed, c.n(1500, 8000));
		par(list.len(), |i| {
			let mut rng = Rng::new(c.seed, (ty * 100_000 + i) as u64);
			let t = &list[i];
			for _ in 0..3 {
				run2(&HASH, t, &recase(&mut rng, t), &[ty as i64]);
			}
			run2(&HASH, &t.to_ascii_lowercase(), &t.to_ascii_uppercase(), &[ty as i64]);
			run2(&HASH, t, t, &[ty as i64]);
			run2(&HASH, t, rng.pick(&list), &[ty as i64]);
			if t.len() < 64 {
				// each letter on its own
				for k in 0..t.len() {
					if t[k].is_ascii_alphabetic() {
						let mut w = t.clone();
						w[k] ^= 0x20;
						run2(&HASH, t, &w, &[ty as i64]);
					}
				}
			}
		});
		let d = &m.dfa[ty];
		let comp = completion(m, d);
		let bs: Vec<usize> = boundaries(true).into_iter().chain(1..80).collect();
		par(bs.len(), |i| {
			let mut rng = Rng::new(c.seed, 778 + i as u64);
			for _ in 0..3 {
				let t = walk(d, &comp, &mut rng, bs[i]);
				run2(&HASH, &t, &recase(&mut rng, &t), &[ty as i64]);
			}
		});
	}
	#[cfg(feature = "std")]
	{
		use crate::checks::*;
		// every edge of the graph of Collections, for every type and container
		for ty in 0..N_STR {
			for ci in 0..COLLS.len() {
				let reps = c.n(1, 2);
				par(m.edges.len(), |e| {
					for r in 0..reps {
						if m.edges[e].map != COLLS[ci].1 || (!c.deep && (e + ty * 7 + ci) % 5 != 0) {
							continue;
						}
						let mut rng = Rng::new(c.seed, (ty * 10 + ci + e * 1000 + r * 7) as u64);
						if let Some(x) = spellings(m, ty, &mut rng) {
							let refs: Vec<&[u8]> = x.iter().map(|t| t.as_slice()).collect();
							crate::core::run(&COLL_EDGE, &refs, &[ty as i64, ci as i64, e as i64]);
						}
					}
				});
			}
		}
		// long histories
		let n = c.n(1200, 60_000);
		par(threads() * 8, |i| {
			let mut rng = Rng::new(c.seed, 13_000 + i as u64);
			for _ in 0..n / (threads() * 8) {
				if !c.time_left() {
					return;
				}
				let ty = if rng.chance(1, 3) { 0 } else { rng.below(N_STR) };
				let ci = rng.below(COLLS.len());
				let d = &m.dfa[ty];
				let comp = completion(m, d);
				let top = if rng.chance(1, 6) { 60 } else { 10 };
				let classes = 1 + rng.below(top);
				let mut x: Vec<Vec<u8>> = vec![];
				for _ in 0..classes {
					let l = 1 + rng.below(20);
					let mut t = walk(d, &comp, &mut rng, l);
					if rng.chance(1, 3) && !x.is_empty() {
						// shares a beginning with another key
						let o = rng.pick(&x).clone();
						let cuts: Vec<usize> = (0..o.len()).filter(|j| m.well(ty, &o[..*j])).collect();
						if !cuts.is_empty() {
							t = o[..*rng.pick(&cuts)].to_vec();
						}
					}
					for _ in 0..1 + rng.below(3) {
						x.push(recase(&mut rng, &t));
					}
				}
				let steps = 20 + rng.below(60);
				let mut nums = vec![ty as i64, ci as i64];
				for _ in 0..steps {
					nums.extend([rng.below(COLL_OPS.len()) as i64, rng.below(x.len()) as i64, 1 + rng.below(9) as i64]);
				}
				let refs: Vec<&[u8]> = x.iter().map(|t| t.as_slice()).collect();
				crate::core::run(&COLLECTION, &refs, &nums);
			}
		});
	}
}
/// Three distinct texts of a type, in two spellings each.
#[cfg(feature = "std")]
fn spellings(m: &Model, ty: usize, rng: &mut Rng) -> Option<Vec<Vec<u8>>> {
	let d = &m.dfa[ty];
	thread_local!(static COMP: std::cell::RefCell<std::collections::HashMap<usize, Vec<Option<Vec<u8>>>>> = Default::default());
	COMP.with(|cm| {
		let mut cm = cm.borrow_mut();
		let comp = cm.entry(ty).or_insert_with(|| completion(m, d));
		let mut x: Vec<Vec<u8>> = vec![];
		for _ in 0..200 {
			let l = 1 + rng.below(14);
			let t = walk(d, comp, rng, l);
			if x.iter().any(|o| m.verdict_eq(o, &t)) {
				continue;
			}
			let mut u = t.clone();
			for _ in 0..8 {
				u = recase(rng, &t);
				if u != t {
					break;
				}
			}
			// a text without letters has one spelling
			if u == t && t.iter().any(|b| b.is_ascii_alphabetic()) {
				u = t.iter().map(|b| if b.is_ascii_alphabetic() { b ^ 0x20 } else { *b }).collect();
			}
			x.push(t);
			x.push(u);
			if x.len() == 6 {
				return Some(x);
			}
		}
		None
	})
}

// ---------------------------------------------------------------- C14
#[cfg(not(feature = "std"))]
fn conv_suite(_: &Model, _: &Ctx) {}
#[cfg(feature = "std")]
fn conv_suite(m: &Model, c: &Ctx) {
	let forms = ["str", "bytes", "string", "vec"];
	let depth = c.n(3, 4);
	for (w, _) in &m.gf {
		run1(&SMALL_TEXT, w, &[0]);
		run1(&SMALL_TEXT, &w.to_ascii_uppercase(), &[0]);
	}
	for b in 0..=255u8 {
		run1(&SMALL_TEXT, &[b], &[1]);
	}
	// every path of conversions, on one text per type
	for ty in 0..N_STR {
		let d = &m.dfa[ty];
		let comp = completion(m, d);
		let mut rng = Rng::new(c.seed, 14 + ty as u64);
		let ts: Vec<Vec<u8>> = (0..3).map(|i| walk(d, &comp, &mut rng, [3, 9, 14][i])).collect();
		let mut paths: Vec<Vec<i64>> = vec![];
		for (s, f) in forms.iter().enumerate() {
			let mut todo: Vec<(Vec<i64>, String)> = vec![(vec![ty as i64, s as i64], f.to_string())];
			while let Some((p, at)) = todo.pop() {
				if p.len() == 2 + depth {
					paths.push(p);
					continue;
				}
				for (o, op) in m.conv.iter().enumerate() {
					if op.1 == at {
						let mut q = p.clone();
						q.push(o as i64);
						todo.push((q, op.2.clone()));
					}
				}
			}
		}
		let keep = c.n(7, 1);
		par(paths.len(), |i| {
			if i % keep == ty % keep {
				run1(&CONVERT, &ts[i % 3], &paths[i]);
			}
		});
	}
	// random long walks, dropping buffers on the way
	let n = c.n(8000, 400_000);
	par(threads() * 8, |i| {
		let mut rng = Rng::new(c.seed, 14_000 + i as u64);
		let comps: Vec<_> = (0..N_STR).map(|ty| completion(m, &m.dfa[ty])).collect();
		for _ in 0..n / (threads() * 8) {
			if !c.time_left() {
				return;
			}
			let ty = rng.below(N_STR);
			let top = if rng.chance(1, 8) { 600 } else { 30 };
			let l = 1 + rng.below(top);
			let t = walk(&m.dfa[ty], &comps[ty], &mut rng, l);
			let s = rng.below(4);
			let mut at = forms[s].to_string();
			let mut p = vec![ty as i64, s as i64];
			for _ in 0..3 + rng.below(12) {
				if rng.chance(1, 4) {
					p.push(-1);
				}
				let ops: Vec<usize> = (0..m.conv.len()).filter(|o| m.conv[*o].1 == at).collect();
				if ops.is_empty() {
					break;
				}
				let o = *rng.pick(&ops);
				at = m.conv[o].2.clone();
				p.push(o as i64);
			}
			run1(&CONVERT, &t, &p);
		}
	});
	for ty in 0..N_STR {
		let list = corpus(m, ty, c.seed, c.n(800, 8000));
		par(list.len(), |i| {
			let mut rng = Rng::new(c.seed, (ty * 100_000 + i) as u64);
			run1(&OWNED_SAME, &list[i], &[ty as i64]);
			for _ in 0..2 {
				run2(&CLONE_FROM, &list[i], rng.pick(&list), &[ty as i64]);
			}
			run2(&CLONE_FROM, &list[i], &recase(&mut rng, &list[i]), &[ty as i64]);
		});
		let d = &m.dfa[ty];
		let comp = completion(m, d);
		par(boundaries(true).len(), |i| {
			let mut rng = Rng::new(c.seed, 100 + i as u64);
			let t = walk(d, &comp, &mut rng, boundaries(true)[i]);
			run1(&OWNED_SAME, &t, &[ty as i64]);
			run2(&CLONE_FROM, &t, rng.pick(&list), &[ty as i64]);
			run2(&CLONE_FROM, rng.pick(&list), &t, &[ty as i64]);
		});
	}
}

// ---------------------------------------------------------------- C15
#[cfg(not(all(feature = "std", feature = "serde")))]
fn serde_suite(_: &Model, _: &Ctx) {}
#[cfg(all(feature = "std", feature = "serde"))]
fn serde_suite(m: &Model, c: &Ctx) {
	let odd: Vec<Vec<u8>> = odd().into_iter().filter(|o| std::str::from_utf8(o).is_ok()).collect();
	for ty in 0..N_STR {
		let x = [ty as i64];
		crate::core::run(&SERDE_OTHER, &[], &x);
		let list = corpus(m, ty, c.seed, c.n(800, 8000));
		par(list.len(), |i| {
			let mut rng = Rng::new(c.seed, (ty * 100_000 + i) as u64);
			let t = &list[i];
			if t.len() > 3000 && i % 9 != 0 {
				return;
			}
			run1(&SERDE, t, &x);
			run1(&SERDE, &recase(&mut rng, t), &x);
			// refused by some types, accepted by others
			for _ in 0..2 {
				let o = rng.below(N_STR);
				let mut w = t.clone();
				let i = rng.below(w.len() + 1);
				match rng.below(6) {
					0 => w.insert(i, b'-'),
					1 => w.truncate(i),
					2 => {
						let o = rng.pick(&odd);
						w.splice(i..i, o.iter().copied());
					}
					3 => w.insert(0, b' '),
					4 => w.push(b'\n'),
					_ => w.insert(i, alnum(&mut rng)),
				}
				run1(&SERDE, &w, &x);
				run1(&SERDE, t, &[o as i64]);
			}
		});
		run1(&SERDE, b"", &x);
		for b in 0..128u8 {
			run1(&SERDE, &[b], &x);
		}
		for o in &odd {
			run1(&SERDE, o, &x);
		}
		let d = &m.dfa[ty];
		let acc = access(m, d);
		par(d.n, |s| {
			if let Some(a) = &acc[s] {
				run1(&SERDE, a, &x);
				for b in reps(m) {
					if b < 128 {
						run1(&SERDE, &[a.as_slice(), &[b]].concat(), &x);
					}
				}
			}
		});
		if c.deep {
			shapes(m, ty, POOL, 3, c.seed, &|t| {
				run1(&SERDE, t, &x);
			});
		}
	}
}

// ---------------------------------------------------------------- C16
fn gf_suite(m: &Model, c: &Ctx) {
	crate::core::run(&GF_LIST, &[], &[]);
	let odd = odd();
	// every letter case of every registration
	for (w, _) in &m.gf {
		let letters: Vec<usize> = (0..w.len()).filter(|i| w[*i].is_ascii_alphabetic()).collect();
		let k = letters.len().min(c.n(11, 14));
		par(1 << k, |bits| {
			let mut t = w.to_ascii_lowercase();
			for (j, i) in letters.iter().enumerate().take(k) {
				if bits >> j & 1 == 1 {
					t[*i] ^= 0x20
				}
			}
			run1(&GF_TAG, &t, &[]);
		});
		let mut rng = Rng::new(c.seed, 16);
		for _ in 0..c.n(500, 10_000) {
			run1(&GF_TAG, &recase(&mut rng, w), &[]);
		}
		// one edit away
		par(w.len() + 1, |i| {
			for b in 0..=255u8 {
				let mut t = w.clone();
				t.insert(i, b);
				run1(&GF_TAG, &t, &[]);
				if i < w.len() {
					let mut t = w.clone();
					t[i] = b;
					run1(&GF_TAG, &t, &[]);
				}
			}
			for o in &odd {
				let mut t = w.clone();
				t.splice(i..i, o.iter().copied());
				run1(&GF_TAG, &t, &[]);
				if i < w.len() {
					let mut t = w.clone();
					t.splice(i..i + 1, o.iter().copied());
					run1(&GF_TAG, &t, &[]);
				}
			}
			run1(&GF_TAG, &w[..i], &[]);
			run1(&GF_TAG, &w[i..], &[]);
			if i < w.len() {
				let mut t = w.clone();
				t.remove(i);
				run1(&GF_TAG, &t, &[]);
			}
		});
		for (v, _) in &m.gf {
			// halves of different registrations
			let cut = |w: &[u8]| w.iter().position(|b| *b == b'-').unwrap();
			run1(&GF_TAG, &[&w[..cut(w)], &v[cut(v)..]].concat(), &[]);
			run1(&GF_TAG, &[&w[..], b"-", &v[..]].concat(), &[]);
		}
		for e in [&b"-a"[..], b"-x-a", b"a", b"-", b"-aa", b"-1996", b"\0", b" ", b"-x-private", b"-u-co-phonebk"] {
			run1(&GF_TAG, &[&w[..], e].concat(), &[]);
			run1(&GF_TAG, &[e, &w[..]].concat(), &[]);
		}
	}
	// "i-" and friends with any short tail
	par(26 * 36, |i| {
		let al = |x: usize| if x < 26 { b'a' + x as u8 } else { b'0' + (x - 26) as u8 };
		for x in 0..36 {
			run1(&GF_TAG, &[b'i', b'-', b'a' + (i / 36) as u8, al(i % 36), al(x)], &[]);
			run1(&GF_TAG, &[b'z', b'h', b'-', b'a' + (i / 36) as u8, al(i % 36), al(x)], &[]);
		}
	});
	let l = corpus(m, 0, c.seed, c.n(4000, 60_000));
	par(l.len(), |i| {
		run1(&GF_TAG, &l[i], &[]);
	});
	run1(&GF_TAG, b"", &[]);
	shapes(m, 0, &["i", "AAA", "AAAA", "AAAAA", "AA", "x"], 3, c.seed, &|t| {
		run1(&GF_TAG, t, &[]);
	});
}

// ---------------------------------------------------------------- C17
fn single_suite(m: &Model, c: &Ctx) {
	for b in 0..256 {
		crate::core::run(&SINGLE_BYTE, &[], &[b]);
	}
	par(0x1100, |i| {
		for j in 0..0x100 {
			crate::core::run(&SINGLE_CHAR, &[], &[(i * 0x100 + j) as i64]);
		}
	});
	run1(&SINGLE_TEXT, b"", &[]);
	par(128, |i| {
		for j in 0..128u8 {
			run1(&SINGLE_TEXT, &[i as u8, j], &[]);
			if c.deep {
				for k in 0..128u8 {
					run1(&SINGLE_TEXT, &[i as u8, j, k], &[]);
				}
			}
		}
	});
	for o in odd() {
		run1(&SINGLE_TEXT, &o, &[]);
		for b in [b'a', b'x', b'0', b'-'] {
			run1(&SINGLE_TEXT, &[&o[..], &[b]].concat(), &[]);
			run1(&SINGLE_TEXT, &[&[b], &o[..]].concat(), &[]);
		}
	}
	for ty in 0..N_STR {
		let l = corpus(m, ty, c.seed, 100);
		par(l.len(), |i| {
			run1(&SINGLE_TEXT, &l[i], &[]);
		});
	}
}

// ---------------------------------------------------------------- C19
fn twin_suite(m: &Model, c: &Ctx) {
	for ty in 0..N_STR {
		let x = [ty as i64];
		let share = N_STR;
		texts(m, c, ty, share, &|t| {
			let mut rng = Rng::new(c.seed, t.iter().fold(t.len() as u64, |a, b| a.wrapping_mul(41).wrapping_add(*b as u64)));
			run2(&TWIN, &t.to_ascii_lowercase(), &t.to_ascii_uppercase(), &x);
			run2(&TWIN, t, &recase(&mut rng, t), &x);
			// one letter
			if !t.is_empty() && t.len() < 1000 {
				let i = rng.below(t.len());
				let mut w = t.to_vec();
				if w[i].is_ascii_alphabetic() {
					w[i] ^= 0x20;
					run2(&TWIN, t, &w, &x);
				}
				// and of a refused text
				let mut w = t.to_vec();
				w[i] = if rng.chance(1, 2) { b'-' } else { alnum(&mut rng) };
				run2(&TWIN, &w.to_ascii_lowercase(), &w.to_ascii_uppercase(), &x);
			}
		});
		// every transition, every letter, both cases
		let d = &m.dfa[ty];
		let acc = access(m, d);
		let comp = completion(m, d);
		par(d.n, |s| {
			let Some(a) = &acc[s] else { return };
			for b in b'a'..=b'z' {
				let t = d.step(s as u16, b);
				let e: &[u8] = comp[t as usize].as_deref().unwrap_or(b"");
				for base in [a.clone(), a.to_ascii_uppercase()] {
					run2(&TWIN, &[&base[..], &[b], e].concat(), &[&base[..], &[b ^ 0x20], e].concat(), &x);
					run2(&TWIN, &[&base[..], &[b], e].concat(), &[&base[..], &[b ^ 0x20], &e.to_ascii_uppercase()].concat(), &x);
				}
			}
		});
	}
	for w in gf_words(m) {
		run2(&TWIN, &w, &w.to_ascii_lowercase(), &[0]);
		run2(&TWIN, &w, &w.to_ascii_lowercase(), &[1]);
	}
}

// ---------------------------------------------------------------- C20
/// What does not need std, of all properties.
fn union_suite(m: &Model, c: &Ctx) {
	let odd = odd();
	for ty in 0..N_STR {
		let x = [ty as i64];
		let d = &m.dfa[ty];
		wmethod(m, ty, if d.n > 60 { 1 } else { 2 }, c.seed, &|t| {
			run1(&ACCEPT, t, &x);
		});
		let acc = access(m, d);
		par(d.n, |s| {
			let Some(a) = &acc[s] else { return };
			for b in 0..=255u8 {
				run1(&ACCEPT, &[a.as_slice(), &[b]].concat(), &x);
			}
			for o in &odd {
				run1(&CONS, &[a.as_slice(), o].concat(), &x);
			}
		});
		let mut list = corpus(m, ty, c.seed, c.n(1200, 20_000));
		let comp = completion(m, d);
		let mut rng = Rng::new(c.seed, 20);
		for b in boundaries(true) {
			list.push(walk(d, &comp, &mut rng, b));
		}
		if ty <= 1 {
			list.extend(boundary_tags(&mut rng, false));
		}
		let one = |t: &[u8], i: usize| {
			let mut rng = Rng::new(c.seed, (ty * 100_000 + i) as u64);
			run1(&CONS, t, &x);
			run1(&CLOSURE, t, &x);
			let u = recase(&mut rng, t);
			run2(&TWIN, t, &u, &x);
			run2(&HASH, t, &u, &x);
			run2(&EQUAL, t, &u, &x);
			run2(&ORDER, t, &u, &x);
			let o = rng.pick(&list);
			run2(&EQUAL, t, o, &x);
			run2(&ORDER, t, o, &x);
			run2(&ORDER, o, t, &x);
			let cut: Vec<usize> = if t.len() < 300 { (0..t.len()).filter(|i| m.well(ty, &t[..*i])).collect() } else { vec![] };
			if !cut.is_empty() {
				let p = &t[..*rng.pick(&cut)];
				run2(&ORDER, t, p, &x);
				run2(&EQUAL, p, t, &x);
			}
			match ty {
				0 | NORMAL => {
					if ty == 0 {
						run1(&CLASS, t, &[]);
						run1(&GF_TAG, t, &[]);
					} else {
						run1(&PARTITION, t, &[]);
						run1(&TAG_LANGUAGE, t, &[]);
						run1(&TAG_EXTENSIONS, t, &[]);
					}
					run1(&PARTS, t, &x);
					run1(&PRIVATE, t, &x);
				}
				LANGUAGE | EXTLANG => {
					run1(&LANGUAGE_K, t, &x);
				}
				VARIANTS => {
					run1(&VARIANTS_K, t, &[]);
					let ops: Vec<i64> = (0..t.len() / 5 + 3).map(|_| rng.below(4) as i64).collect();
					crate::core::run(&INTERLEAVE, &[t], &ops);
				}
				EXTENSION | EXTENSIONS => {
					run1(&EXTENSIONS_K, t, &x);
				}
				PU => {
					run1(&PRIVATE, t, &x);
				}
				_ => (),
			}
		};
		par(list.len(), |i| one(&list[i], i));
		if ty <= 1 || c.deep {
			shapes(m, ty, SMALL, 4, c.seed, &|t| one(t, t.len()));
		}
	}
	for n in 0..=4usize {
		par(1 << (n + 2), |bits| {
			let mut rng = Rng::new(c.seed, n as u64);
			let t = variant_list(&mut rng, n);
			let ops: Vec<i64> = (0..n + 2).map(|k| (bits >> k & 1) as i64).collect();
			crate::core::run(&INTERLEAVE, &[&t], &ops);
		});
	}
	crate::core::run(&GF_LIST, &[], &[]);
	for w in gf_words(m) {
		run1(&GF_TAG, &w, &[]);
		run1(&CLASS, &w, &[]);
		for i in 0..w.len() {
			let mut t = w.clone();
			t[i] = b'q';
			run1(&GF_TAG, &t, &[]);
		}
	}
	for b in 0..256 {
		crate::core::run(&SINGLE_BYTE, &[], &[b]);
	}
	par(0x200, |i| {
		for j in 0..0x100 {
			crate::core::run(&SINGLE_CHAR, &[], &[(i * 0x100 + j) as i64]);
		}
	});
	for i in 0..128u8 {
		for j in 0..128u8 {
			run1(&SINGLE_TEXT, &[i, j], &[]);
		}
	}
	if c.deep {
		laws_suite(m, c);
	}
}

/// Everything observable without std, one digest per text: compared between
/// builds of different features (C20).
pub fn fingerprint(path: &str, seed: u64, deep: bool) {
	use std::fmt::Write;
	let m = model();
	let odd = odd();
	let mut out = String::new();
	for ty in 0..N_STR {
		let d = &m.dfa[ty];
		let mut list = corpus(m, ty, seed + 3, if deep { 10_000 } else { 1500 });
		let mut rng = Rng::new(seed, 2020 + ty as u64);
		let n = list.len();
		for i in 0..n {
			if i % 2 == 0 && list[i].len() < 300 {
				let mut w = list[i].clone();
				let o = rng.pick(&odd);
				let k = rng.below(w.len() + 1);
				w.splice(k..k, o.iter().copied());
				list.push(w);
			}
		}
		for a in access(m, d).into_iter().flatten() {
			for o in &odd {
				list.push([a.as_slice(), o].concat());
			}
			for b in 0..=255u8 {
				list.push([a.as_slice(), &[b]].concat());
			}
		}
		let rows = std::sync::Mutex::new(vec![String::new(); list.len()]);
		par(list.len(), |i| {
			let t = &list[i];
			let r = std::panic::catch_unwind(|| crate::checks::observe(ty, t, &list[(i * 7 + 1) % n]));
			let r = match r {
				Ok(s) => format!("{:016x}", hash_fnv(s.as_bytes())),
				Err(e) => panic_text(e),
			};
			rows.lock().unwrap()[i] = r;
		});
		for (r, t) in rows.into_inner().unwrap().iter().zip(&list) {
			let _ = writeln!(out, "{}\t{}\t{}\t{}", ty, t.iter().map(|b| format!("{b:02x}")).collect::<String>(), r.replace(['\t', '\n'], " "), show(t));
		}
	}
	std::fs::write(path, out).unwrap();
}

/// Literals for langtag!: lines "1 text" (well-formed) or "0 text".
pub fn literals(path: &str, seed: u64, deep: bool) {
	use std::collections::BTreeSet;
	let m = model();
	let mut set: BTreeSet<Vec<u8>> = BTreeSet::new();
	let mut rng = Rng::new(seed, 18);
	let scale = if deep { 4 } else { 1 };
	// every transition of the graph, into acceptance; every state refused next
	for w in transition_cover(m, 0, seed) {
		set.insert(w);
	}
	let d = &m.dfa[0];
	let acc = access(m, d);
	for s in 0..d.n {
		if let Some(a) = &acc[s] {
			set.insert(a.clone());
			for b in *b"a0x-Z9_ " {
				let mut w = a.clone();
				w.push(b);
				set.insert(w);
			}
		}
	}
	for w in corpus(m, 0, seed, 400 * scale) {
		if w.len() < 300 {
			// a near miss for each
			let mut t = w.clone();
			if !t.is_empty() {
				let i = rng.below(t.len());
				match rng.below(4) {
					0 => t[i] = alnum(&mut rng),
					1 => t.insert(i, b'-'),
					2 => {
						t.remove(i);
					}
					_ => t.truncate(i),
				}
			}
			set.insert(t);
			set.insert(w);
		}
	}
	for w in gf_words(m) {
		set.insert([&w[..], b"-"].concat());
		set.insert(w[..w.len() - 1].to_vec());
		set.insert([&w[..], b"a"].concat());
		set.insert(w);
	}
	for b in [127usize, 128, 129, 255, 256, 257, 511, 513, 1023, 1025, 4097] {
		set.insert(random_tag(&mut rng, b));
		let comp = completion(m, d);
		set.insert(walk(d, &comp, &mut rng, b));
		set.insert([walk(d, &comp, &mut rng, b), b"-".to_vec()].concat());
	}
	for o in odd() {
		if std::str::from_utf8(&o).is_ok() {
			set.insert(o.clone());
			set.insert([b"fr-", &o[..]].concat());
			set.insert([b"f", &o[..]].concat());
			set.insert([&o[..], b"r-FR"].concat());
			set.insert([b"de-1996-a-b", &o[..]].concat());
		}
	}
	set.insert(vec![]);
	for w in dictionary() {
		set.insert(w.clone());
	}
	let mut s = String::new();
	for w in set {
		if std::str::from_utf8(&w).is_ok() {
			s.push_str(if m.well(0, &w) { "1 " } else { "0 " });
			for b in &w {
				s.push_str(&format!("{b:02x}"));
			}
			s.push('\n');
		}
	}
	std::fs::write(path, s).unwrap();
}

// ---------------------------------------------------------------- C22
/// Every way through the stages (of a list: 0 to 3 pieces, and many), with
/// texts of the corpora for the pieces.
fn compose_suite(m: &Model, c: &Ctx) {
	let mut pools: std::collections::HashMap<usize, Vec<Vec<u8>>> = Default::default();
	for s in m.forms.iter().flat_map(|f| &f.stages) {
		let Some(ty) = s.ty else { continue };
		pools.entry(ty).or_insert_with(|| {
			if ty == SINGLETON {
				return (0..=255u8).filter(|b| m.single[*b as usize]).map(|b| vec![b]).collect();
			}
			let mut v = corpus(m, ty, c.seed, c.n(1500, 6000));
			v.retain(|t| !t.is_empty());
			v.sort();
			v.dedup();
			v
		});
	}
	// a few of every length first, so that short and long ones are equally likely
	let lens: std::collections::HashMap<usize, Vec<Vec<&Vec<u8>>>> = pools
		.iter()
		.map(|(ty, v)| {
			let mut by: std::collections::BTreeMap<usize, Vec<&Vec<u8>>> = Default::default();
			for t in v {
				by.entry(t.len().min(40)).or_default().push(t);
			}
			(*ty, by.into_values().collect())
		})
		.collect();
	let x: [Vec<u8>; 2] = [b"x".to_vec(), b"X".to_vec()];
	for (fi, f) in m.forms.iter().enumerate() {
		// how many pieces per stage
		let mut plans: Vec<Vec<usize>> = vec![vec![]];
		for (i, s) in f.stages.iter().enumerate() {
			let counts: Vec<usize> = match s.max {
				_ if i == 0 && s.max == 1 => vec![1],
				1 => vec![0, 1],
				0 => vec![0, 1, 2, 3, 9, 30],
				n => (0..=n).collect(),
			};
			plans = plans.into_iter().flat_map(|p| counts.iter().map(move |k| [p.clone(), vec![*k]].concat())).collect();
		}
		plans.retain(|p| p[0] > 0);
		let per = c.n(60_000, 1_000_000) / plans.len().max(1) / if f.stages.len() > 2 { 1 } else { 4 } + 20;
		par(plans.len(), |pi| {
			let p = &plans[pi];
			let mut rng = Rng::new(c.seed, 77_000 + (fi * 1000 + pi) as u64);
			for round in 0..per {
				if round > 200 && !c.time_left() {
					break;
				}
				let mut nums = vec![fi as i64];
				let mut texts: Vec<&[u8]> = vec![];
				let whole = rng.chance(1, 4);
				for (i, s) in f.stages.iter().enumerate() {
					let mut n = p[i];
					if n > 3 && rng.chance(1, 2) {
						n = rng.below(n) + 1;
					}
					for _ in 0..n {
						nums.push(i as i64 + 1);
						texts.push(match s.ty {
							None => rng.pick(&x),
							Some(ty) if whole => rng.pick(&pools[&ty]),
							Some(ty) => {
								let lens = &lens[&ty];
								// mostly short pieces in long lists
								let l = if n > 3 { rng.below(lens.len().min(8)) } else { rng.below(lens.len()) };
								rng.pick(&lens[l])
							}
						});
					}
					// where later pieces need a short beginning
					if i == 0 && f.stages.len() > 1 && f.stages[1].short > 0 && p[1] > 0 && rng.chance(9, 10) {
						let l = rng.below(2);
						*texts.last_mut().unwrap() = rng.pick(&lens[&s.ty.unwrap()][l]);
					}
				}
				crate::core::run(&COMPOSE, &texts, &nums);
			}
		});
	}
	// two things in the same tag that look alike: the same subtags again and again
	let f = m.forms.iter().position(|f| f.name == "tag").unwrap();
	par(c.n(200, 2000), |i| {
		let mut rng = Rng::new(c.seed, 78_000 + i as u64);
		let v: Vec<Vec<u8>> = (0..2).map(|_| {
			let mut t = vec![];
			let s = *rng.pick(&["DNNN", "NNNNN", "NNNNNNNN", "AAAAA"]);
			fill(&mut rng, s, &mut t);
			t
		}).collect();
		let ext: Vec<Vec<u8>> = (0..3).map(|k| {
			let mut t = vec![];
			fill(&mut rng, if k == 0 { "D" } else { "A" }, &mut t);
			if t[0] | 32 == b'x' { t[0] = b'u' }
			for _ in 0..1 + rng.below(3) {
				t.push(b'-');
				if rng.chance(1, 2) { t.extend(recase(&mut rng, &v[0])) } else { fill(&mut rng, "NN", &mut t) }
			}
			t
		}).collect();
		let pu = [b"x-".as_slice(), &v[0], b"-", &ext[0], b"-x"].concat();
		for lang in [b"en".as_slice(), b"zh-yue", b"abcd", b"abcdefgh"] {
			for opts in 0..8 {
				let mut texts: Vec<Vec<u8>> = vec![lang.to_vec()];
				let mut nums = vec![f as i64, 1];
				if opts & 1 != 0 { texts.push(b"Latn".to_vec()); nums.push(2) }
				if opts & 2 != 0 { texts.push(if lang.len() == 2 { lang.to_vec() } else { b"419".to_vec() }); nums.push(3) }
				for _ in 0..rng.below(4) { let k = rng.below(2); texts.push(recase(&mut rng, &v[k])); nums.push(4) }
				for _ in 0..rng.below(4) { let k = rng.below(3); texts.push(recase(&mut rng, &ext[k])); nums.push(5) }
				if opts & 4 != 0 { texts.push(recase(&mut rng, &pu)); nums.push(6) }
				let refs: Vec<&[u8]> = texts.iter().map(|t| t.as_slice()).collect();
				crate::core::run(&COMPOSE, &refs, &nums);
			}
		}
	});
	for (f, n) in m.forms.iter().zip(&crate::compose::JUDGED) {
		note(&format!("built: {}", f.name), n.load(Relaxed));
	}
}
