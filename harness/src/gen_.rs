//! Texts derived from the specification's state graphs.
use crate::core::*;
use crate::model::*;
use std::collections::VecDeque;

/// One byte per symbol, in symbol order.
pub fn reps(m: &Model) -> Vec<u8> {
	let mut r = vec![None; m.nsym];
	for b in (0..=255u8).rev() {
		r[m.sym[b as usize] as usize] = Some(b);
	}
	// prefer lower case and a digit in the middle
	for b in b'a'..=b'z' {
		r[m.sym[b as usize] as usize] = Some(b);
	}
	r.into_iter().map(|b| b.unwrap()).collect()
}

/// Shortest word leading to each state.
pub fn access(m: &Model, d: &Dfa) -> Vec<Option<Vec<u8>>> {
	let reps = reps(m);
	let mut a: Vec<Option<Vec<u8>>> = vec![None; d.n];
	a[d.init as usize] = Some(vec![]);
	let mut todo = VecDeque::from([d.init]);
	while let Some(s) = todo.pop_front() {
		for &b in &reps {
			let t = d.step(s, b);
			if a[t as usize].is_none() {
				let mut w = a[s as usize].clone().unwrap();
				w.push(b);
				a[t as usize] = Some(w);
				todo.push_back(t);
			}
		}
	}
	a
}
/// Shortest word from each state to acceptance.
pub fn completion(m: &Model, d: &Dfa) -> Vec<Option<Vec<u8>>> {
	let reps = reps(m);
	let mut c: Vec<Option<Vec<u8>>> = (0..d.n).map(|s| d.acc[s].then(Vec::new)).collect();
	loop {
		let mut ch = false;
		let prev = c.clone();
		for s in 0..d.n {
			if c[s].is_some() {
				continue;
			}
			for &b in &reps {
				if let Some(w) = &prev[d.step(s as u16, b) as usize] {
					let mut v = vec![b];
					v.extend_from_slice(w);
					c[s] = Some(v);
					ch = true;
					break;
				}
			}
		}
		if !ch {
			return c;
		}
	}
}
/// Words telling any two inequivalent states apart.
pub fn separators(m: &Model, d: &Dfa) -> Vec<Vec<u8>> {
	let reps = reps(m);
	let mut w: Vec<Vec<u8>> = vec![vec![]];
	// equivalence classes by Moore refinement
	let mut class: Vec<usize> = d.acc.iter().map(|a| *a as usize).collect();
	loop {
		let mut keys: Vec<Vec<usize>> = vec![];
		let mut next = vec![0; d.n];
		for s in 0..d.n {
			let mut k = vec![class[s]];
			k.extend(reps.iter().map(|b| class[d.step(s as u16, *b) as usize]));
			next[s] = match keys.iter().position(|x| *x == k) {
				Some(i) => i,
				None => {
					keys.push(k);
					keys.len() - 1
				}
			};
		}
		let before = class.iter().collect::<std::collections::BTreeSet<_>>().len();
		if keys.len() == before {
			break;
		}
		class = next;
	}
	// add a word for each pair the words so far do not separate
	let sig = |s: usize, w: &[Vec<u8>]| -> Vec<bool> { w.iter().map(|x| d.acc[d.run(s as u16, x) as usize]).collect() };
	let mut sigs: Vec<Vec<bool>> = (0..d.n).map(|s| sig(s, &w)).collect();
	for s in 0..d.n {
		for t in 0..s {
			if class[s] == class[t] || sigs[s] != sigs[t] {
				continue;
			}
			let mut seen = std::collections::HashSet::from([(s as u16, t as u16)]);
			let mut todo = VecDeque::from([(s as u16, t as u16, vec![])]);
			'bfs: while let Some((a, b, x)) = todo.pop_front() {
				for &c in &reps {
					let (p, r) = (d.step(a, c), d.step(b, c));
					let mut y: Vec<u8> = x.clone();
					y.push(c);
					if d.acc[p as usize] != d.acc[r as usize] {
						w.push(y);
						for (z, g) in sigs.iter_mut().enumerate() {
							g.push(d.acc[d.run(z as u16, w.last().unwrap()) as usize]);
						}
						break 'bfs;
					}
					if seen.insert((p, r)) {
						todo.push_back((p, r, y));
					}
				}
			}
		}
	}
	w
}
/// Same path through the states, other letters, digits and cases.
pub fn dress(d: &Dfa, rng: &mut Rng, w: &mut [u8]) {
	let mut s = d.init;
	for b in w {
		let t = d.step(s, *b);
		if b.is_ascii_alphanumeric() {
			for _ in 0..4 {
				let c = alnum(rng);
				if d.step(s, c) == t {
					*b = c;
					break;
				}
			}
			if b.is_ascii_alphabetic() && rng.chance(1, 2) && d.step(s, *b ^ 0x20) == t {
				*b ^= 0x20;
			}
		}
		s = t;
	}
}
pub const ALNUM: &[u8; 62] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
pub fn alnum(r: &mut Rng) -> u8 {
	*r.pick(ALNUM)
}
pub fn alpha(r: &mut Rng) -> u8 {
	ALNUM[r.below(52)]
}
pub fn digit(r: &mut Rng) -> u8 {
	b'0' + r.below(10) as u8
}
pub fn recase(rng: &mut Rng, t: &[u8]) -> Vec<u8> {
	let mode = rng.below(5);
	t.iter()
		.map(|b| match mode {
			0 => b.to_ascii_lowercase(),
			1 => b.to_ascii_uppercase(),
			2 if b.is_ascii_alphabetic() => b ^ 0x20,
			_ if b.is_ascii_alphabetic() && rng.chance(1, 2) => b ^ 0x20,
			_ => *b,
		})
		.collect()
}

/// The W-method: every state, every continuation of up to `k` symbols, every
/// separating suffix.  Exact for any implementation automaton with up to
/// `k - 1` states more than the specification's.
pub fn wmethod(m: &Model, ty: usize, k: usize, seed: u64, f: &(dyn Fn(&[u8]) + Sync)) -> u64 {
	use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
	let d = &m.dfa[ty];
	let acc: Vec<Vec<u8>> = access(m, d).into_iter().flatten().collect();
	let seps = separators(m, d);
	let reps = reps(m);
	let total = AtomicU64::new(0);
	par(acc.len(), |i| {
		let mut rng = Rng::new(seed, (ty * 1000 + i) as u64);
		let mut buf = acc[i].clone();
		let base = buf.len();
		let mut cnt = 0u64;
		fn rec(
			d: &Dfa, k: usize, buf: &mut Vec<u8>, reps: &[u8], seps: &[Vec<u8>], rng: &mut Rng,
			f: &(dyn Fn(&[u8]) + Sync), cnt: &mut u64,
		) {
			let n = buf.len();
			for s in seps {
				buf.extend_from_slice(s);
				let mut w = buf.clone();
				dress(d, rng, &mut w);
				f(&w);
				*cnt += 1;
				buf.truncate(n);
			}
			if k > 0 && !stop() {
				for &b in reps {
					buf.push(b);
					rec(d, k - 1, buf, reps, seps, rng, f, cnt);
					buf.pop();
				}
			}
		}
		rec(d, k, &mut buf, &reps, &seps, &mut rng, f, &mut cnt);
		assert_eq!(buf.len(), base);
		total.fetch_add(cnt, Relaxed);
	});
	total.into_inner()
}

/// A random accepted word of about `len` bytes.
pub fn walk(d: &Dfa, comp: &[Option<Vec<u8>>], rng: &mut Rng, len: usize) -> Vec<u8> {
	let mut w = vec![];
	let mut s = d.init;
	while w.len() < len {
		let mut b = if rng.chance(1, 5) { b'-' } else { alnum(rng) };
		let mut tries = 0;
		while !d.alive[d.step(s, b) as usize] && tries < 40 {
			b = if rng.chance(1, 5) { b'-' } else { alnum(rng) };
			tries += 1;
		}
		if tries == 40 {
			break;
		}
		w.push(b);
		s = d.step(s, b);
		if d.acc[s as usize] && rng.chance(1, len as u64 + 1) {
			return w;
		}
	}
	let n = w.len();
	w.extend_from_slice(comp[s as usize].as_ref().unwrap());
	for b in &mut w[n..] {
		// keep the completion but vary its case
		if b.is_ascii_alphabetic() && rng.chance(1, 2) {
			*b ^= 0x20
		}
	}
	w
}

/// A random accepted word made of very few different subtags, each time in
/// another letter case.
pub fn echo(d: &Dfa, comp: &[Option<Vec<u8>>], rng: &mut Rng, n: usize) -> Vec<u8> {
	let pool: Vec<Vec<u8>> = (0..1 + rng.below(4))
		.map(|_| {
			let mut t = vec![];
			let p = *rng.pick(POOL);
			fill(rng, p, &mut t);
			t
		})
		.collect();
	let mut w: Vec<u8> = vec![];
	let mut s = d.init;
	'out: for _ in 0..n {
		for _ in 0..6 {
			let k = w.len();
			if k > 0 {
				w.push(b'-');
			}
			let p = if k == 0 && rng.chance(1, 2) {
				let mut t = vec![];
				let p = *rng.pick(POOL);
				fill(rng, p, &mut t);
				t
			} else {
				let p = rng.pick(&pool).clone();
				recase(rng, &p)
			};
			w.extend(p);
			let t = d.run(s, &w[k..]);
			if d.alive[t as usize] {
				s = t;
				continue 'out;
			}
			w.truncate(k);
		}
		break;
	}
	w.extend_from_slice(comp[s as usize].as_ref().unwrap());
	w
}

/// Subtag shapes: A letter, D digit, N either; anything else as it is.
pub const POOL: &[&str] = &[
	"AA", "AAA", "AAAA", "AAAAA", "AAAAAAAA", "A", "D", "x", "DDD", "DNNN", "NNNNN", "NNNNNNNN", "NN", "NNN", "NNNN", "AD",
	"DA", "AAAAAA", "NNNNNN", "DNNNN", "en", "i",
];
pub const SMALL: &[&str] = &["AA", "AAA", "AAAA", "AAAAA", "DNNN", "A", "D", "x", "NNNNNNNN"];
pub fn fill(rng: &mut Rng, shape: &str, out: &mut Vec<u8>) {
	for c in shape.bytes() {
		out.push(match c {
			b'A' => alpha(rng),
			b'D' => digit(rng),
			b'N' => alnum(rng),
			c if rng.chance(1, 2) => c.to_ascii_uppercase(),
			c => c,
		});
	}
}
/// Every sequence of up to `depth` shapes that the type accepts, filled at random.
pub fn shapes(m: &Model, ty: usize, pool: &[&str], depth: usize, seed: u64, f: &(dyn Fn(&[u8]) + Sync)) -> u64 {
	use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
	let d = &m.dfa[ty];
	let total = AtomicU64::new(0);
	let n = pool.len();
	if d.acc[d.init as usize] {
		f(b"");
	}
	par(n * n, |i| {
		fn rec(d: &Dfa, s: u16, buf: &mut Vec<u8>, left: usize, pool: &[&str], rng: &mut Rng, f: &(dyn Fn(&[u8]) + Sync), cnt: &mut u64) {
			if d.acc[s as usize] {
				f(buf);
				*cnt += 1;
			}
			if left == 0 || stop() {
				return;
			}
			for p in pool {
				one(d, s, buf, left, p, rng, pool, f, cnt);
			}
		}
		#[allow(clippy::too_many_arguments)]
		fn one(d: &Dfa, s: u16, buf: &mut Vec<u8>, left: usize, p: &str, rng: &mut Rng, pool: &[&str], f: &(dyn Fn(&[u8]) + Sync), cnt: &mut u64) {
			let k = buf.len();
			for _ in 0..3 {
				if k > 0 {
					buf.push(b'-');
				}
				fill(rng, p, buf);
				let t = d.run(s, &buf[k..]);
				if d.alive[t as usize] {
					rec(d, t, buf, left - 1, pool, rng, f, cnt);
					buf.truncate(k);
					return;
				}
				buf.truncate(k);
			}
		}
		// the first two shapes are fixed by i
		let mut rng = Rng::new(seed, (ty * 100_000 + i) as u64);
		let mut cnt = 0;
		let mut buf = vec![];
		for _ in 0..4 {
			buf.clear();
			fill(&mut rng, pool[i / n], &mut buf);
			let s = d.run(d.init, &buf);
			if !d.alive[s as usize] {
				continue;
			}
			if i % n == 0 && d.acc[s as usize] {
				f(&buf);
				cnt += 1;
			}
			if depth > 1 {
				one(d, s, &mut buf, depth - 1, pool[i % n], &mut rng, pool, f, &mut cnt);
			}
			break;
		}
		total.fetch_add(cnt, Relaxed);
	});
	total.into_inner()
}

/// `total` bytes of subtags, each preceded by '-', of min..=max characters.
fn chunks(rng: &mut Rng, total: usize, min: usize, max: usize) -> Vec<usize> {
	let mut left = total;
	let mut v = vec![];
	loop {
		if left >= min + 1 && left <= max + 1 {
			v.push(left - 1);
			return v;
		}
		if left < min + 1 {
			return v; // not exactly possible
		}
		// leave something that can be completed
		let hi = max.min(left - 1);
		let mut c = min + rng.below(hi - min + 1);
		let rest = left - c - 1;
		if rest != 0 && rest < min + 1 {
			// shrink or grow so that the rest is a chunk
			let need = min + 1 - rest;
			if c >= min + need { c -= need } else { c = (c + rest).min(max) }
		}
		v.push(c);
		left -= c + 1;
		if left == 0 {
			return v;
		}
	}
}
/// A normal tag with sections of (about) the given sizes in bytes; 0 = absent.
pub fn sized(rng: &mut Rng, ext: usize, script: bool, region: usize, var: usize, exn: usize, pu: usize) -> Vec<u8> {
	let mut t = vec![];
	if ext > 0 {
		let l = if rng.chance(1, 2) { "AA" } else { "AAA" };
		fill(rng, l, &mut t);
		for _ in 0..ext {
			t.push(b'-');
			fill(rng, "AAA", &mut t);
		}
	} else {
		let l = *rng.pick(&["AA", "AAA", "AAAA", "AAAAA", "AAAAAA", "AAAAAAA", "AAAAAAAA"]);
		fill(rng, l, &mut t);
	}
	if script {
		t.push(b'-');
		fill(rng, "AAAA", &mut t);
	}
	if region > 0 {
		t.push(b'-');
		fill(rng, if region == 2 { "AA" } else { "DDD" }, &mut t);
	}
	for c in chunks(rng, var, 4, 8) {
		t.push(b'-');
		for i in 0..c {
			t.push(if c == 4 && i == 0 { digit(rng) } else { alnum(rng) });
		}
	}
	let mut left = exn;
	while left >= 5 {
		// a singleton and some subtags
		t.push(b'-');
		let mut s = alnum(rng);
		while s | 0x20 == b'x' {
			s = alnum(rng)
		}
		t.push(s);
		left -= 2;
		let part = if left > 60 && rng.chance(1, 2) { 3 + rng.below(50) } else { left };
		let part = if left - part < 5 { left } else { part };
		for c in chunks(rng, part, 2, 8) {
			t.push(b'-');
			for _ in 0..c {
				t.push(alnum(rng));
			}
		}
		left -= part;
	}
	if pu >= 4 {
		t.extend_from_slice(if rng.chance(1, 2) { b"-x" } else { b"-X" });
		for c in chunks(rng, pu - 2, 1, 8) {
			t.push(b'-');
			for _ in 0..c {
				t.push(alnum(rng));
			}
		}
	}
	t
}
pub fn random_tag(rng: &mut Rng, scale: usize) -> Vec<u8> {
	let sz = |rng: &mut Rng, p: u64| if rng.chance(p, 4) { 5 + rng.below(scale.max(1)) } else { 0 };
	let e = if rng.chance(1, 3) { 1 + rng.below(3) } else { 0 };
	let s = rng.chance(1, 2);
	let r = *rng.pick(&[0, 2, 3]);
	let (a, b, c) = (sz(rng, 2), sz(rng, 2), sz(rng, 2));
	sized(rng, e, s, r, a, b, c)
}

/// Multi-byte characters that have been mistaken for ASCII ones, ill-formed
/// UTF-8, over-long forms.
pub fn odd() -> Vec<Vec<u8>> {
	let mut v: Vec<Vec<u8>> = vec![];
	for c in [
		'\u{17f}', '\u{212a}', '\u{130}', '\u{131}', '\u{2010}', '\u{2011}', '\u{2013}', '\u{2212}', '\u{ad}', '\u{ff0d}', '\u{ff10}',
		'\u{660}', '\u{b2}', '\u{e9}', '\u{c9}', '\u{df}', '\u{1e9e}', '\u{3b1}', '\u{430}', '\u{20ac}', '\u{feff}', '\u{fffd}',
		'\u{10ffff}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{0}', '\u{d7ff}', '\u{e000}', '\u{1d7d8}',
	] {
		v.push(c.to_string().into_bytes());
	}
	// same low byte(s) as an ASCII character
	for b in [b'a', b'z', b'A', b'Z', b'x', b'X', b'i', b'0', b'9', b'-', b's', b'k', b'e', b'n', b'g'] {
		for hi in [0x80u32, 0x100, 0x200, 0x300, 0x1000, 0x2000, 0xff00 - 0x20 + 0x20, 0x10000, 0x20000, 0x100000] {
			if let Some(c) = char::from_u32(hi + b as u32) {
				v.push(c.to_string().into_bytes());
			}
		}
	}
	for b in [b'a', b'Z', b'x', b'0', b'-', b'i'] {
		v.push(char::from_u32(0xff00 - 0x20 + b as u32).unwrap().to_string().into_bytes());
		// over-long
		v.push(vec![0xc0 | b >> 6, 0x80 | b & 63]);
		v.push(vec![0xe0, 0x80 | b >> 6, 0x80 | b & 63]);
		v.push(vec![0xf0, 0x80, 0x80 | b >> 6, 0x80 | b & 63]);
		v.push(vec![0xf8, 0x80, 0x80, 0x80 | b >> 6, 0x80 | b & 63]);
		v.push(vec![b | 0x80]);
		v.push(vec![0xc3, b]);
		v.push(vec![0xc0, b]);
		v.push(vec![0xe2, b, b]);
	}
	// ill-formed
	for s in [
		&[0x80u8][..], &[0xbf], &[0xc2], &[0xe2], &[0xe2, 0x82], &[0xf0, 0x9f], &[0xf0, 0x9f, 0x98], &[0xf4, 0x90, 0x80, 0x80],
		&[0xed, 0xa0, 0x80], &[0xfe], &[0xff], &[0xc3, 0x28], &[0xf5, 0x80, 0x80, 0x80], &[0x61, 0x80], &[0xc2, 0xc2],
	] {
		v.push(s.to_vec());
	}
	v
}

/// Every accepted word of the type that takes one transition and completes.
pub fn transition_cover(m: &Model, ty: usize, seed: u64) -> Vec<Vec<u8>> {
	let d = &m.dfa[ty];
	let acc = access(m, d);
	let comp = completion(m, d);
	let mut v = vec![];
	let mut rng = Rng::new(seed, 77 + ty as u64);
	for s in 0..d.n {
		for b in reps(m) {
			let t = d.step(s as u16, b);
			if let (Some(a), Some(c)) = (&acc[s], &comp[t as usize]) {
				let mut w = a.clone();
				w.push(b);
				w.extend_from_slice(c);
				v.push(w.clone());
				dress(d, &mut rng, &mut w);
				v.push(w);
			}
		}
	}
	v.sort();
	v.dedup();
	v
}

/// Words found in the source, that some special case might be about.
pub fn dictionary() -> &'static Vec<Vec<u8>> {
	static D: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
	D.get_or_init(|| {
		let mut v: Vec<Vec<u8>> = vec![];
		if let Ok(p) = std::env::var("DICT") {
			if let Ok(b) = std::fs::read(p) {
				v = b.split(|b| *b == b'\n').filter(|w| !w.is_empty()).map(|w| w.to_vec()).collect();
			}
		}
		v
	})
}

/// Accepted texts of a type, of many shapes and sizes.
pub fn corpus(m: &Model, ty: usize, seed: u64, n: usize) -> Vec<Vec<u8>> {
	let d = &m.dfa[ty];
	let comp = completion(m, d);
	let mut v = transition_cover(m, ty, seed);
	let mut rng = Rng::new(seed, 999 + ty as u64);
	for w in dictionary() {
		if m.well(ty, w) {
			v.push(w.clone());
			v.push(recase(&mut rng, w));
		}
	}
	for i in 0..n {
		let len = match i % 8 {
			0..4 => 2 + rng.below(12),
			4..6 => 10 + rng.below(30),
			6 => 20 + rng.below(80),
			_ => 40 + rng.below(400),
		};
		v.push(walk(d, &comp, &mut rng, len));
		if ty <= 1 {
			v.push(random_tag(&mut rng, 40));
		}
		if i % 4 == 0 {
			let k = 1 + rng.below(9);
			v.push(echo(d, &comp, &mut rng, k));
		}
	}
	// subtags of a dictionary word, in place of random ones
	let subtags: Vec<&[u8]> = dictionary().iter().flat_map(|w| w.split(|b| *b == b'-')).filter(|w| !w.is_empty() && w.len() <= 8).collect();
	if !subtags.is_empty() {
		for _ in 0..n / 4 {
			let mut buf: Vec<u8> = vec![];
			let mut s = d.init;
			for _ in 0..1 + rng.below(7) {
				for _ in 0..6 {
					let k = buf.len();
					if k > 0 {
						buf.push(b'-');
					}
					if rng.chance(1, 2) {
						let w = *rng.pick(&subtags);
						buf.extend(recase(&mut rng, w));
					} else {
						let p = *rng.pick(POOL);
						fill(&mut rng, p, &mut buf);
					}
					let t = d.run(s, &buf[k..]);
					if d.alive[t as usize] {
						s = t;
						break;
					}
					buf.truncate(k);
				}
			}
			buf.extend_from_slice(comp[s as usize].as_ref().unwrap());
			v.push(buf);
		}
	}
	debug_assert!(v.iter().all(|w| m.well(ty, w)));
	v
}
/// Texts with every two words of the sources in them, one after the other or
/// with a subtag between, as they are and in another case.
pub fn word_pairs(m: &Model, ty: usize, seed: u64, cap: usize) -> Vec<Vec<u8>> {
	let d = &m.dfa[ty];
	let comp = completion(m, d);
	let mut words: Vec<&[u8]> = dictionary().iter().flat_map(|w| w.split(|b| *b == b'-')).filter(|w| !w.is_empty() && w.len() <= 8).collect();
	words.sort();
	words.dedup();
	let heads: &[&[u8]] = &[b"", b"en-", b"en-Latn-", b"en-US-", b"en-1abc-", b"en-a-", b"x-", b"a-", b"en-a-bb-", b"en-x-"];
	let between: &[&[u8]] = &[b"-", b"-abc-", b"-Latn-", b"-1abc-", b"-b-"];
	let total = words.len() * words.len() * heads.len() * between.len();
	let keep = |i: usize| total <= cap || (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(seed) % total as u64 <= cap as u64;
	let mut v = vec![];
	let mut rng = Rng::new(seed, 41_000 + ty as u64);
	let mut i = 0;
	for h in heads {
		let s = d.run(d.init, h);
		if !d.alive[s as usize] {
			continue;
		}
		for a in &words {
			let s = d.run(s, a);
			if !d.alive[s as usize] {
				continue;
			}
			for g in between {
				let s = d.run(s, g);
				if !d.alive[s as usize] {
					continue;
				}
				for b in &words {
					let s = d.run(s, b);
					i += 1;
					if !d.alive[s as usize] || !keep(i) {
						continue;
					}
					let t = [h, *a, g, b, comp[s as usize].as_ref().unwrap()].concat();
					v.push(match i % 4 {
						0 => recase(&mut rng, &t),
						_ => t,
					});
				}
			}
		}
	}
	v
}
/// Like corpus, for whole tags, with the parts of each: (type, text).
/// Texts made of as many subtags as fit in `size` bytes, in each kind of list.
pub fn huge(m: &Model, ty: usize, size: usize) -> Vec<Vec<u8>> {
	let mut v = vec![];
	for (head, item) in [
		("sl-Latn-419", "-1aBc"), ("en", "-abcdE"), ("de-a", "-bB"), ("de-Latn", "-a-bb-B-cc"), ("zh-cmn-x", "-y"), ("x", "-y"), ("x", "-abcdefgh"),
		("1abc", "-1aBc"), ("a", "-bB"), ("a-bb", "-a-bb-B-cc"), ("yue", "-min"),
	] {
		let t = [head.as_bytes(), item.repeat((size - head.len()) / item.len()).as_bytes()].concat();
		if m.well(ty, &t) {
			v.push(t)
		}
	}
	v
}
pub fn boundaries(big: bool) -> Vec<usize> {
	let mut v: Vec<usize> = vec![];
	for b in [16, 32, 64, 128, 256, 512, 1024, 4096] {
		v.extend([b - 1, b, b + 1]);
	}
	if big {
		v.extend([32767, 32768, 65535, 65536, 65537]);
	}
	// integers found in the source, that some special case might be about
	if let Ok(ns) = std::env::var("NUMS") {
		for n in ns.split(',').filter_map(|n| n.parse::<usize>().ok()) {
			if n > 4 && n < if big { 2_000_000 } else { 5000 } {
				v.extend([n - 1, n, n + 1]);
			}
		}
	}
	v.sort();
	v.dedup();
	v
}
/// Tags with a component ending at (or starting after) each boundary offset.
pub fn boundary_tags(rng: &mut Rng, big: bool) -> Vec<Vec<u8>> {
	let mut v = vec![];
	for b in boundaries(big) {
		for (tail_e, tail_p) in [(0, 0), (12, 0), (0, 9), (11, 8)] {
			for (ext, script, region) in [(0, false, 0), (2, true, 2), (3, false, 3)] {
				let head = sized(&mut rng.clone(), ext, script, region, 0, 0, 0).len();
				// variants end at b; extensions end at b; private use ends at b
				let mut r2 = rng.clone();
				if b > head + 5 {
					v.push(sized(&mut r2, ext, script, region, b - head, tail_e, tail_p));
				}
				let mut r2 = rng.clone();
				if b > head + 5 && tail_e == 0 {
					v.push(sized(&mut r2, ext, script, region, 0, b - head, tail_p));
				}
				let mut r2 = rng.clone();
				if b > head + 5 && tail_p == 0 && tail_e == 0 {
					v.push(sized(&mut r2, ext, script, region, 0, 0, b - head));
				}
				let mut r2 = rng.clone();
				if b > head + 20 && tail_p == 0 {
					v.push(sized(&mut r2, ext, script, region, 9, b - head - 9, 0));
				}
				rng.next();
			}
		}
	}
	v
}
