//! Cases, their execution, and what is reported about them.
//!
//! A *case* is a kind (a named conformance check), some texts and some
//! numbers.  Exploration runs cases; a failing one is written out and can be
//! replayed on its own.
use crate::model::Model;
use serde_json::{Value, json};
use std::cell::Cell;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Mutex, OnceLock};

pub type Res = Result<(), String>;
pub type CaseFn = fn(&Model, &[&[u8]], &[i64]) -> Res;
pub struct Kind {
	pub name: &'static str,
	pub f: CaseFn,
	pub count: AtomicU64,
}
impl Kind {
	pub const fn new(name: &'static str, f: CaseFn) -> Self {
		Self { name, f, count: AtomicU64::new(0) }
	}
}

pub static MODEL: OnceLock<Model> = OnceLock::new();
pub fn model() -> &'static Model {
	MODEL.get().unwrap()
}

pub struct Violation {
	pub kind: String,
	pub texts: Vec<Vec<u8>>,
	pub nums: Vec<i64>,
	pub msg: String,
}
pub static VIOLATIONS: Mutex<Vec<Violation>> = Mutex::new(Vec::new());
pub static KNOWN: Mutex<Vec<(String, Vec<u8>)>> = Mutex::new(Vec::new());
pub static KNOWN_COUNT: AtomicU64 = AtomicU64::new(0);
pub static SAMPLES: Mutex<Vec<Value>> = Mutex::new(Vec::new());
pub static NOTES: Mutex<Vec<(String, u64)>> = Mutex::new(Vec::new());
pub static STOP: AtomicBool = AtomicBool::new(false);

pub fn note(name: &str, n: u64) {
	let mut v = NOTES.lock().unwrap();
	match v.iter_mut().find(|x| x.0 == name) {
		Some(x) => x.1 += n,
		None => v.push((name.to_owned(), n)),
	}
}
pub fn stop() -> bool {
	STOP.load(Relaxed)
}

/// A known finding was met (see known_findings.json); it is reported, not a violation.
pub fn known(id: &str, text: &[u8]) {
	KNOWN_COUNT.fetch_add(1, Relaxed);
	let mut k = KNOWN.lock().unwrap();
	if k.len() < 5 && !k.iter().any(|x| x.1 == text) {
		k.push((id.to_owned(), text.to_vec()));
	}
}

// ---------------------------------------------------------------- slots
// What each thread is doing, in memory shared with the orchestrator through a
// file, so that the case survives an abort or can be reported on a hang.
const SLOTS: usize = 17;
pub const SLOT: usize = 1 << 23;
static SLOT_BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
thread_local!(static MY_SLOT: Cell<usize> = const { Cell::new(usize::MAX) });

pub fn open_slots(path: &str) {
	use std::os::fd::AsRawFd;
	let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
	f.set_len((SLOTS * SLOT) as u64).unwrap();
	let p = unsafe {
		libc::mmap(
			std::ptr::null_mut(),
			SLOTS * SLOT,
			libc::PROT_READ | libc::PROT_WRITE,
			libc::MAP_SHARED,
			f.as_raw_fd(),
			0,
		)
	};
	assert!(p != libc::MAP_FAILED);
	SLOT_BASE.store(p as usize, Relaxed);
	// slot 0 is the main thread's; par() hands out the others
	MY_SLOT.with(|s| s.set(0));
	NEXT_SLOT.store(1, Relaxed);
}
fn slot() -> *mut u8 {
	let base = SLOT_BASE.load(Relaxed);
	if base == 0 {
		return std::ptr::null_mut();
	}
	let i = MY_SLOT.with(|s| {
		if s.get() == usize::MAX {
			s.set(NEXT_SLOT.fetch_add(1, Relaxed) % SLOTS);
		}
		s.get()
	});
	(base + i * SLOT) as *mut u8
}
/// Layout: u64 sequence (odd while a case runs), u32 length of the JSON-free
/// record, then: kind\0 n_nums nums.. n_texts (len bytes)..
fn slot_enter(kind: &str, texts: &[&[u8]], nums: &[i64]) {
	let p = slot();
	if p.is_null() {
		return;
	}
	unsafe {
		let mut o = 16usize;
		let mut put = |b: &[u8]| {
			let n = b.len().min(SLOT - o - 8);
			std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(o), n);
			o += n;
		};
		put(&[kind.len() as u8]);
		put(kind.as_bytes());
		put(&(nums.len() as u32).to_le_bytes());
		for n in nums {
			put(&n.to_le_bytes());
		}
		put(&(texts.len() as u32).to_le_bytes());
		for t in texts {
			put(&(t.len() as u32).to_le_bytes());
			put(t);
		}
		let seq = p as *mut u64;
		seq.write_volatile(seq.read_volatile() | 1);
	}
}
fn slot_leave() {
	let p = slot() as *mut u64;
	if !p.is_null() {
		unsafe { p.write_volatile((p.read_volatile() | 1).wrapping_add(1)) }
	}
}
pub fn read_slot(p: *const u8) -> (String, Vec<Vec<u8>>, Vec<i64>) {
	unsafe {
		let mut o = 16usize;
		let mut get = |n: usize| {
			let n = n.min(SLOT.saturating_sub(o));
			let v = std::slice::from_raw_parts(p.add(o), n).to_vec();
			o += n;
			v
		};
		let k = get(1)[0] as usize;
		let kind = String::from_utf8_lossy(&get(k)).into_owned();
		let n = u32::from_le_bytes(get(4).try_into().unwrap());
		let nums = (0..n).map(|_| i64::from_le_bytes(get(8).try_into().unwrap())).collect();
		let m = u32::from_le_bytes(get(4).try_into().unwrap());
		let texts = (0..m)
			.map(|_| {
				let l = u32::from_le_bytes(get(4).try_into().unwrap()) as usize;
				get(l)
			})
			.collect();
		(kind, texts, nums)
	}
}

/// Starts the watchdog: a case that runs for `secs` is a violation (a hang).
pub fn watchdog(secs: u64, finish: fn() -> !) {
	std::thread::spawn(move || {
		let mut last = [(0u64, 0u64); SLOTS];
		loop {
			std::thread::sleep(std::time::Duration::from_secs(1));
			let base = SLOT_BASE.load(Relaxed);
			if base == 0 {
				continue;
			}
			for (i, l) in last.iter_mut().enumerate() {
				let p = (base + i * SLOT) as *const u64;
				let s = unsafe { p.read_volatile() };
				if s & 1 == 1 && s == l.0 {
					l.1 += 1;
					if l.1 >= secs {
						let (kind, texts, nums) = read_slot(p as *const u8);
						if let Ok(mut v) = VIOLATIONS.lock() {
							v.push(Violation { kind, texts, nums, msg: format!("no answer after {secs} s (hang)") });
						}
						finish();
					}
				} else {
					*l = (s, 0);
				}
			}
		}
	});
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
	if let Some(s) = e.downcast_ref::<&str>() {
		format!("panic: {s}")
	} else if let Some(s) = e.downcast_ref::<String>() {
		format!("panic: {s}")
	} else {
		"panic".to_owned()
	}
}

/// Where a text lies in memory is no part of it: the texts of a case are moved
/// to addresses of every alignment, between bytes that are not theirs.  The
/// address (modulo 16) is a function of the case, so that a replay has the same.
fn placed(texts: &[&[u8]], f: impl FnOnce(&[&[u8]]) -> Res) -> Res {
	let mut h = 0xcbf29ce484222325u64;
	let mut buf: Vec<u64> = vec![0x2d61_2d61_2d61_2d61; texts.iter().map(|t| t.len() / 8 + 7).sum::<usize>() + 3];
	let base = buf.as_mut_ptr() as *mut u8;
	let mut o = base.align_offset(16);
	let mut at = vec![];
	for t in texts {
		for b in t.iter() {
			h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
		}
		h = (h ^ 0xff).wrapping_mul(0x100000001b3);
		let k = o + 1 + (h >> 40) as usize % 16;
		unsafe { std::ptr::copy_nonoverlapping(t.as_ptr(), base.add(k), t.len()) };
		at.push((k, t.len()));
		o += (t.len() + 48) / 16 * 16;
	}
	let v: Vec<&[u8]> = at.iter().map(|&(k, n)| unsafe { std::slice::from_raw_parts(base.add(k), n) }).collect();
	f(&v)
}

pub fn eval(kind: &Kind, texts: &[&[u8]], nums: &[i64]) -> Res {
	slot_enter(kind.name, texts, nums);
	crate::visit::keep(None);
	let r = catch_unwind(AssertUnwindSafe(|| placed(texts, |texts| (kind.f)(model(), texts, nums))));
	slot_leave();
	match r {
		Ok(r) => r,
		Err(e) => Err(panic_text(e)),
	}
}

/// Runs one case.
pub fn run(kind: &'static Kind, texts: &[&[u8]], nums: &[i64]) -> bool {
	let n = kind.count.fetch_add(1, Relaxed);
	// keep a few samples, spread over the run
	if n < 2 || (n & (n - 1)) == 0 && n < (1 << 20) {
		let mut s = SAMPLES.lock().unwrap();
		if s.len() < 60 {
			s.push(json!({"check": kind.name, "texts": texts.iter().map(|t| show(t)).collect::<Vec<_>>(), "args": nums}));
		}
	}
	match eval(kind, texts, nums) {
		Ok(()) => true,
		Err(msg) => {
			let mut v = VIOLATIONS.lock().unwrap();
			if v.len() < 200 {
				v.push(Violation {
					kind: kind.name.to_owned(),
					texts: texts.iter().map(|t| t.to_vec()).collect(),
					nums: nums.to_vec(),
					msg,
				});
			}
			if v.len() >= 50 {
				STOP.store(true, Relaxed);
			}
			false
		}
	}
}

pub fn show(t: &[u8]) -> String {
	if t.len() > 120 {
		return format!("{}... ({} bytes)", show(&t[..100]), t.len());
	}
	let mut s = String::new();
	for &b in t {
		if (32..127).contains(&b) {
			s.push(b as char)
		} else {
			s.push_str(&format!("\\x{b:02x}"))
		}
	}
	s
}

// ---------------------------------------------------------------- threads
pub fn threads() -> usize {
	std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}
/// Runs f(0..n) on all cores.
pub fn par(n: usize, f: impl Fn(usize) + Sync) {
	par_in(n, 2 << 20, f)
}
/// As little as a thread may reasonably be given, for huge texts: something that
/// recurses once per subtag overflows it.
pub const SMALL_STACK: usize = 512 << 10;
pub fn par_in(n: usize, stack: usize, f: impl Fn(usize) + Sync) {
	let next = AtomicUsize::new(0);
	std::thread::scope(|s| {
		for _ in 0..threads().min(n.max(1)) {
			let _ = std::thread::Builder::new().stack_size(stack).spawn_scoped(s, || {
				// one slot per live thread
				loop {
					let i = next.fetch_add(1, Relaxed);
					if i >= n || stop() {
						break;
					}
					f(i)
				}
			}).unwrap();
		}
	});
	NEXT_SLOT.store(1, Relaxed);
}

// ---------------------------------------------------------------- random
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
	pub fn new(seed: u64, stream: u64) -> Self {
		let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03) ^ 0x5851F42D4C957F2D);
		for _ in 0..4 {
			r.next();
		}
		r
	}
	pub fn next(&mut self) -> u64 {
		// splitmix64
		self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
		z ^ (z >> 31)
	}
	pub fn below(&mut self, n: usize) -> usize {
		(self.next() % n as u64) as usize
	}
	pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
		&v[self.below(v.len())]
	}
	pub fn chance(&mut self, num: u64, den: u64) -> bool {
		self.next() % den < num
	}
}

/// Are owned types and the other things std brings looked at as well?  Not when
/// builds with different features are compared (C20).
#[allow(dead_code)]
pub fn owned() -> bool {
	static O: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
	*O.get_or_init(|| std::env::var_os("BORROWED").is_none())
}
