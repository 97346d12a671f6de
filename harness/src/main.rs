//! Conformance harness: replays the state graphs and behaviours of the TLA+
//! specification into the real crate, and records histories for TLC.
#![allow(clippy::too_many_arguments, clippy::type_complexity)]
mod checks;
mod compose;
mod core;
mod gen_;
mod model;
#[cfg(all(feature = "std", feature = "serde"))]
mod session;
#[cfg(all(feature = "std", feature = "serde"))]
mod sharing;
mod suites;
mod types;
mod visit;
use serde_json::{Value, json};
use std::sync::atomic::Ordering::Relaxed;
use std::time::Instant;


macro_rules! kinds {
	($($(#[$a:meta])* $S:ident $n:literal $f:path;)*) => {
		$($(#[$a])* pub static $S: crate::core::Kind = crate::core::Kind::new($n, $f);)*
		pub fn all() -> Vec<&'static crate::core::Kind> {
			let mut v: Vec<&'static crate::core::Kind> = vec![];
			$($(#[$a])* v.push(&$S);)*
			v
		}
	};
}
pub mod kinds {
	use crate::checks::*;
	kinds! {
		ACCEPT "accept" accept;
		CONS "cons" cons;
		CLASS "class" class;
		PARTS "parts" parts;
		LANGUAGE_K "language" language;
		TAG_LANGUAGE "tag_language" tag_language;
		VARIANTS_K "variants" variants;
		INTERLEAVE "interleave" interleave;
		TAG_INTERLEAVE "tag_interleave" tag_interleave;
		EXTENSIONS_K "extensions" extensions;
		TAG_EXTENSIONS "tag_extensions" tag_extensions;
		PRIVATE "private" private;
		PARTITION "partition" partition;
		CLOSURE "closure" closure;
		EQUAL "equal" equal;
		ORDER "order" order;
		LAWS "laws" laws;
		HASH "hash" hash;
		GF_TAG "gf_tag" gf_tag;
		GF_LIST "gf_list" gf_list;
		SMALL_TEXT "small_text" small_text;
		SINGLE_CHAR "single_char" single_char;
		SINGLE_BYTE "single_byte" single_byte;
		SINGLE_TEXT "single_text" single_text_case;
		TWIN "twin" twin;
		COMPOSE "compose" crate::compose::compose;
		#[cfg(feature = "std")]
		CONVERT "convert" convert;
		#[cfg(feature = "std")]
		OWNED_SAME "owned_same" owned_same;
		#[cfg(feature = "std")]
		CLONE_FROM "clone_from" clone_from;
		#[cfg(feature = "std")]
		COLLECTION "collection" collection;
		#[cfg(feature = "std")]
		COLL_EDGE "coll_edge" coll_edge;
		#[cfg(all(feature = "std", feature = "serde"))]
		SERDE "serde" serde_case;
		#[cfg(all(feature = "std", feature = "serde"))]
		SERDE_OTHER "serde_other" serde_other;
	}
}

fn env(k: &str) -> Option<String> {
	std::env::var(k).ok()
}
fn hex(t: &[u8]) -> String {
	t.iter().map(|b| format!("{b:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
	(0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

/// Writes what was found and ends the process.
fn finish() -> ! {
	let mut viol: Vec<Value> = vec![];
	for v in crate::core::VIOLATIONS.lock().unwrap().iter() {
		viol.push(json!({
			"kind": v.kind, "texts": v.texts.iter().map(|t| hex(t)).collect::<Vec<_>>(), "nums": v.nums, "msg": v.msg,
			"shown": v.texts.iter().map(|t| crate::core::show(t)).collect::<Vec<_>>(),
		}));
	}
	let counts: Vec<Value> =
		kinds::all().iter().filter(|k| k.count.load(Relaxed) > 0).map(|k| json!([k.name, k.count.load(Relaxed)])).collect();
	let out = json!({
		"violations": viol,
		"counts": counts,
		"known": crate::core::KNOWN.lock().unwrap().iter().map(|k| json!([k.0, hex(&k.1)])).collect::<Vec<_>>(),
		"known_count": crate::core::KNOWN_COUNT.load(Relaxed),
		"samples": *crate::core::SAMPLES.lock().unwrap(),
		"notes": crate::core::NOTES.lock().unwrap().iter().map(|n| json!([n.0, n.1])).collect::<Vec<_>>(),
		"stopped": crate::core::stop(),
		"wall_s": START.get().unwrap().elapsed().as_secs_f64(),
	});
	std::fs::write(env("OUT").expect("OUT"), out.to_string()).unwrap();
	std::process::exit(0)
}
fn load_model() {
	let m = model::Model::load(&env("MODEL").expect("MODEL"));
	let _ = crate::core::MODEL.set(m);
}
/// Does a recorded case fail?
fn run_case(v: &Value) -> Result<(), String> {
	let name = v["kind"].as_str().unwrap();
	let Some(k) = kinds::all().into_iter().find(|k| k.name == name) else { return Err(format!("no check {name} in this configuration")) };
	let texts: Vec<Vec<u8>> = v["texts"].as_array().unwrap().iter().map(|t| unhex(t.as_str().unwrap())).collect();
	let refs: Vec<&[u8]> = texts.iter().map(|t| t.as_slice()).collect();
	let nums: Vec<i64> = v["nums"].as_array().unwrap().iter().map(|t| t.as_i64().unwrap()).collect();
	crate::core::eval(k, &refs, &nums)
}

#[cfg(all(feature = "std", feature = "serde"))]
fn behaviours(path: &str) -> Vec<Vec<Value>> {
	let mut out: Vec<Vec<Value>> = vec![];
	let mut whole = true;
	for l in std::fs::read_to_string(path).unwrap().lines() {
		let v: Value = serde_json::from_str(l).expect("behaviour");
		if v[0] == 1 || out.is_empty() {
			out.push(vec![]);
			whole = true;
		}
		// one event per level; if TLC drew two for one step, which one it took is not known
		let b = out.last_mut().unwrap();
		whole &= v[0].as_u64() == Some(b.len() as u64 + 1);
		if whole {
			b.push(v[1].clone());
		}
	}
	out
}

fn main() {
	START.set(Instant::now()).unwrap();
	std::panic::set_hook(Box::new(|_| ()));
	let a: Vec<String> = std::env::args().collect();
	let seed: u64 = env("SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
	match a[1].as_str() {
		"run" => {
			if let Some(f) = env("SLOTS") {
				crate::core::open_slots(&f);
			}
			load_model();
			crate::core::watchdog(env("HANG").and_then(|s| s.parse().ok()).unwrap_or(120), finish);
			suites::run(&a[2], seed, env("TIER").as_deref() == Some("thorough"));
			finish()
		}
		// replay FILE: one recorded case; exit 1 when it fails
		"replay" => {
			load_model();
			let v: Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
			crate::core::watchdog(120, || {
				println!("no answer (hang)");
				std::process::exit(1)
			});
			// in a thread, with the stack the cases of a suite have
			let r = std::thread::Builder::new().stack_size(crate::core::SMALL_STACK).spawn(move || run_case(&v)).unwrap().join();
			if let Err(m) = r.unwrap_or_else(|_| Err("the case ends abnormally".into())) {
				println!("{m}");
				std::process::exit(1)
			}
		}
		// cases FILE: a list of recorded cases; prints the outcome of each as JSON
		"cases" => {
			load_model();
			let v: Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
			let r: Vec<Value> = v.as_array().unwrap().iter().map(|c| run_case(c).err().map(Value::from).unwrap_or(Value::Null)).collect();
			println!("{}", Value::from(r));
		}
		// the case in a slot file, as JSON (after a crash)
		"slots" => {
			let b = std::fs::read(&a[2]).unwrap();
			let mut out = vec![];
			for s in b.chunks(crate::core::SLOT) {
				let seq = u64::from_le_bytes(s[..8].try_into().unwrap());
				if seq & 1 == 1 {
					let (k, t, n) = crate::core::read_slot(s.as_ptr());
					out.push(json!({"kind": k, "texts": t.iter().map(|t| hex(t)).collect::<Vec<_>>(), "nums": n, "shown": t.iter().map(|t| crate::core::show(t)).collect::<Vec<_>>()}));
				}
			}
			println!("{}", Value::from(out));
		}
		// fingerprint FILE: everything observable about many texts, one line each
		"fingerprint" => {
			load_model();
			suites::fingerprint(&a[2], seed, env("TIER").as_deref() == Some("thorough"));
		}
		// list of literals for the macro
		"literals" => {
			load_model();
			suites::literals(&a[2], seed, env("TIER").as_deref() == Some("thorough"));
		}
		#[cfg(all(feature = "std", feature = "serde"))]
		"behaviours" => {
			load_model();
			let bs = behaviours(&a[3]);
			let m = crate::core::model();
			let next = std::sync::atomic::AtomicUsize::new(0);
			let tot = std::sync::Mutex::new([0u64; 4]);
			let bad: std::sync::Mutex<Option<(usize, String)>> = std::sync::Mutex::new(None);
			// a replay that hangs is a violation too
			std::thread::spawn(|| {
				std::thread::sleep(std::time::Duration::from_secs(300));
				println!("{}", json!({"hang": true}));
				std::process::exit(3)
			});
			std::thread::scope(|s| {
				for _ in 0..crate::core::threads() {
					s.spawn(|| {
						loop {
							let i = next.fetch_add(1, Relaxed);
							if i >= bs.len() || bad.lock().unwrap().is_some() {
								break;
							}
							let (o, r) = session::replay(m, &a[2], &bs[i..i + 1]);
							let mut t = tot.lock().unwrap();
							for (x, y) in t.iter_mut().zip([o.behaviours, o.events, o.judged, o.abandoned]) {
								*x += y;
							}
							if let Some((_, msg)) = r {
								*bad.lock().unwrap() = Some((i, msg));
							}
						}
					});
				}
			});
			let t = tot.into_inner().unwrap();
			let bad = bad.into_inner().unwrap();
			let v = bad.map(|(i, msg)| json!({"msg": msg, "behaviour": bs[i]}));
			println!("{}", json!({"behaviours": t[0], "events": t[1], "judged": t[2], "abandoned": t[3], "violation": v}));
		}
		// replay one recorded behaviour (JSON list of events)
		#[cfg(all(feature = "std", feature = "serde"))]
		"behaviour" => {
			load_model();
			let v: Value = serde_json::from_slice(&std::fs::read(&a[3]).unwrap()).unwrap();
			let b: Vec<Value> = v.as_array().unwrap().clone();
			let (_, r) = session::replay(crate::core::model(), &a[2], &[b]);
			if let Some((_, m)) = r {
				println!("{m}");
				std::process::exit(1)
			}
		}
		#[cfg(all(feature = "std", feature = "serde"))]
		"record" => {
			load_model();
			let n: usize = a[3].parse().unwrap();
			let lines = session::record(crate::core::model(), &a[2], seed, n);
			std::fs::write(&a[4], lines.join("\n") + "\n").unwrap();
		}
		// share FILE TRACE: schedules for several threads
		#[cfg(all(feature = "std", feature = "serde"))]
		"share" => {
			load_model();
			std::thread::spawn(|| {
				std::thread::sleep(std::time::Duration::from_secs(400));
				println!("{}", json!({"hang": true}));
				std::process::exit(3)
			});
			sharing::main(&a[2], &a[3], seed, env("TIER").as_deref() == Some("thorough"));
		}
		#[cfg(all(feature = "std", feature = "serde"))]
		"alone" => sharing::alone_main(a[2].parse().unwrap(), &unhex(&a[3])),
		#[cfg(all(feature = "std", feature = "serde"))]
		"share-replay" => {
			load_model();
			let v: Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
			if let Some(m) = sharing::replay(&v) {
				println!("{m}");
				std::process::exit(1)
			}
		}
		x => {
			eprintln!("unknown command {x}");
			std::process::exit(2)
		}
	}
}
