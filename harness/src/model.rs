//! The specification as TLC explored it: tables dumped from the state graphs
//! of the modules in /verif/spec (see lib/model.py, which builds model.json).
use serde_json::Value;
use std::collections::{HashMap, HashSet};

pub struct Dfa {
	/// reachable states; `next[s * 256 + b]`
	pub next: Vec<u16>,
	pub acc: Vec<bool>,
	pub n: usize,
	pub init: u16,
	/// state from which nothing can be accepted
	pub dead: u16,
	/// alive[s]: something can still be accepted
	pub alive: Vec<bool>,
}
impl Dfa {
	#[inline]
	pub fn step(&self, s: u16, b: u8) -> u16 {
		self.next[s as usize * 256 + b as usize]
	}
	#[inline]
	pub fn run(&self, s: u16, t: &[u8]) -> u16 {
		let mut s = s;
		for &b in t {
			s = self.step(s, b)
		}
		s
	}
	#[inline]
	pub fn accepts(&self, t: &[u8]) -> bool {
		self.acc[self.run(self.init, t) as usize]
	}
}

/// Parse automaton: (state, symbol) -> [(state, path)].
pub struct Nfa {
	pub init: usize,
	pub fin: Vec<bool>,
	pub edges: Vec<Vec<(u32, u32)>>, // [state * nsym + sym]
	pub nsym: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
	Lt,
	Eq,
	Gt,
	/// one text is a proper prefix of the other: either way, never equal
	Prefix,
}

/// An edge of the graph of module Collections.
pub struct CollEdge {
	pub map: bool,
	pub from: Vec<Option<(usize, i64)>>,
	pub op: String,
	pub s: usize,
	pub x: i64,
	pub res: Vec<i64>,
	pub to: Vec<Option<(usize, i64)>>,
}

/// What is built (Compose!Forms).
#[derive(Default, Debug)]
pub struct Form {
	pub name: String,
	pub types: Vec<usize>,
	/// the one whose items are the pieces
	pub own: usize,
	pub done: usize,
	pub stages: Vec<Stage>,
	pub edges: HashSet<(usize, usize)>,
}
#[derive(Default, Debug)]
pub struct Stage {
	pub name: String,
	pub ty: Option<usize>,
	pub max: usize,
	pub acc: String,
	pub items: String,
	pub short: usize,
}
pub struct Model {
	pub forms: Vec<Form>,
	pub sym: Vec<u8>,
	pub fold: Vec<u8>,
	pub nsym: usize,
	pub types: Vec<String>,
	pub dfa: Vec<Dfa>,
	pub nfa: Vec<Option<Nfa>>,
	/// path id -> bit set of rules
	pub path_rules: Vec<u64>,
	pub rules: Vec<String>,
	/// (n, lo, hi, op) -> (result, lo', hi')
	pub iter: HashMap<(u8, u8, u8, bool), (u8, u8, u8)>,
	pub iter_max: usize,
	/// (n, lo, hi, nth_back?, k) -> (result, lo', hi')
	pub iter_nth: HashMap<(u8, u8, u8, bool, u8), (u8, u8, u8)>,
	/// (n, lo, hi) -> (count, last, items left)
	pub iter_rest: HashMap<(u8, u8, u8), (usize, usize, Vec<usize>)>,
	/// verdict on two characters
	pub cmp: Vec<i8>,
	pub conv: Vec<(String, String, String, String)>,
	pub edges: Vec<CollEdge>,
	pub gf: Vec<(Vec<u8>, Option<Vec<u8>>)>,
	/// names of the registrations as values
	pub gf_names: Vec<Vec<u8>>,
	pub single: Vec<bool>,
}

fn bytes(v: &Value) -> Vec<u8> {
	v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
fn u(v: &Value) -> usize {
	v.as_u64().unwrap() as usize
}

impl Model {
	// The graph of Iteration has lists up to iter_max and arguments of nth up
	// to 3; for longer ones the transition is the same one (Iteration is
	// uniform in n and k).
	/// next or next_back: (item or 0, lo', hi')
	pub fn it_call(&self, n: usize, lo: usize, hi: usize, back: bool) -> (usize, usize, usize) {
		if n <= self.iter_max {
			let s = self.iter.get(&(n as u8, lo as u8, hi as u8, back)).expect("state of Iteration");
			(s.0 as usize, s.1 as usize, s.2 as usize)
		} else if lo < hi {
			if back { (hi, lo, hi - 1) } else { (lo + 1, lo + 1, hi) }
		} else {
			(0, lo, hi)
		}
	}
	/// nth(k) or nth_back(k)
	pub fn it_nth(&self, n: usize, lo: usize, hi: usize, back: bool, k: usize) -> (usize, usize, usize) {
		if n <= self.iter_max {
			if let Some(s) = self.iter_nth.get(&(n as u8, lo as u8, hi as u8, back, k as u8)) {
				return (s.0 as usize, s.1 as usize, s.2 as usize);
			}
		}
		match (back, lo + k < hi) {
			(false, true) => (lo + k + 1, lo + k + 1, hi),
			(true, true) => (hi - k, lo, hi - k - 1),
			(false, false) => (0, hi, hi),
			(true, false) => (0, lo, lo),
		}
	}
	/// What a consuming operation sees: (count, last or 0, items)
	pub fn it_rest(&self, n: usize, lo: usize, hi: usize) -> (usize, usize, Vec<usize>) {
		if n <= self.iter_max {
			self.iter_rest.get(&(n as u8, lo as u8, hi as u8)).expect("state of Iteration").clone()
		} else {
			(hi - lo, if lo < hi { hi } else { 0 }, (lo + 1..=hi).collect())
		}
	}

	pub fn load(path: &str) -> Model {
		let v: Value = serde_json::from_slice(&std::fs::read(path).expect("model.json")).expect("model.json");
		let sym: Vec<u8> = bytes(&v["sym"]);
		let fold = bytes(&v["fold"]);
		let nsym = u(&v["nsym"]);
		let types: Vec<String> = crate::types::ALL_TYPES.iter().map(|s| s.to_string()).collect();
		let mut dfa = vec![];
		for ty in &types {
			let d = &v["dfa"][ty];
			let n = d["acc"].as_array().unwrap().len();
			let acc: Vec<bool> = d["acc"].as_array().unwrap().iter().map(|x| x.as_bool().unwrap()).collect();
			let mut next = vec![0u16; n * 256];
			for s in 0..n {
				for b in 0..256 {
					next[s * 256 + b] = u(&d["next"][s][sym[b] as usize]) as u16;
				}
			}
			let mut alive = acc.clone();
			loop {
				let mut ch = false;
				for s in 0..n {
					if !alive[s] && (0..256).any(|b| alive[next[s * 256 + b] as usize]) {
						alive[s] = true;
						ch = true
					}
				}
				if !ch {
					break;
				}
			}
			let dead = (0..n).find(|&s| !alive[s]).expect("dead state") as u16;
			dfa.push(Dfa { next, acc, n, init: u(&d["init"]) as u16, dead, alive });
		}
		let rules: Vec<String> = v["rules"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_owned()).collect();
		let path_rules = v["paths"]
			.as_array()
			.unwrap()
			.iter()
			.map(|p| p.as_array().unwrap().iter().fold(0u64, |a, x| a | 1 << u(x)))
			.collect();
		let mut nfa = vec![];
		for ty in &types {
			let d = &v["nfa"][ty];
			if d.is_null() {
				nfa.push(None);
				continue;
			}
			let fin: Vec<bool> = d["final"].as_array().unwrap().iter().map(|x| x.as_bool().unwrap()).collect();
			let mut edges = vec![vec![]; fin.len() * nsym];
			for e in d["edges"].as_array().unwrap() {
				edges[u(&e[0]) * nsym + u(&e[1])].push((u(&e[2]) as u32, u(&e[3]) as u32));
			}
			nfa.push(Some(Nfa { init: u(&d["init"]), fin, edges, nsym }));
		}
		let mut iter = HashMap::new();
		let mut iter_max = 0;
		for e in v["it"].as_array().unwrap() {
			let g = |i: usize| u(&e[i]) as u8;
			iter_max = iter_max.max(g(0) as usize);
			iter.insert((g(0), g(1), g(2), e[3] == "back"), (g(4), g(5), g(6)));
		}
		let mut iter_nth = HashMap::new();
		for e in v["itn"].as_array().unwrap() {
			let g = |i: usize| u(&e[i]) as u8;
			iter_nth.insert((g(0), g(1), g(2), e[3] == "nth_back", g(4)), (g(5), g(6), g(7)));
		}
		let mut iter_rest = HashMap::new();
		for e in v["itr"].as_array().unwrap() {
			let g = |i: usize| u(&e[i]) as u8;
			let rest = e[5].as_array().unwrap().iter().map(u).collect();
			iter_rest.insert((g(0), g(1), g(2)), (u(&e[3]), u(&e[4]), rest));
		}
		let mut cmp = vec![9i8; 65536];
		for e in v["cmp"].as_array().unwrap() {
			cmp[u(&e[0]) * 256 + u(&e[1])] = match e[2].as_str().unwrap() {
				"lt" => -1,
				"gt" => 1,
				_ => 0,
			};
		}
		let st = |x: &Value| x.as_str().unwrap().to_owned();
		let conv = v["conv"].as_array().unwrap().iter().map(|e| (st(&e[0]), st(&e[1]), st(&e[2]), st(&e[3]))).collect();
		let ent = |x: &Value| -> Vec<Option<(usize, i64)>> {
			x.as_array()
				.unwrap()
				.iter()
				.map(|p| {
					let p = p.as_array().unwrap();
					if p.is_empty() { None } else { Some((u(&p[0]), p[1].as_i64().unwrap())) }
				})
				.collect()
		};
		let edges = v["coll"]
			.as_array()
			.unwrap()
			.iter()
			.map(|e| CollEdge {
				map: e[0] == "map",
				from: ent(&e[1]),
				op: st(&e[2]),
				s: u(&e[3]),
				x: e[4].as_i64().unwrap(),
				res: e[5].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect(),
				to: ent(&e[6]),
			})
			.collect();
		let gf = v["gf"]
			.as_array()
			.unwrap()
			.iter()
			.map(|e| (bytes(&e[0]), if e[1].is_null() { None } else { Some(bytes(&e[1])) }))
			.collect();
		let gf_names = v["gf"].as_array().unwrap().iter().map(|e| bytes(&e[2])).collect();
		let single = v["single"].as_array().unwrap().iter().map(|x| x.as_bool().unwrap()).collect();
		let tyi = |x: &Value| types.iter().position(|t| Some(t.as_str()) == x.as_str());
		let mut forms: Vec<Form> = vec![];
		for e in v["cpf"].as_array().unwrap() {
			let name = st(&e[0]);
			if !forms.iter().any(|f| f.name == name) {
				forms.push(Form { name: name.clone(), done: u(&e[2]), ..Default::default() });
			}
			let f = forms.iter_mut().find(|f| f.name == name).unwrap();
			f.types.push(tyi(&e[1]).unwrap());
			if e[3] == true {
				f.own = tyi(&e[1]).unwrap();
			}
		}
		for e in v["cpe"].as_array().unwrap() {
			let f = forms.iter_mut().find(|f| Some(f.name.as_str()) == e[0].as_str()).unwrap();
			let k = u(&e[2]);
			f.edges.insert((u(&e[1]), k));
			if f.stages.len() < k {
				f.stages.resize_with(k, Stage::default);
			}
			f.stages[k - 1] = Stage {
				name: st(&e[3]),
				ty: tyi(&e[4]),
				max: u(&e[6]),
				acc: st(&e[7]),
				items: st(&e[8]),
				short: u(&e[9]),
			};
		}
		Model { forms, sym, fold, nsym, types, dfa, nfa, path_rules, rules, iter, iter_max, iter_nth, iter_rest, cmp, conv, edges, gf, gf_names, single }
	}

	pub fn ty(&self, name: &str) -> usize {
		self.types.iter().position(|t| t == name).unwrap_or_else(|| panic!("type {name}"))
	}
	pub fn rule(&self, name: &str) -> u64 {
		1 << self.rules.iter().position(|t| t == name).unwrap_or_else(|| panic!("rule {name}"))
	}
	#[inline]
	pub fn well(&self, ty: usize, t: &[u8]) -> bool {
		self.dfa[ty].accepts(t)
	}

	pub fn folded(&self, t: &[u8]) -> Vec<u8> {
		t.iter().map(|&b| self.fold[b as usize]).collect()
	}
	pub fn verdict_eq(&self, a: &[u8], b: &[u8]) -> bool {
		a.len() == b.len() && a.iter().zip(b).all(|(x, y)| self.fold[*x as usize] == self.fold[*y as usize])
	}
	/// The lock-step comparator of module Compare.
	pub fn verdict(&self, a: &[u8], b: &[u8]) -> Verdict {
		for (&x, &y) in a.iter().zip(b) {
			match self.cmp[x as usize * 256 + y as usize] {
				0 => (),
				-1 => return Verdict::Lt,
				1 => return Verdict::Gt,
				_ => panic!("character outside the model: {x} {y}"),
			}
		}
		if a.len() == b.len() { Verdict::Eq } else { Verdict::Prefix }
	}

	/// The rules each byte of `t` is read in, by the (unique) parse of `t`.
	pub fn parse(&self, ty: usize, t: &[u8]) -> Option<Vec<u64>> {
		let nfa = self.nfa[ty].as_ref().unwrap();
		// layers[i]: (state, index in previous layer, path)
		let mut layers: Vec<Vec<(u32, u32, u32)>> = vec![vec![(nfa.init as u32, 0, 0)]];
		for &b in t {
			let prev = layers.last().unwrap();
			let mut cur: Vec<(u32, u32, u32)> = vec![];
			for (i, &(s, _, _)) in prev.iter().enumerate() {
				for &(to, path) in &nfa.edges[s as usize * nfa.nsym + self.sym[b as usize] as usize] {
					cur.push((to, i as u32, path));
				}
			}
			if cur.is_empty() {
				return None;
			}
			layers.push(cur);
		}
		let last = layers.last().unwrap();
		let mut at = None;
		for (i, &(s, _, _)) in last.iter().enumerate() {
			if nfa.fin[s as usize] {
				assert!(at.is_none(), "ambiguous parse");
				at = Some(i);
			}
		}
		let mut at = at?;
		let mut out = vec![0u64; t.len()];
		for i in (1..layers.len()).rev() {
			let (_, back, path) = layers[i][at];
			out[i - 1] = self.path_rules[path as usize];
			at = back as usize;
		}
		Some(out)
	}
}

/// Maximal runs of bytes read in `rule`.
pub fn runs(parse: &[u64], rule: u64) -> Vec<(usize, usize)> {
	let mut v = vec![];
	let mut i = 0;
	while i < parse.len() {
		if parse[i] & rule != 0 {
			let s = i;
			while i < parse.len() && parse[i] & rule != 0 {
				i += 1
			}
			v.push((s, i));
		} else {
			i += 1
		}
	}
	v
}
/// From the first to the last byte read in `rule`.
pub fn span(parse: &[u64], rule: u64) -> Option<(usize, usize)> {
	let a = parse.iter().position(|p| p & rule != 0)?;
	let b = parse.iter().rposition(|p| p & rule != 0)?;
	Some((a, b + 1))
}
