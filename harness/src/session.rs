//! The session of module Session, on the real code: executes events, replays
//! behaviours TLC generated, and records histories for TLC to check.
use crate::checks::q;
use crate::core::*;
use crate::model::Model;
use crate::types::*;
use crate::visit::*;
use crate::with_ty;
use crate::{checks, gen_ as g};
use langtag::*;
use serde_json::{Value, json};
use std::any::Any;
use std::borrow::Borrow;
use std::cmp::Ordering;

struct Val {
	ty: usize,
	buf: bool,
	any: Box<dyn Any>,
}
impl Val {
	fn get<T: OwnTy + ?Sized>(&self) -> &'static T {
		let r: &T = if self.buf { self.any.downcast_ref::<T::Buf>().unwrap().borrow() } else { self.any.downcast_ref::<&'static T>().unwrap() };
		// values live until the session ends
		unsafe { &*(r as *const T) }
	}
	fn owned<T: OwnTy + ?Sized>(&self) -> &'static T::Buf {
		let r: &T::Buf = self.any.downcast_ref::<T::Buf>().unwrap();
		unsafe { &*(r as *const T::Buf) }
	}
	fn text(&self) -> &'static [u8] {
		with_ty!(self.ty, T => self.get::<T>().text())
	}
}
enum It {
	Ext(LanguageExtensionIter<'static>),
	Var(VariantsIter<'static>),
	Exs(ExtensionsIter<'static>),
	ExSub(ExtensionIter<'static>),
	Pu(PrivateUseIter<'static>),
	/// used up by an operation that takes the iterator
	Gone,
}
struct Col {
	kind: String,
	ty: usize,
	any: Box<dyn Any>,
}
#[derive(Default)]
pub struct Session {
	vals: Vec<Val>,
	its: Vec<It>,
	cols: Vec<Col>,
	/// memory the values refer to
	keep: Vec<Box<dyn Any>>,
}
type R = Result<Value, String>;
fn jb(t: &[u8]) -> Value {
	json!(t)
}
fn jopt(t: Option<&[u8]>) -> Value {
	match t {
		Some(t) => json!([t]),
		None => json!([]),
	}
}
fn bytes(v: &Value) -> Vec<u8> {
	v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
fn ord(o: Ordering) -> i64 {
	o as i64
}

impl Session {
	fn keep_bytes(&mut self, t: &[u8]) -> &'static [u8] {
		let b: Box<Vec<u8>> = Box::new(t.to_vec());
		let s: &'static [u8] = unsafe { &*(b.as_slice() as *const [u8]) };
		self.keep.push(b);
		s
	}
	fn put_ref<T: OwnTy + ?Sized>(&mut self, v: &'static T) {
		self.vals.push(Val { ty: T::IDX, buf: false, any: Box::new(v) });
	}
	fn put_buf<T: OwnTy + ?Sized>(&mut self, v: T::Buf) {
		self.vals.push(Val { ty: T::IDX, buf: true, any: Box::new(v) });
	}
	fn v(&self, e: &Value, k: &str) -> &Val {
		&self.vals[e[k].as_u64().unwrap() as usize - 1]
	}

	pub fn exec(&mut self, m: &Model, e: &Value) -> R {
		let kind = e["e"].as_str().unwrap();
		Ok(match kind {
			"parse" => {
				let ty = m.ty(e["ty"].as_str().unwrap());
				let t = bytes(&e["t"]);
				let how = e["how"].as_str().unwrap();
				let s = self.keep_bytes(&t);
				with_ty!(ty, T => self.parse::<T>(how, s))?
			}
			"valid" => {
				let ty = m.ty(e["ty"].as_str().unwrap());
				let t = bytes(&e["t"]);
				with_ty!(ty, T => json!(if e["how"] == "bytes" { T::valid_bytes(&t) } else { T::valid_str(std::str::from_utf8(&t).map_err(|e| e.to_string())?) } as u8))
			}
			#[cfg(feature = "serde")]
			"de" => {
				let ty = m.ty(e["ty"].as_str().unwrap());
				let t = bytes(&e["t"]);
				let s = self.keep_bytes(&t);
				let s: &'static str = std::str::from_utf8(s).unwrap();
				with_ty!(ty, T => {
					if e["how"] == "de_ref" {
						use serde::de::Deserialize;
						let d = serde::de::value::BorrowedStrDeserializer::<serde::de::value::Error>::new(s);
						match <&'static T>::deserialize(d) {
							Ok(v) => {
								self.put_ref::<T>(v);
								json!([v.text()])
							}
							Err(_) => json!([]),
						}
					} else {
						match serde_json::from_value::<<T as OwnTy>::Buf>(Value::String(s.to_owned())) {
							Ok(b) => {
								let t = T::buf_bytes("buf_as_bytes", &b).unwrap().to_vec();
								self.put_buf::<T>(b);
								json!([t])
							}
							Err(_) => json!([]),
						}
					}
				})
			}
			#[cfg(feature = "serde")]
			"ser" => {
				let v = self.v(e, "v");
				let j = with_ty!(v.ty, T => if v.buf { serde_json::to_value(v.owned::<T>()) } else { serde_json::to_value(v.get::<T>()) }).map_err(|e| e.to_string())?;
				match j {
					Value::String(s) => jb(s.as_bytes()),
					j => j,
				}
			}
			"part" => {
				let (ty, t) = (self.v(e, "v").ty, self.v(e, "v").text());
				let name = e["name"].as_str().unwrap();
				self.part(ty, t, e, name)?
			}
			"kind" => {
				let t: &LangTag = self.v(e, "v").get::<LangTag>();
				let k = match t.kind() {
					langtag::Kind::Normal => "Normal",
					langtag::Kind::PrivateUse => "PrivateUse",
					langtag::Kind::Grandfathered => "Grandfathered",
				};
				let typed = t.as_typed();
				let text = match &typed {
					TypedLangTag::Normal(x) => x.as_bytes(),
					TypedLangTag::PrivateUse(x) => x.as_bytes(),
					// the typed view of a grandfathered tag has the registered spelling
					TypedLangTag::Grandfathered(x) if m.folded(x.as_bytes()) == m.folded(t.as_bytes()) => t.as_bytes(),
					TypedLangTag::Grandfathered(_) => b"?",
				};
				json!([k, t.is_normal() as u8, t.is_private_use() as u8, t.is_grandfathered() as u8, text])
			}
			"asgf" => {
				let t: &LangTag = self.v(e, "v").get::<LangTag>();
				gf_index(m, t.as_grandfathered())
			}
			"items" => {
				let v = self.v(e, "v");
				let cap = v.text().len() + 1;
				let mut it = mk_iter(v);
				let mut out = vec![];
				while let Some((_, t)) = step(&mut it, false) {
					out.push(jb(t));
					if out.len() > cap {
						return Err("the iterator does not end".into());
					}
				}
				Value::Array(out)
			}
			"iter" => {
				let it = mk_iter(self.v(e, "v"));
				self.its.push(it);
				json!(self.its.len())
			}
			"extiter" => {
				let x: &'static Extensions = self.v(e, "v").get::<Extensions>();
				let s = Singleton::new(e["b"].as_u64().unwrap() as u8).map_err(|_| "not a singleton".to_owned())?;
				self.its.push(It::ExSub(x.iter_extension(s)));
				json!(self.its.len())
			}
			"next" | "back" => {
				let i = e["i"].as_u64().unwrap() as usize - 1;
				match step(&mut self.its[i], kind == "back") {
					Some((ty, t)) => {
						with_ty!(ty, T => {
							// the value handed out; t is its text
							let v: &'static T = unsafe { reref::<T>(t) };
							self.put_ref::<T>(v);
						});
						json!([t])
					}
					None => json!([]),
				}
			}
			"nth" | "nthback" => {
				let i = e["i"].as_u64().unwrap() as usize - 1;
				let k = e["k"].as_u64().unwrap() as usize;
				match nth(&mut self.its[i], k, kind == "nthback") {
					Some((ty, t)) => {
						with_ty!(ty, T => {
							let v: &'static T = unsafe { reref::<T>(t) };
							self.put_ref::<T>(v);
						});
						json!([t])
					}
					None => json!([]),
				}
			}
			"rest" => {
				let i = e["i"].as_u64().unwrap() as usize - 1;
				rest(&mut self.its[i], e["how"].as_str().unwrap())?
			}
			"typed" => {
				let (v, text) = match e["form"].as_str().unwrap() {
					"n" => {
						let n = self.v(e, "v").get::<NormalLangTag>();
						(TypedLangTag::Normal(n), n.as_bytes())
					}
					"p" => {
						let p = self.v(e, "v").get::<PrivateUse>();
						(TypedLangTag::PrivateUse(p), p.as_bytes())
					}
					_ => {
						let w = &m.gf[e["i"].as_u64().unwrap() as usize - 1].0;
						let g = GrandfatheredLangTag::new(w).map_err(|_| "a registered tag is not found".to_owned())?;
						(TypedLangTag::Grandfathered(g), w.as_slice())
					}
				};
				let k = match v.kind() {
					langtag::Kind::Normal => "Normal",
					langtag::Kind::PrivateUse => "PrivateUse",
					langtag::Kind::Grandfathered => "Grandfathered",
				};
				let held = match (v.as_normal(), v.as_private_use(), v.as_grandfathered()) {
					(Some(n), None, None) => n.as_bytes(),
					(None, Some(p), None) => p.as_bytes(),
					(None, None, Some(g)) if g.as_bytes() == text => text,
					_ => return Err("a typed view does not hand back exactly what it was made of".into()),
				};
				json!([k, v.is_normal() as u8, v.is_private_use() as u8, v.is_grandfathered() as u8, jopt(v.language().map(|l| l.as_bytes())), held])
			}
			"sort" => {
				let vs: Vec<&Val> = e["vs"].as_array().unwrap().iter().map(|i| &self.vals[i.as_u64().unwrap() as usize - 1]).collect();
				let how = e["how"].as_str().unwrap();
				let mut r: Vec<usize> = (0..vs.len()).collect();
				with_ty!(vs[0].ty, T => {
					let x: Vec<&T> = vs.iter().map(|v| v.get::<T>()).collect();
					match how {
						"cmp" => r.sort_by(|i, j| x[*i].cmp(x[*j])),
						"partial" => r.sort_by(|i, j| x[*i].partial_cmp(x[*j]).unwrap_or(Ordering::Equal)),
						"lt" => r.sort_by(|i, j| if x[*i] < x[*j] { Ordering::Less } else if x[*j] < x[*i] { Ordering::Greater } else { Ordering::Equal }),
						"key" => r.sort_by_key(|i| x[*i].own()),
						_ => r.sort_unstable_by(|i, j| x[*i].cmp(x[*j])),
					}
				});
				json!(r.iter().map(|i| i + 1).collect::<Vec<_>>())
			}
			"sext" => {
				let (a, b) = singles(e)?;
				json!(if e["op"] == "max" { a.max(b) } else { a.min(b) }.unwrap())
			}
			"shash" => {
				let l: Vec<Singleton> = bytes(&e["t"]).into_iter().map(|b| Singleton::new(b).map_err(|_| "not a singleton".to_owned())).collect::<Result<_, _>>()?;
				let h = e["h"].as_str().unwrap();
				json!(if e["how"] == "one" { hash_in(h, &l[0]) } else { hash_in(h, l.as_slice()) })
			}
			"extget" => {
				let x: &'static Extensions = self.v(e, "v").get::<Extensions>();
				let s = Singleton::new(e["b"].as_u64().unwrap() as u8).map_err(|_| "not a singleton".to_owned())?;
				match x.get(s) {
					Some(v) => {
						self.put_ref::<Extension>(v);
						json!([v.as_bytes()])
					}
					None => json!([]),
				}
			}
			"eq" => {
				let (a, b) = (self.v(e, "a"), self.v(e, "b"));
				with_ty!(a.ty, T => {
					let r = match (a.buf, b.buf) {
						(true, true) => a.owned::<T>() == b.owned::<T>(),
						_ => a.get::<T>() == b.get::<T>(),
					};
					json!(r as u8)
				})
			}
			"eqtext" => {
				let v = self.v(e, "v");
				let t = bytes(&e["t"]);
				let (want, rev) = (form_label(e["form"].as_str().unwrap()), e["rev"] == 1);
				let mut got = None;
				let mut sink = |l: &'static str, r: bool| {
					let hit = if rev { l.starts_with(&format!("{want} ==")) } else { l.ends_with(&format!("== {want}")) };
					if hit {
						got = Some(r)
					}
				};
				with_ty!(v.ty, T => match (v.buf, rev) {
					(false, false) => v.get::<T>().eq_text(&t, &mut sink),
					(false, true) => v.get::<T>().eq_text_rev(&t, &mut sink),
					(true, false) => T::buf_eq_text(v.owned::<T>(), &t, &mut sink),
					(true, true) => T::buf_eq_text_rev(v.owned::<T>(), &t, &mut sink),
				});
				json!(got.ok_or("no such comparison")? as u8)
			}
			"cmp" => {
				let (a, b) = (self.v(e, "a"), self.v(e, "b"));
				with_ty!(a.ty, T => {
					let r = match (a.buf, b.buf) {
						(true, true) => a.owned::<T>().cmp(b.owned::<T>()),
						_ => a.get::<T>().cmp(b.get::<T>()),
					};
					json!(ord(r))
				})
			}
			"cmptext" => {
				let v = self.v(e, "v");
				let t = bytes(&e["t"]);
				let want = form_label(e["form"].as_str().unwrap());
				let mut got = None;
				let mut sink = |l: &'static str, r: Option<Ordering>| {
					if l.ends_with(&format!("({want})")) {
						got = Some(r)
					}
				};
				with_ty!(v.ty, T => if v.buf { T::buf_cmp_text(v.owned::<T>(), &t, &mut sink) } else { v.get::<T>().cmp_text(&t, &mut sink) });
				json!(got.ok_or("no such comparison")?.map(ord).unwrap_or(2))
			}
			"hash" => {
				let v = self.v(e, "v");
				let h = e["h"].as_str().unwrap();
				json!(with_ty!(v.ty, T => if v.buf { hash_in(h, v.owned::<T>()) } else { hash_in(h, v.get::<T>()) }))
			}
			"conv" => {
				let (ty, buf) = (self.v(e, "v").ty, self.v(e, "v").buf);
				let op = e["op"].as_str().unwrap();
				with_ty!(ty, T => self.conv::<T>(e, op, buf))?
			}
			"gf" => {
				let t = bytes(&e["t"]);
				gf_index(m, GrandfatheredLangTag::new(t.as_slice()).ok())
			}
			"gfinfo" => {
				let i = e["i"].as_u64().unwrap() as usize - 1;
				// the registry entry the specification calls i, in the published list
				let Some(tag) = GRANDFATHERED.iter().find(|x| m.folded(x.as_bytes()) == m.folded(&m.gf[i].0)) else {
					return Ok(json!([[], []]));
				};
				json!([tag.as_bytes(), jopt(tag.language().map(|l| l.as_bytes()))])
			}
			"single" => {
				let t = bytes(&e["t"]);
				let s = std::str::from_utf8(&t).map_err(|e| e.to_string())?;
				let (ok, text) = match e["how"].as_str().unwrap() {
					"byte" => match Singleton::new(t[0]) {
						Ok(s) => (1, vec![s.unwrap()]),
						Err(e) => (0, vec![e.0]),
					},
					"char" => match Singleton::try_from(s.chars().next().unwrap()) {
						Ok(s) => (1, vec![s.unwrap()]),
						Err(e) => (0, e.0.to_string().into_bytes()),
					},
					"str" => match Singleton::from_string(s) {
						Ok(s) => (1, s.to_string().into_bytes()),
						Err(e) => (0, e.0.as_bytes().to_vec()),
					},
					_ => match s.parse::<Singleton>() {
						Ok(s) => (1, vec![s.unwrap()]),
						Err(e) => (0, e.0.into_bytes()),
					},
				};
				json!([ok, text])
			}
			"scmp" => {
				let (a, b) = singles(e)?;
				if (a == b) != (a.cmp(&b) == Ordering::Equal) {
					return Err("== and cmp of singletons disagree".into());
				}
				json!(ord(a.cmp(&b)))
			}
			"seqb" => {
				let a = Singleton::new(e["a"].as_u64().unwrap() as u8).map_err(|_| "not a singleton".to_owned())?;
				let b = e["b"].as_u64().unwrap() as u8;
				json!(if e["form"] == "byte" { a == b } else { a == b as char } as u8)
			}
			"col" => {
				let ty = m.ty(e["ty"].as_str().unwrap());
				let kind = e["kind"].as_str().unwrap();
				let i = match kind {
					"hset" => 0,
					"bset" => 2,
					"hmap" => 3,
					_ => 5,
				};
				with_ty!(ty, T => self.cols.push(Col { kind: kind.to_owned(), ty, any: Box::new(checks::new_coll::<T>(i)) }));
				json!(self.cols.len())
			}
			"ins" | "has" | "get" | "del" | "len" | "all" => {
				let ci = e["c"].as_u64().unwrap() as usize - 1;
				let v = e.get("v").map(|_| self.v(e, "v") as *const Val);
				let c = &mut self.cols[ci];
				let is_map = c.kind.ends_with("map");
				with_ty!(c.ty, T => {
					let coll = c.any.downcast_mut::<Box<dyn checks::Coll<T>>>().unwrap();
					let key: Option<&T> = v.map(|v| unsafe { &*v }.get::<T>());
					let by_buf = v.is_some_and(|v| unsafe { &*v }.buf);
					let pair = |p: Option<(Vec<u8>, i64)>| match p {
						Some((t, x)) => json!([[t, x]]),
						None => json!([]),
					};
					match kind {
						"ins" => {
							let r = coll.insert(key.unwrap().own(), e["x"].as_i64().unwrap());
							let _ = is_map;
							json!(r)
						}
						"has" => json!(if by_buf { coll.contains_buf(&key.unwrap().own()) } else { coll.contains(key.unwrap()) } as u8),
						"get" => pair(if by_buf { coll.get_buf(&key.unwrap().own()) } else { coll.get(key.unwrap()) }),
						"del" => pair(coll.remove(key.unwrap(), by_buf)),
						"len" => json!(coll.len()),
						_ => json!(coll.all()),
					}
				})
			}
			k => return Err(format!("no event {k}")),
		})
	}

	fn parse<T: OwnTy + ?Sized>(&mut self, how: &str, t: &'static [u8]) -> R {
		let r = |s: &mut Self, r: TextRes<'static, T>| match r {
			Ok(v) => {
				s.put_ref::<T>(v);
				json!([1, v.text()])
			}
			Err(e) => json!([0, e]),
		};
		let b = |s: &mut Self, r: Result<T::Buf, Vec<u8>>| match r {
			Ok(v) => {
				let t = T::buf_bytes("buf_as_bytes", &v).unwrap().to_vec();
				s.put_buf::<T>(v);
				json!([1, t])
			}
			Err(e) => json!([0, e]),
		};
		let st = || std::str::from_utf8(t).map_err(|e| e.to_string());
		Ok(if let Some(i) = REF_BYTES.iter().position(|h| *h == how) {
			r(self, T::ref_bytes(i, t))
		} else if let Some(i) = REF_STR.iter().position(|h| *h == how) {
			r(self, T::ref_str(i, st()?))
		} else if let Some(i) = BUF_VEC.iter().position(|h| *h == how) {
			b(self, T::buf_vec(i, t.to_vec()))
		} else if let Some(i) = BUF_STRING.iter().position(|h| *h == how) {
			b(self, T::buf_string(i, st()?.to_owned()))
		} else if UNCHECKED.contains(&how) || BUF_UNCHECKED.contains(&how) {
			// the caller's duty: only what the parser accepts as well
			if T::ref_str(0, st()?).is_err() {
				return Err("refused by from_str".into());
			}
			if let Some(i) = UNCHECKED.iter().position(|h| *h == how) {
				r(self, Ok(T::unchecked(i, t)))
			} else {
				b(self, Ok(T::buf_unchecked((how == BUF_UNCHECKED[1]) as usize, st()?.to_owned())))
			}
		} else {
			b(self, T::buf_parse(st()?))
		})
	}
	fn conv<T: OwnTy + ?Sized>(&mut self, e: &Value, op: &str, buf: bool) -> R {
		let v = self.v(e, "v");
		if buf {
			let b: &'static T::Buf = v.owned::<T>();
			if let Some(x) = T::buf_ref(op, b) {
				self.put_ref::<T>(x);
				return Ok(jb(x.text()));
			}
			if let Some(x) = T::buf_bytes(op, b) {
				return Ok(jb(x));
			}
			if op == "clone" || op == "clone_from" {
				let c = if op == "clone" {
					b.clone()
				} else {
					// over another value of the type, when there is one
					let other = self.vals.iter().rev().find(|o| o.ty == T::IDX && o.buf);
					let mut c = other.map(|o| o.owned::<T>().clone()).unwrap_or_else(|| b.clone());
					c.clone_from(b);
					c
				};
				let t = T::buf_bytes("buf_as_bytes", &c).unwrap().to_vec();
				self.put_buf::<T>(c);
				return Ok(json!(t));
			}
			return Ok(json!(T::buf_into(op, b.clone()).ok_or(format!("no conversion {op}"))?));
		}
		let r: &'static T = v.get::<T>();
		if let Some(b) = r.own_how(op) {
			let t = T::buf_bytes("buf_as_bytes", &b).unwrap().to_vec();
			self.put_buf::<T>(b);
			return Ok(json!(t));
		}
		if op == "display" {
			return Ok(jb(r.to_string().as_bytes()));
		}
		let mut got = None;
		r.texts(&mut |l, b| {
			if l == op {
				got = Some(b)
			}
		});
		let t = got.ok_or(format!("no conversion {op}"))?;
		if op == "as_ref_self" {
			let r: &'static T = unsafe { reref::<T>(t) };
			self.put_ref::<T>(r);
		}
		Ok(jb(t))
	}
	fn part(&mut self, ty: usize, _t: &'static [u8], e: &Value, name: &str) -> R {
		macro_rules! opt {
			($T:ident, $x:expr) => {{
				let x: Option<&'static $T> = $x;
				if let Some(v) = x {
					self.put_ref::<$T>(v);
				}
				jopt(x.map(|v| v.as_bytes()))
			}};
		}
		let v = self.v(e, "v");
		Ok(match (ALL_TYPES[ty], name) {
			("LangTag", n) => {
				let t: &'static LangTag = v.get::<LangTag>();
				match n {
					"language" => opt!(Language, t.language()),
					"script" => opt!(Script, t.script()),
					"region" => opt!(Region, t.region()),
					"variants" => opt!(Variants, Some(t.variants())),
					"extensions" => opt!(Extensions, Some(t.extensions())),
					"private_use" => opt!(PrivateUse, t.private_use()),
					"as_normal" => opt!(NormalLangTag, t.as_normal()),
					_ => opt!(PrivateUse, t.as_private_use()),
				}
			}
			("NormalLangTag", n) => {
				let t: &'static NormalLangTag = v.get::<NormalLangTag>();
				match n {
					"language" => opt!(Language, Some(t.language())),
					"script" => opt!(Script, t.script()),
					"region" => opt!(Region, t.region()),
					"variants" => opt!(Variants, Some(t.variants())),
					"extensions" => opt!(Extensions, Some(t.extensions())),
					_ => opt!(PrivateUse, t.private_use()),
				}
			}
			("Language", "primary") => {
				let t: &'static Language = v.get::<Language>();
				opt!(PrimaryLanguage, Some(t.primary()))
			}
			("Language", _) => {
				let t: &'static Language = v.get::<Language>();
				opt!(LanguageExtension, t.extension())
			}
			("Variants", n) => {
				let t: &'static Variants = v.get::<Variants>();
				if n == "first" { opt!(Variant, t.first()) } else { opt!(Variant, t.last()) }
			}
			("Extension", _) => {
				let t: &'static Extension = v.get::<Extension>();
				json!([[t.singleton().unwrap()]])
			}
			(a, b) => return Err(format!("no part {b} of {a}")),
		})
	}
}
/// The value whose text was just handed out (rebuilt from its text).
unsafe fn reref<T: OwnTy + ?Sized>(t: &'static [u8]) -> &'static T {
	// parse where possible, so that no unchecked constructor is used here
	T::ref_bytes(0, t).unwrap_or_else(|_| panic!("{} handed out as a {}", q(t), T::NAME))
}
fn form_label(f: &str) -> &'static str {
	match f {
		"str" => "str",
		"ref_str" => "&str",
		"bytes" => "[u8]",
		"ref_bytes" => "&[u8]",
		"string" => "String",
		_ => "Vec<u8>",
	}
}
fn singles(e: &Value) -> Result<(Singleton, Singleton), String> {
	let f = |k: &str| Singleton::new(e[k].as_u64().unwrap() as u8).map_err(|_| "not a singleton".to_owned());
	Ok((f("a")?, f("b")?))
}
fn gf_index(m: &Model, g: Option<GrandfatheredLangTag>) -> Value {
	match g {
		None => json!([]),
		Some(g) => match m.gf.iter().position(|w| w.0 == g.as_bytes()) {
			Some(i) => json!([i + 1]),
			None => json!([0]),
		},
	}
}
fn mk_iter(v: &Val) -> It {
	match ALL_TYPES[v.ty] {
		"LangTag" => It::Pu(v.get::<LangTag>().private_use_subtags()),
		"NormalLangTag" => It::Pu(v.get::<NormalLangTag>().private_use_subtags()),
		"PrivateUse" => It::Pu(v.get::<PrivateUse>().iter()),
		"Language" => It::Ext(v.get::<Language>().extension_subtags()),
		"LanguageExtension" => It::Ext(v.get::<LanguageExtension>().iter()),
		"Variants" => It::Var(v.get::<Variants>().iter()),
		"Extensions" => It::Exs(v.get::<Extensions>().iter()),
		"Extension" => It::ExSub(v.get::<Extension>().iter()),
		t => panic!("no iterator over {t}"),
	}
}
fn hash_in<X: std::hash::Hash + ?Sized>(h: &str, x: &X) -> String {
	match h {
		"sip" => format!("{:016x}", hash_sip(x)),
		"fnv" => format!("{:016x}", hash_fnv(x)),
		_ => hash_calls(x).iter().map(|b| format!("{b:02x}")).collect(),
	}
}
fn nth(it: &mut It, k: usize, back: bool) -> Option<(usize, &'static [u8])> {
	match it {
		It::Ext(i) => i.nth(k).map(|x| (EXTLANG_TAG, x.as_bytes())),
		It::Var(i) => if back { i.nth_back(k) } else { i.nth(k) }.map(|x| (VARIANT, x.as_bytes())),
		It::Exs(i) => i.nth(k).map(|x| (EXTENSION, x.as_bytes())),
		It::ExSub(i) => i.nth(k).map(|x| (EXT_SUBTAG, x.as_bytes())),
		It::Pu(i) => i.nth(k).map(|x| (PU_SUBTAG, x.as_bytes())),
		It::Gone => None,
	}
}
/// What is left, taken in one go.
fn rest(it: &mut It, how: &str) -> R {
	macro_rules! all {
		($i:expr) => {{
			let i = $i;
			match how {
				"count" => json!(i.count()),
				"last" => jopt(i.last().map(|x| x.as_bytes())),
				"fold" => Value::Array(i.fold(vec![], |mut v, x| {
					v.push(jb(x.as_bytes()));
					v
				})),
				_ => Value::Array(i.take(100_000).map(|x| jb(x.as_bytes())).collect()),
			}
		}};
	}
	Ok(match std::mem::replace(it, It::Gone) {
		It::Ext(i) => all!(i),
		It::Exs(i) => all!(i),
		It::ExSub(i) => all!(i),
		It::Pu(i) => all!(i),
		It::Var(i) => match how {
			"rev" => all!(i.rev()),
			"rfold" => Value::Array(i.rfold(vec![], |mut v, x| {
				v.push(jb(x.as_bytes()));
				v
			})),
			_ => all!(i),
		},
		It::Gone => match how {
			"count" => json!(0),
			_ => json!([]),
		},
	})
}
fn step(it: &mut It, back: bool) -> Option<(usize, &'static [u8])> {
	match it {
		It::Ext(i) => i.next().map(|x| (EXTLANG_TAG, x.as_bytes())),
		It::Var(i) => if back { i.next_back() } else { i.next() }.map(|x| (VARIANT, x.as_bytes())),
		It::Exs(i) => i.next().map(|x| (EXTENSION, x.as_bytes())),
		It::ExSub(i) => i.next().map(|x| (EXT_SUBTAG, x.as_bytes())),
		It::Pu(i) => i.next().map(|x| (PU_SUBTAG, x.as_bytes())),
		It::Gone => None,
	}
}

// ------------------------------------------------------------------ judging
/// Is this event one the property speaks about?
fn judged(p: &str, e: &Value, m: &Model, s: &Session) -> bool {
	let k = e["e"].as_str().unwrap();
	let ty = |key: &str| {
		e.get(key)
			.and_then(|v| v.as_u64())
			.and_then(|v| s.vals.get(v as usize - 1))
			.map(|v| ALL_TYPES[v.ty])
			.unwrap_or("")
	};
	let it = || match s.its.get(e["i"].as_u64().unwrap_or(0).wrapping_sub(1) as usize) {
		Some(It::Ext(_)) => "C07",
		Some(It::Var(_)) => "C08",
		Some(It::Exs(_)) | Some(It::ExSub(_)) => "C09",
		Some(It::Pu(_)) => "C10",
		Some(It::Gone) | None => "",
	};
	let by_type = |t: &str| match t {
		"Language" | "LanguageExtension" => "C07",
		"Variants" => "C08",
		"Extensions" | "Extension" => "C09",
		"LangTag" | "NormalLangTag" | "PrivateUse" => "C10",
		_ => "",
	};
	let _ = m;
	match k {
		"parse" | "valid" => match e["ty"].as_str().unwrap() {
			"LangTag" => p == "C01" || p == "C03",
			_ => p == "C02" || p == "C03",
		},
		"de" | "ser" => p == "C15",
		"part" => match e["name"].as_str().unwrap() {
			"primary" | "extension" => p == "C07",
			"first" | "last" => p == "C08",
			"singleton" => p == "C09",
			"as_normal" | "as_private_use" => p == "C04",
			_ => p == "C05",
		},
		"kind" => p == "C04",
		"asgf" => p == "C04" || p == "C16",
		"items" | "iter" => by_type(ty("v")) == p,
		"extiter" | "extget" => p == "C09",
		"next" | "back" | "nth" | "nthback" | "rest" => it() == p,
		"typed" => p == "C04" || (p == "C16" && e["form"] == "g"),
		"sort" => p == "C12",
		"eq" | "eqtext" => p == "C11",
		"cmp" | "cmptext" => p == "C12",
		"hash" | "col" | "ins" | "has" | "get" | "del" | "len" | "all" => p == "C13",
		"conv" => p == "C14",
		"gf" | "gfinfo" => p == "C16",
		"single" | "scmp" | "seqb" | "sext" | "shash" => p == "C17",
		_ => false,
	}
}
/// Does the parser of the real code agree with the specification on the texts
/// the event is about?  If not, its result is the parser's affair.
fn parser_agrees(m: &Model, e: &Value, s: &Session) -> bool {
	let ok = |ty: usize, t: &[u8]| with_ty!(ty, T => T::ref_bytes(0, t).is_ok()) == m.well(ty, t);
	let k = e["e"].as_str().unwrap();
	if k == "sort" {
		return e["vs"].as_array().unwrap().iter().all(|i| {
			let v = &s.vals[i.as_u64().unwrap() as usize - 1];
			ok(v.ty, v.text()) && m.well(v.ty, v.text())
		});
	}
	if k == "parse" || k == "valid" || k == "gf" || k == "single" || k == "gfinfo" || k == "shash" {
		return true;
	}
	for key in ["v", "a", "b"] {
		if matches!(k, "scmp" | "seqb" | "sext") || (key == "b" && k != "eq" && k != "cmp") {
			continue;
		}
		if let Some(v) = e.get(key).and_then(|v| v.as_u64()).and_then(|v| s.vals.get((v as usize).wrapping_sub(1))) {
			if !ok(v.ty, v.text()) || !m.well(v.ty, v.text()) {
				return false;
			}
			if let Some(t) = e.get("t") {
				if !ok(v.ty, &bytes(t)) {
					return false;
				}
			}
		}
	}
	if k == "de" && !ok(m.ty(e["ty"].as_str().unwrap()), &bytes(&e["t"])) {
		return false;
	}
	true
}

pub struct Outcome {
	pub behaviours: u64,
	pub events: u64,
	pub judged: u64,
	pub abandoned: u64,
}
/// Replays behaviours generated from the specification.  Returns the index of
/// the behaviour and a message on the first difference the property covers.
pub fn replay(m: &Model, prop: &str, behaviours: &[Vec<Value>]) -> (Outcome, Option<(usize, String)>) {
	let mut o = Outcome { behaviours: 0, events: 0, judged: 0, abandoned: 0 };
	for (bi, b) in behaviours.iter().enumerate() {
		o.behaviours += 1;
		if let Some(msg) = replay_one(m, prop, b, &mut o) {
			return (o, Some((bi, msg)));
		}
	}
	(o, None)
}
pub fn replay_one(m: &Model, prop: &str, b: &[Value], o: &mut Outcome) -> Option<String> {
	let mut s = Session::default();
	// hashes seen: class of the specification -> hash of the code
	let mut hs: Vec<(String, String, String)> = vec![];
	for (k, e) in b.iter().enumerate() {
		o.events += 1;
		let j = judged(prop, e, m, &s);
		o.judged += j as u64;
		if !parser_agrees(m, e, &s) {
			o.abandoned += 1;
			return None;
		}
		let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.exec(m, e))).unwrap_or_else(|p| Err(panic_text(p)));
		let kind = e["e"].as_str().unwrap();
		let want = &e["r"];
		let same = match &got {
			Err(_) => false,
			Ok(got) => match kind {
				"cmp" | "cmptext" if e["any"] == 1 => got == want || (want != 2 && *got == json!(-want.as_i64().unwrap())),
				"sext" => {
					let b = |v: &Value| v.as_u64().unwrap() as u8;
					m.fold[b(got) as usize] == m.fold[b(want) as usize] && (b(got) == b(&e["a"]) || b(got) == b(&e["b"]))
				}
				"hash" | "shash" => {
					let ty = if kind == "hash" { s.v(e, "v").ty.to_string() } else { e["how"].to_string() };
					let key = format!("{} {} {}", e["h"], ty, want);
					let g = got.as_str().unwrap().to_owned();
					match hs.iter().find(|x| x.0 == key) {
						Some(x) => x.1 == g,
						None => {
							hs.push((key, g, String::new()));
							true
						}
					}
				}
				"all" => {
					let mut a = got.as_array().unwrap().clone();
					let mut b = want.as_array().unwrap().clone();
					a.sort_by_key(|x| x.to_string());
					b.sort_by_key(|x| x.to_string());
					a == b
				}
				_ => got == want,
			},
		};
		if same {
			continue;
		}
		let off = match (prop, kind) {
			// C03 is about the text and the agreement of constructors, not about the language accepted
			("C03", "parse") => {
				let ty = m.ty(e["ty"].as_str().unwrap());
				let t = bytes(&e["t"]);
				let accepts = with_ty!(ty, T => T::ref_bytes(0, &t).is_ok());
				matches!(&got, Ok(g) if g[0] == json!(accepts as u8) && g[1] == want[1]) || accepts != m.well(ty, &t) && got.is_err()
			}
			("C03", "valid") => {
				let ty = m.ty(e["ty"].as_str().unwrap());
				let t = bytes(&e["t"]);
				let accepts = with_ty!(ty, T => T::ref_bytes(0, &t).is_ok());
				matches!(&got, Ok(g) if *g == json!(accepts as u8))
			}
			_ => false,
		};
		if j && !off {
			let got = match got {
				Ok(v) => v.to_string(),
				Err(m) => m,
			};
			return Some(format!("event {}: {} gives {}, specification {}", k + 1, strip(e), got, want));
		}
		o.abandoned += 1;
		return None;
	}
	None
}
fn strip(e: &Value) -> String {
	let mut e = e.clone();
	if let Some(o) = e.as_object_mut() {
		o.remove("r");
		o.remove("any");
		for k in ["t"] {
			if let Some(v) = o.get(k).cloned() {
				o.insert(k.into(), Value::String(show(&bytes(&v))));
			}
		}
	}
	e.to_string()
}

// ---------------------------------------------------------------- recording
/// Which events a recorded history of the property is made of.
fn mix(prop: &str) -> Vec<&'static str> {
	match prop {
		"C01" | "C02" => vec!["parse", "parse", "parse", "valid"],
		"C03" => vec!["parse", "parse", "parse", "valid", "unchecked"],
		"C04" => vec!["parse", "kind", "asgf", "part", "typed"],
		"C05" | "C06" => vec!["parse", "part", "part", "part", "items"],
		"C07" | "C10" => vec!["parse", "part", "part", "iter", "next", "next", "items", "nth", "rest"],
		"C08" => vec!["parse", "part", "iter", "next", "back", "next", "back", "items", "nth", "nthback", "rest"],
		"C09" => vec!["parse", "part", "extget", "extiter", "iter", "next", "next", "items", "nth", "rest"],
		"C11" => vec!["parse", "recase", "eq", "eqtext", "eqtext", "conv", "part"],
		"C12" => vec!["parse", "recase", "cmp", "cmp", "cmptext", "conv", "part", "sort"],
		"C13" => vec!["parse", "recase", "hash", "hash", "col", "ins", "ins", "has", "get", "del", "all", "len", "conv", "part"],
		"C14" => vec!["parse", "unchecked", "conv", "conv", "conv", "eq", "part"],
		"C15" => vec!["parse", "ser", "de", "de"],
		"C16" => vec!["gf", "gf", "gfinfo", "parse", "asgf", "typed"],
		"C17" => vec!["single", "scmp", "seqb", "sext", "shash"],
		_ => vec![
			"parse", "parse", "recase", "part", "part", "kind", "asgf", "iter", "next", "next", "back", "items", "extget", "extiter", "eq",
			"eqtext", "cmp", "cmptext", "hash", "conv", "conv", "col", "ins", "has", "get", "del", "all", "len", "ser", "de", "gf", "single",
			"valid", "unchecked", "scmp", "seqb", "sext", "shash", "typed", "nth", "nthback", "rest", "sort",
		],
	}
}
const OPEN: &[&str] = &["new_str", "from_str", "try_from_str", "parse", "buf_new_string", "buf_from_string", "buf_try_string"];
const OPEN_B: &[&str] = &["new_bytes", "from_bytes", "try_from_bytes", "buf_new_vec", "buf_from_bytes", "buf_try_vec"];

fn parts_of(ty: &str) -> &'static [&'static str] {
	match ty {
		"LangTag" => &["language", "script", "region", "variants", "extensions", "private_use", "as_normal", "as_private_use"],
		"NormalLangTag" => &["language", "script", "region", "variants", "extensions", "private_use"],
		"Language" => &["primary", "extension"],
		"Variants" => &["first", "last"],
		"Extension" => &["singleton"],
		_ => &[],
	}
}
/// Types whose values the property is about (0 = any).
fn focus(prop: &str, rng: &mut Rng) -> usize {
	match prop {
		"C01" | "C04" | "C16" => 0,
		"C02" => 1 + rng.below(14),
		"C05" | "C06" => *rng.pick(&[0, 1]),
		"C07" => *rng.pick(&[0, 1, LANGUAGE, LANGUAGE, EXTLANG]),
		"C08" => *rng.pick(&[0, 1, VARIANTS, VARIANTS, VARIANTS]),
		"C09" => *rng.pick(&[0, 1, EXTENSIONS, EXTENSIONS, EXTENSION]),
		"C10" => *rng.pick(&[0, 1, PU, PU]),
		_ => rng.below(15),
	}
}
/// Records sessions until `events` events; returns ndjson lines.
pub fn record(m: &Model, prop: &str, seed: u64, events: usize) -> Vec<String> {
	let kinds = mix(prop);
	let mut rng = Rng::new(seed, 4242);
	let pool: Vec<Vec<Vec<u8>>> = (0..N_STR).map(|ty| g::corpus(m, ty, seed, 200).into_iter().filter(|t| t.len() <= 48).collect()).collect();
	let odd = g::odd();
	let mut out: Vec<String> = vec![];
	let hows: Vec<String> = m.conv.iter().filter(|c| c.1 == "ref" || c.1 == "buf").map(|c| c.0.clone()).collect();
	let _ = hows;
	while out.len() < events {
		out.push(json!({"e": "reset"}).to_string());
		let mut s = Session::default();
		let mut tries = 0;
		let mut n = 0;
		while n < 30 && tries < 200 {
			tries += 1;
			let kind = if s.vals.len() < 2 && kinds.contains(&"parse") { "parse" } else { *rng.pick(&kinds) };
			let Some(mut e) = draw(m, prop, kind, &s, &mut rng, &pool, &odd) else { continue };
			if !parser_agrees(m, &e, &s) {
				break; // the parser's affair (C01, C02)
			}
			let j = judged(prop, &e, m, &s);
			let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.exec(m, &e)));
			match got {
				Ok(Ok(v)) => e["r"] = v,
				_ if !j => break,
				Ok(Err(msg)) => e["failed"] = json!(format!("error: {msg}")),
				Err(p) => e["failed"] = json!(panic_text(p)),
			}
			let failed = e.get("failed").is_some();
			if matches!(kind, "parse" | "recase" | "valid") {
				let (ty, t) = (m.ty(e["ty"].as_str().unwrap()), bytes(&e["t"]));
				let accepts = with_ty!(ty, T => T::ref_bytes(0, &t).is_ok());
				let foreign = accepts != m.well(ty, &t);
				if foreign && (!j || prop == "C03" && kind != "valid" && e["r"][0] == json!(accepts as u8) && e["r"][1] == e["t"] || prop == "C03" && kind == "valid" && e["r"] == json!(accepts as u8)) {
					break; // C01, C02
				}
			}
			e["judged"] = json!(j as u8);
			out.push(e.to_string());
			n += 1;
			if failed {
				break;
			}
		}
	}
	out
}
fn draw(m: &Model, prop: &str, kind: &str, s: &Session, rng: &mut Rng, pool: &[Vec<Vec<u8>>], odd: &[Vec<u8>]) -> Option<Value> {
	let nv = s.vals.len();
	let some_text = |rng: &mut Rng, ty: usize| -> Vec<u8> {
		let t = match rng.below(10) {
			0 => rng.pick(&pool[rng.clone().below(15)]).clone(),
			1 if nv > 0 => {
				let t = s.vals[rng.below(nv)].text();
				g::recase(rng, t)
			}
			2 => {
				// near miss
				let mut t = rng.pick(&pool[ty]).clone();
				if !t.is_empty() {
					let i = rng.below(t.len());
					match rng.below(4) {
						0 => t[i] = g::alnum(rng),
						1 => t.insert(i, if rng.chance(1, 2) { b'-' } else { g::alnum(rng) }),
						2 => {
							t.remove(i);
						}
						_ => t.truncate(i),
					}
				}
				t
			}
			_ => rng.pick(&pool[ty]).clone(),
		};
		t
	};
	let handle = |rng: &mut Rng, f: &dyn Fn(&Val) -> bool| -> Option<usize> {
		let v: Vec<usize> = (0..nv).filter(|i| f(&s.vals[*i])).collect();
		if v.is_empty() { None } else { Some(*rng.pick(&v) + 1) }
	};
	let forms = ["str", "ref_str", "bytes", "ref_bytes", "string", "vec"];
	Some(match kind {
		"parse" | "recase" => {
			let ty = if rng.chance(3, 4) { focus(prop, rng) } else { rng.below(15) };
			let (ty, t) = if kind == "recase" {
				let v = handle(rng, &|_| true)?;
				let t = s.vals[v - 1].text();
				(s.vals[v - 1].ty, g::recase(rng, t))
			} else {
				(ty, some_text(rng, ty))
			};
			if rng.chance(1, 12) && kind == "parse" {
				// bytes that are not ASCII
				let mut t = t;
				let o = rng.pick(odd);
				let i = rng.below(t.len() + 1);
				t.splice(i..i, o.iter().copied());
				if checks::lenient(&t).is_some() {
					return None;
				}
				let how = if std::str::from_utf8(&t).is_ok() && rng.chance(1, 2) { *rng.pick(OPEN) } else { *rng.pick(OPEN_B) };
				return Some(json!({"e": "parse", "ty": ALL_TYPES[ty], "how": how, "t": t}));
			}
			let how = if rng.chance(1, 2) { *rng.pick(OPEN) } else { *rng.pick(OPEN_B) };
			json!({"e": "parse", "ty": ALL_TYPES[ty], "how": how, "t": t})
		}
		"valid" => {
			let ty = focus(prop, rng);
			let t = some_text(rng, ty);
			json!({"e": "valid", "ty": ALL_TYPES[ty], "how": *rng.pick(&["str", "bytes"]), "t": t})
		}
		"unchecked" => {
			let ty = focus(prop, rng);
			let t = some_text(rng, ty);
			if !m.well(ty, &t) || with_ty!(ty, T => T::ref_bytes(0, &t).is_err()) {
				return None;
			}
			let how = *rng.pick(&[UNCHECKED[0], UNCHECKED[1], BUF_UNCHECKED[0], BUF_UNCHECKED[1]]);
			json!({"e": "parse", "ty": ALL_TYPES[ty], "how": how, "t": t})
		}
		"de" => {
			let ty = rng.below(15);
			json!({"e": "de", "ty": ALL_TYPES[ty], "how": *rng.pick(&["de_ref", "de_buf"]), "t": some_text(rng, ty)})
		}
		"ser" => json!({"e": "ser", "v": handle(rng, &|_| true)?}),
		"part" => {
			let v = handle(rng, &|v| !parts_of(ALL_TYPES[v.ty]).is_empty())?;
			json!({"e": "part", "v": v, "name": *rng.pick(parts_of(ALL_TYPES[s.vals[v - 1].ty]))})
		}
		"kind" | "asgf" => json!({"e": kind, "v": handle(rng, &|v| v.ty == 0)?}),
		"items" | "iter" => {
			json!({"e": kind, "v": handle(rng, &|v| matches!(ALL_TYPES[v.ty], "LangTag" | "NormalLangTag" | "PrivateUse" | "Language" | "LanguageExtension" | "Variants" | "Extensions" | "Extension"))?})
		}
		"extget" | "extiter" => {
			let v = handle(rng, &|v| v.ty == EXTENSIONS)?;
			let t = s.vals[v - 1].text();
			let b = if !t.is_empty() && rng.chance(2, 3) {
				let b = *rng.pick(t);
				if b.is_ascii_alphabetic() && rng.chance(1, 2) { b ^ 0x20 } else { b }
			} else {
				g::alnum(rng)
			};
			if !m.single[b as usize] || Singleton::new(b).is_err() {
				return None;
			}
			json!({"e": kind, "v": v, "b": b})
		}
		"next" | "back" => {
			let v: Vec<usize> = (0..s.its.len()).filter(|i| kind == "next" || matches!(s.its[*i], It::Var(_))).collect();
			if v.is_empty() {
				return None;
			}
			json!({"e": kind, "i": *rng.pick(&v) + 1})
		}
		"nth" | "nthback" => {
			let v: Vec<usize> = (0..s.its.len()).filter(|i| kind == "nth" || matches!(s.its[*i], It::Var(_))).collect();
			if v.is_empty() {
				return None;
			}
			json!({"e": kind, "i": *rng.pick(&v) + 1, "k": rng.below(4)})
		}
		"rest" => {
			if s.its.is_empty() || rng.chance(1, 2) {
				return None;
			}
			let i = rng.below(s.its.len());
			let how: &[&str] = if matches!(s.its[i], It::Var(_)) { &["collect", "fold", "count", "last", "rev", "rfold"] } else { &["collect", "fold", "count", "last"] };
			json!({"e": kind, "i": i + 1, "how": *rng.pick(how)})
		}
		"typed" => match handle(rng, &|v| v.ty == NORMAL || v.ty == PU) {
			Some(v) if rng.chance(2, 3) => json!({"e": kind, "form": if s.vals[v - 1].ty == PU { "p" } else { "n" }, "v": v}),
			_ => json!({"e": kind, "form": "g", "i": rng.below(m.gf.len()) + 1}),
		},
		"sort" => {
			let a = handle(rng, &|_| true)?;
			let of: Vec<usize> = (0..nv).filter(|i| s.vals[*i].ty == s.vals[a - 1].ty).map(|i| i + 1).collect();
			let vs: Vec<usize> = (0..2 + rng.below(6)).map(|_| *rng.pick(&of)).collect();
			json!({"e": kind, "vs": vs, "how": *rng.pick(&["cmp", "partial", "lt", "key", "unstable"])})
		}
		"shash" => {
			let mut t = vec![];
			for _ in 0..1 + rng.below(3) {
				let b = *rng.pick(b"aAbB0zZ");
				if Singleton::new(b).is_ok() {
					t.push(b)
				}
			}
			if t.is_empty() {
				return None;
			}
			json!({"e": kind, "t": t, "h": *rng.pick(&["sip", "fnv", "calls"]), "how": if t.len() == 1 && rng.chance(1, 2) { "one" } else { "list" }})
		}
		"eq" | "cmp" => {
			let a = handle(rng, &|_| true)?;
			let ty = s.vals[a - 1].ty;
			json!({"e": kind, "a": a, "b": handle(rng, &|v| v.ty == ty)?})
		}
		"eqtext" | "cmptext" => {
			let v = handle(rng, &|_| true)?;
			let t = if rng.chance(1, 2) {
				let t = s.vals[v - 1].text();
				g::recase(rng, t)
			} else {
				some_text(rng, s.vals[v - 1].ty)
			};
			let mut e = json!({"e": kind, "v": v, "form": *rng.pick(&forms), "t": t});
			if kind == "eqtext" {
				e["rev"] = json!(rng.below(2));
			}
			e
		}
		"hash" => json!({"e": "hash", "v": handle(rng, &|_| true)?, "h": *rng.pick(&["sip", "fnv", "calls"])}),
		"conv" => {
			let v = handle(rng, &|_| true)?;
			let form = if s.vals[v - 1].buf { "buf" } else { "ref" };
			let ops: Vec<&String> = m.conv.iter().filter(|c| c.1 == form).map(|c| &c.0).collect();
			json!({"e": "conv", "v": v, "op": rng.pick(&ops)})
		}
		"col" => {
			if s.cols.len() >= 3 {
				return None;
			}
			let v = handle(rng, &|_| true)?;
			json!({"e": "col", "kind": *rng.pick(&["hset", "bset", "hmap", "bmap"]), "ty": ALL_TYPES[s.vals[v - 1].ty]})
		}
		"ins" | "has" | "get" | "del" => {
			if s.cols.is_empty() {
				return None;
			}
			let c = rng.below(s.cols.len());
			let ty = s.cols[c].ty;
			let v = handle(rng, &|v| v.ty == ty)?;
			let mut e = json!({"e": kind, "c": c + 1, "v": v});
			if kind == "ins" {
				e["x"] = json!(if s.cols[c].kind.ends_with("map") { 1 + rng.below(5) } else { 0 });
			}
			e
		}
		"len" | "all" => {
			if s.cols.is_empty() {
				return None;
			}
			json!({"e": kind, "c": rng.below(s.cols.len()) + 1})
		}
		"gf" => {
			let i = rng.below(m.gf.len());
			let mut t = g::recase(rng, &m.gf[i].0);
			if rng.chance(1, 3) {
				let i = rng.below(t.len());
				t[i] = g::alnum(rng);
			}
			json!({"e": "gf", "t": t})
		}
		"gfinfo" => json!({"e": "gfinfo", "i": rng.below(m.gf.len()) + 1}),
		"single" => json!({"e": "single", "how": *rng.pick(&["byte", "char", "str", "from_str"]), "t": [rng.below(128)]}),
		"scmp" | "seqb" | "sext" => {
			let mut pick = |any: bool| loop {
				let b = g::alnum(rng);
				if any || (m.single[b as usize] && Singleton::new(b).is_ok()) {
					return b;
				}
			};
			let a = pick(false);
			if kind == "sext" {
				let b = if a.is_ascii_alphabetic() && rng.chance(1, 3) { a ^ 0x20 } else { g::alnum(rng) };
				if !m.single[b as usize] || Singleton::new(b).is_err() {
					return None;
				}
				json!({"e": "sext", "a": a, "b": b, "op": *rng.pick(&["max", "min"])})
			} else if kind == "scmp" {
				json!({"e": "scmp", "a": a, "b": pick(false)})
			} else {
				let b = if rng.chance(1, 2) { a ^ if a.is_ascii_alphabetic() { 0x20 } else { 0 } } else { g::alnum(rng) };
				json!({"e": "seqb", "a": a, "b": b, "form": *rng.pick(&["byte", "char"])})
			}
		}
		k => panic!("{k}"),
	})
}
