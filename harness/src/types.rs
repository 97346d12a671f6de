//! The public types of the crate, behind one trait each for borrowed and owned.
use langtag::*;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};

pub const ALL_TYPES: &[&str] = &[
	"LangTag",
	"NormalLangTag",
	"PrivateUse",
	"Language",
	"PrimaryLanguage",
	"LanguageExtension",
	"ExtendedLangTag",
	"Script",
	"Region",
	"Variant",
	"Variants",
	"Extension",
	"Extensions",
	"ExtensionSubtag",
	"PrivateUseSubtag",
	"Grandfathered",
	"Singleton",
];
/// The first N_STR of them are string types.
pub const N_STR: usize = 15;

pub type TextRes<'a, T> = Result<&'a T, &'a [u8]>;

/// A way of making a comparison between two values.
pub type EqSink<'s> = &'s mut dyn FnMut(&'static str, bool);
/// label, result of comparing the left value (a) with the right one (b)
pub type CmpSink<'s> = &'s mut dyn FnMut(&'static str, Option<Ordering>);

/// Borrowed constructors from bytes.
pub const REF_BYTES: &[&str] = &["from_bytes", "new_bytes", "try_from_bytes"];
pub const UNCHECKED: &[&str] = &["unchecked_bytes", "unchecked_str"];
#[allow(dead_code)]
pub const BUF_UNCHECKED: &[&str] = &["buf_unchecked_string", "buf_unchecked_vec"];
pub const REF_STR: &[&str] = &["from_str", "new_str", "try_from_str"];
pub const BUF_STRING: &[&str] = &["buf_new_string", "buf_from_string", "buf_try_string"];
pub const BUF_VEC: &[&str] = &["buf_new_vec", "buf_from_bytes", "buf_try_vec"];

pub trait Ty: 'static + Eq + Ord + Hash + Debug + Display {
	const IDX: usize;
	const NAME: &'static str;
	fn ref_bytes<'a>(how: usize, t: &'a [u8]) -> TextRes<'a, Self>;
	fn ref_str<'a>(how: usize, t: &'a str) -> TextRes<'a, Self>;
	fn new_string(t: &String) -> TextRes<'_, Self>;
	/// Only asking, without making a value.
	fn valid_bytes(t: &[u8]) -> bool;
	fn valid_str(t: &str) -> bool;
	/// Without asking; only for texts that are well-formed (and accepted).
	fn unchecked(how: usize, t: &[u8]) -> &Self;
	fn new_vec(t: &Vec<u8>) -> TextRes<'_, Self>;
	fn text(&self) -> &[u8];
	/// Every way of reading the text of a borrowed value.
	fn texts<'a>(&'a self, f: &mut dyn FnMut(&'static str, &'a [u8]));
	/// Every borrowed-against-borrowed equality.
	fn eq_ref(&self, o: &Self, f: EqSink);
	fn cmp_ref(&self, o: &Self, f: CmpSink);
	/// Against texts, both directions.  The text need not be well-formed.
	fn eq_text(&self, t: &[u8], f: EqSink);
	fn eq_text_rev(&self, t: &[u8], f: EqSink);
	fn cmp_text(&self, t: &[u8], f: CmpSink);
	/// results are those of comparing the *text* with self
	fn cmp_text_rev(&self, t: &[u8], f: CmpSink);
}

#[cfg(feature = "std")]
pub trait OwnTy: Ty {
	type Buf: 'static + Clone + Eq + Ord + Hash + Debug + Display + Borrow<Self>;
	fn own(&self) -> Self::Buf;
	fn buf_string(how: usize, t: String) -> Result<Self::Buf, Vec<u8>>;
	fn buf_vec(how: usize, t: Vec<u8>) -> Result<Self::Buf, Vec<u8>>;
	fn buf_parse(t: &str) -> Result<Self::Buf, Vec<u8>>;
	/// Without asking; only for texts that are well-formed (and accepted).
	fn buf_unchecked(how: usize, t: String) -> Self::Buf;
	fn buf_ref<'a>(how: &str, b: &'a Self::Buf) -> Option<&'a Self>;
	fn buf_bytes<'a>(how: &str, b: &'a Self::Buf) -> Option<&'a [u8]>;
	fn buf_into(how: &str, b: Self::Buf) -> Option<Vec<u8>>;
	fn own_how(&self, how: &str) -> Option<Self::Buf>;
	/// Every equality in which at least one side is owned.
	fn eq_buf(a: &Self, ab: &Self::Buf, b: &Self, bb: &Self::Buf, f: EqSink);
	fn cmp_buf(a: &Self, ab: &Self::Buf, b: &Self, bb: &Self::Buf, f: CmpSink);
	fn buf_eq_text(ab: &Self::Buf, t: &[u8], f: EqSink);
	fn buf_eq_text_rev(ab: &Self::Buf, t: &[u8], f: EqSink);
	fn buf_cmp_text(ab: &Self::Buf, t: &[u8], f: CmpSink);
	fn buf_cmp_text_rev(ab: &Self::Buf, t: &[u8], f: CmpSink);
}

/// Two operands.  The inherent methods exist where the crate implements the
/// comparison; where it does not (the API is smaller) those of Absent apply.
struct P<'a, A: ?Sized, B: ?Sized>(&'a A, &'a B);
#[allow(dead_code)]
trait Absent {
	fn rel(&self, _: &'static str, _: CmpSink) {}
	fn eqs(&self, _: &'static str, _: EqSink) {}
}
impl<A: ?Sized, B: ?Sized> Absent for P<'_, A, B> {}
impl<A: PartialOrd<B> + ?Sized, B: ?Sized> P<'_, A, B> {
	/// lt/le/gt/ge must agree with partial_cmp.
	fn rel(&self, l: &'static str, f: CmpSink) {
		let pc = self.0.partial_cmp(self.1);
		f(l, pc);
		let got = (*self.0 < *self.1, *self.0 <= *self.1, *self.0 > *self.1, *self.0 >= *self.1);
		let want = match pc {
			None => (false, false, false, false),
			Some(Ordering::Less) => (true, true, false, false),
			Some(Ordering::Equal) => (false, true, false, true),
			Some(Ordering::Greater) => (false, false, true, true),
		};
		if got != want {
			panic!("{l}: <, <=, >, >= give {got:?} but partial_cmp gives {pc:?}");
		}
	}
}
impl<A: PartialEq<B> + ?Sized, B: ?Sized> P<'_, A, B> {
	fn eqs(&self, l: &'static str, f: EqSink) {
		let e = *self.0 == *self.1;
		f(l, e);
		let n = *self.0 != *self.1;
		if e == n {
			panic!("{l}: == and != both give {e}");
		}
	}
}
macro_rules! rel {
	($a:expr, $b:expr, $l:literal, $f:ident) => {
		P($a, $b).rel($l, $f)
	};
}
macro_rules! eqs {
	($a:expr, $b:expr, $l:literal, $f:ident) => {
		P($a, $b).eqs($l, $f)
	};
}

macro_rules! ty {
	($T:ident, $B:ident, $as:ident, $idx:literal) => {
		impl Ty for $T {
			const IDX: usize = $idx;
			const NAME: &'static str = ALL_TYPES[$idx];
			#[inline]
			fn ref_bytes<'a>(how: usize, t: &'a [u8]) -> TextRes<'a, Self> {
				match how {
					0 => $T::from_bytes(t).map_err(|e| e.0),
					1 => $T::new(t).map_err(|e| e.0),
					_ => <&'a $T>::try_from(t).map_err(|e| e.0),
				}
			}
			#[inline]
			fn ref_str<'a>(how: usize, t: &'a str) -> TextRes<'a, Self> {
				match how {
					0 => $T::from_str(t).map_err(|e| e.0.as_bytes()),
					1 => $T::new(t).map_err(|e| e.0.as_bytes()),
					_ => <&'a $T>::try_from(t).map_err(|e| e.0.as_bytes()),
				}
			}
			fn valid_bytes(t: &[u8]) -> bool {
				$T::validate_bytes(t)
			}
			fn valid_str(t: &str) -> bool {
				$T::validate_str(t)
			}
			fn unchecked(how: usize, t: &[u8]) -> &Self {
				unsafe {
					match how {
						0 => $T::new_unchecked_from_bytes(t),
						_ => $T::new_unchecked(std::str::from_utf8_unchecked(t)),
					}
				}
			}
			fn new_string(t: &String) -> TextRes<'_, Self> {
				$T::new(t).map_err(|e| e.0.as_bytes())
			}
			fn new_vec(t: &Vec<u8>) -> TextRes<'_, Self> {
				$T::new(t).map_err(|e| &e.0[..])
			}
			#[inline]
			fn text(&self) -> &[u8] {
				self.as_bytes()
			}
			fn texts<'a>(&'a self, f: &mut dyn FnMut(&'static str, &'a [u8])) {
				f("as_str", self.as_str().as_bytes());
				f("as_bytes", self.as_bytes());
				f("as_ref_str", <$T as AsRef<str>>::as_ref(self).as_bytes());
				f("as_ref_bytes", <$T as AsRef<[u8]>>::as_ref(self));
				f("as_ref_self", <$T as AsRef<$T>>::as_ref(self).as_bytes());
				f("borrow_str", <$T as Borrow<str>>::borrow(self).as_bytes());
				f("into_str", <&'a str>::from(self).as_bytes());
				f("into_bytes_ref", <&'a [u8]>::from(self));
			}
			fn eq_ref(&self, o: &Self, f: EqSink) {
				eqs!(self, o, "&T == &T", f);
			}
			fn cmp_ref(&self, o: &Self, f: CmpSink) {
				f("T.cmp(T)", Some(self.cmp(o)));
				rel!(self, o, "T.partial_cmp(T)", f);
			}
			fn eq_text(&self, t: &[u8], f: EqSink) {
				eqs!(self, t, "T == [u8]", f);
				eqs!(self, &t, "T == &[u8]", f);
				if let Ok(s) = std::str::from_utf8(t) {
					eqs!(self, s, "T == str", f);
					eqs!(self, &s, "T == &str", f);
					#[cfg(feature = "std")]
					if crate::core::owned() { eqs!(self, &s.to_owned(), "T == String", f); }
				}
				#[cfg(feature = "std")]
				if crate::core::owned() { eqs!(self, &t.to_vec(), "T == Vec<u8>", f); }
			}
			fn eq_text_rev(&self, t: &[u8], f: EqSink) {
				eqs!(t, self, "[u8] == T", f);
				eqs!(&t, self, "&[u8] == T", f);
				if let Ok(s) = std::str::from_utf8(t) {
					eqs!(s, self, "str == T", f);
					eqs!(&s, self, "&str == T", f);
					#[cfg(feature = "std")]
					if crate::core::owned() { eqs!(&s.to_owned(), self, "String == T", f); }
				}
				#[cfg(feature = "std")]
				if crate::core::owned() { eqs!(&t.to_vec(), self, "Vec<u8> == T", f); }
			}
			fn cmp_text(&self, t: &[u8], f: CmpSink) {
				rel!(self, t, "T.partial_cmp([u8])", f);
				rel!(self, &t, "T.partial_cmp(&[u8])", f);
				if let Ok(s) = std::str::from_utf8(t) {
					rel!(self, s, "T.partial_cmp(str)", f);
					rel!(self, &s, "T.partial_cmp(&str)", f);
					#[cfg(feature = "std")]
					if crate::core::owned() { rel!(self, &s.to_owned(), "T.partial_cmp(String)", f); }
				}
				#[cfg(feature = "std")]
				if crate::core::owned() { rel!(self, &t.to_vec(), "T.partial_cmp(Vec<u8>)", f); }
			}
			fn cmp_text_rev(&self, t: &[u8], f: CmpSink) {
				rel!(t, self, "[u8].partial_cmp(T)", f);
				rel!((&t), self, "&[u8].partial_cmp(T)", f);
				if let Ok(s) = std::str::from_utf8(t) {
					rel!(s, self, "str.partial_cmp(T)", f);
					rel!((&s), self, "&str.partial_cmp(T)", f);
					#[cfg(feature = "std")]
					if crate::core::owned() { rel!((&s.to_owned()), self, "String.partial_cmp(T)", f); }
				}
				#[cfg(feature = "std")]
				if crate::core::owned() { rel!((&t.to_vec()), self, "Vec<u8>.partial_cmp(T)", f); }
			}
		}

		#[cfg(feature = "std")]
		impl OwnTy for $T {
			type Buf = $B;
			fn own(&self) -> $B {
				self.to_owned()
			}
			fn buf_string(how: usize, t: String) -> Result<$B, Vec<u8>> {
				match how {
					0 => $B::new(t).map_err(|e| e.0.into_bytes()),
					1 => $B::from_string(t).map_err(|e| e.0.into_bytes()),
					_ => $B::try_from(t).map_err(|e| e.0.into_bytes()),
				}
			}
			fn buf_vec(how: usize, t: Vec<u8>) -> Result<$B, Vec<u8>> {
				match how {
					0 => $B::new(t).map_err(|e| e.0),
					1 => $B::from_bytes(t).map_err(|e| e.0),
					_ => $B::try_from(t).map_err(|e| e.0),
				}
			}
			fn buf_unchecked(how: usize, t: String) -> $B {
				unsafe {
					match how {
						0 => $B::new_unchecked(t),
						_ => $B::new_unchecked(t.into_bytes()),
					}
				}
			}
			fn buf_parse(t: &str) -> Result<$B, Vec<u8>> {
				t.parse::<$B>().map_err(|e| e.0.into_bytes())
			}
			fn buf_ref<'a>(how: &str, b: &'a $B) -> Option<&'a $T> {
				Some(match how {
					"as_inner" => b.$as(),
					"deref" => &**b,
					"borrow" => <$B as Borrow<$T>>::borrow(b),
					"as_ref" => <$B as AsRef<$T>>::as_ref(b),
					_ => return None,
				})
			}
			fn buf_bytes<'a>(how: &str, b: &'a $B) -> Option<&'a [u8]> {
				Some(match how {
					"buf_as_str" => $B::as_str(b).as_bytes(),
					"buf_as_ref_str" => <$B as AsRef<str>>::as_ref(b).as_bytes(),
					"buf_as_bytes" => $B::as_bytes(b),
					"buf_as_ref_bytes" => <$B as AsRef<[u8]>>::as_ref(b),
					_ => return None,
				})
			}
			fn buf_into(how: &str, b: $B) -> Option<Vec<u8>> {
				Some(match how {
					"into_string" => b.into_string().into_bytes(),
					"string_from" => String::from(b).into_bytes(),
					"into_bytes" => b.into_bytes(),
					"vec_from" => Vec::<u8>::from(b),
					"buf_display" => b.to_string().into_bytes(),
					_ => return None,
				})
			}
			fn own_how(&self, how: &str) -> Option<$B> {
				Some(match how {
					"to_owned" => self.to_owned(),
					"cow" => std::borrow::Cow::Borrowed(self).into_owned(),
					_ => return None,
				})
			}
			fn eq_buf(a: &Self, ab: &$B, b: &Self, bb: &$B, f: EqSink) {
				eqs!(ab, bb, "Buf == Buf", f);
				eqs!(ab, b, "Buf == T", f);
				eqs!(ab, &b, "Buf == &T", f);
				eqs!(a, bb, "T == Buf", f);
				eqs!(&a, bb, "&T == Buf", f);
			}
			fn cmp_buf(a: &Self, ab: &$B, b: &Self, bb: &$B, f: CmpSink) {
				f("Buf.cmp(Buf)", Some(ab.cmp(bb)));
				rel!(ab, bb, "Buf.partial_cmp(Buf)", f);
				rel!(ab, b, "Buf.partial_cmp(T)", f);
				rel!(ab, &b, "Buf.partial_cmp(&T)", f);
				rel!(a, bb, "T.partial_cmp(Buf)", f);
				rel!((&a), bb, "&T.partial_cmp(Buf)", f);
			}
			fn buf_eq_text(ab: &$B, t: &[u8], f: EqSink) {
				eqs!(ab, t, "Buf == [u8]", f);
				eqs!(ab, &t, "Buf == &[u8]", f);
				if let Ok(s) = std::str::from_utf8(t) {
					eqs!(ab, s, "Buf == str", f);
					eqs!(ab, &s, "Buf == &str", f);
					eqs!(ab, &s.to_owned(), "Buf == String", f);
				}
				eqs!(ab, &t.to_vec(), "Buf == Vec<u8>", f);
			}
			fn buf_eq_text_rev(ab: &$B, t: &[u8], f: EqSink) {
				eqs!(t, ab, "[u8] == Buf", f);
				eqs!(&t, ab, "&[u8] == Buf", f);
				if let Ok(s) = std::str::from_utf8(t) {
					eqs!(s, ab, "str == Buf", f);
					eqs!(&s, ab, "&str == Buf", f);
					eqs!(&s.to_owned(), ab, "String == Buf", f);
				}
				eqs!(&t.to_vec(), ab, "Vec<u8> == Buf", f);
			}
			fn buf_cmp_text(ab: &$B, t: &[u8], f: CmpSink) {
				rel!(ab, t, "Buf.partial_cmp([u8])", f);
				rel!(ab, &t, "Buf.partial_cmp(&[u8])", f);
				if let Ok(s) = std::str::from_utf8(t) {
					rel!(ab, s, "Buf.partial_cmp(str)", f);
					rel!(ab, &s, "Buf.partial_cmp(&str)", f);
					rel!(ab, &s.to_owned(), "Buf.partial_cmp(String)", f);
				}
				rel!(ab, &t.to_vec(), "Buf.partial_cmp(Vec<u8>)", f);
			}
			fn buf_cmp_text_rev(ab: &$B, t: &[u8], f: CmpSink) {
				rel!(t, ab, "[u8].partial_cmp(Buf)", f);
				rel!((&t), ab, "&[u8].partial_cmp(Buf)", f);
				if let Ok(s) = std::str::from_utf8(t) {
					rel!(s, ab, "str.partial_cmp(Buf)", f);
					rel!((&s), ab, "&str.partial_cmp(Buf)", f);
					rel!((&s.to_owned()), ab, "String.partial_cmp(Buf)", f);
				}
				rel!((&t.to_vec()), ab, "Vec<u8>.partial_cmp(Buf)", f);
			}
		}
	};
}

ty!(LangTag, LangTagBuf, as_lang_tag, 0);
ty!(NormalLangTag, NormalLangTagBuf, as_normal_lang_tag, 1);
ty!(PrivateUse, PrivateUseBuf, as_private_use, 2);
ty!(Language, LanguageBuf, as_language, 3);
ty!(PrimaryLanguage, PrimaryLanguageBuf, as_primary_language, 4);
ty!(LanguageExtension, LanguageExtensionBuf, as_language_extension, 5);
ty!(ExtendedLangTag, ExtendedLangTagBuf, as_extended_lang_tag, 6);
ty!(Script, ScriptBuf, as_script, 7);
ty!(Region, RegionBuf, as_region, 8);
ty!(Variant, VariantBuf, as_variant, 9);
ty!(Variants, VariantsBuf, as_variants, 10);
ty!(Extension, ExtensionBuf, as_extension, 11);
ty!(Extensions, ExtensionsBuf, as_extensions, 12);
ty!(ExtensionSubtag, ExtensionSubtagBuf, as_extension_subtag, 13);
ty!(PrivateUseSubtag, PrivateUseSubtagBuf, as_private_use_subtag, 14);

/// with_ty!(index, T => expression using T)
#[macro_export]
macro_rules! with_ty {
	($i:expr, $T:ident => $e:expr) => {
		match $i as usize {
			0 => { type $T = langtag::LangTag; $e }
			1 => { type $T = langtag::NormalLangTag; $e }
			2 => { type $T = langtag::PrivateUse; $e }
			3 => { type $T = langtag::Language; $e }
			4 => { type $T = langtag::PrimaryLanguage; $e }
			5 => { type $T = langtag::LanguageExtension; $e }
			6 => { type $T = langtag::ExtendedLangTag; $e }
			7 => { type $T = langtag::Script; $e }
			8 => { type $T = langtag::Region; $e }
			9 => { type $T = langtag::Variant; $e }
			10 => { type $T = langtag::Variants; $e }
			11 => { type $T = langtag::Extension; $e }
			12 => { type $T = langtag::Extensions; $e }
			13 => { type $T = langtag::ExtensionSubtag; $e }
			14 => { type $T = langtag::PrivateUseSubtag; $e }
			x => panic!("no type {x}"),
		}
	};
}

/// A hasher that records every call made to it.
#[derive(Default, Clone, PartialEq, Eq)]
pub struct CallHasher(pub Vec<u8>);
impl Hasher for CallHasher {
	fn finish(&self) -> u64 {
		let mut h = 0xcbf29ce484222325u64;
		for b in &self.0 {
			h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
		}
		h
	}
	fn write(&mut self, b: &[u8]) {
		self.0.push(0xff);
		self.0.extend_from_slice(&(b.len() as u32).to_le_bytes());
		self.0.extend_from_slice(b);
	}
	fn write_u8(&mut self, i: u8) {
		self.0.extend_from_slice(&[1, i]);
	}
	fn write_u16(&mut self, i: u16) {
		self.0.push(2);
		self.0.extend_from_slice(&i.to_le_bytes());
	}
	fn write_u32(&mut self, i: u32) {
		self.0.push(4);
		self.0.extend_from_slice(&i.to_le_bytes());
	}
	fn write_u64(&mut self, i: u64) {
		self.0.push(8);
		self.0.extend_from_slice(&i.to_le_bytes());
	}
	fn write_u128(&mut self, i: u128) {
		self.0.push(16);
		self.0.extend_from_slice(&i.to_le_bytes());
	}
	fn write_usize(&mut self, i: usize) {
		self.0.push(9);
		self.0.extend_from_slice(&i.to_le_bytes());
	}
}
/// FNV-1a over the written bytes.
pub struct Fnv(pub u64);
impl Default for Fnv {
	fn default() -> Self {
		Fnv(0xcbf29ce484222325)
	}
}
impl Hasher for Fnv {
	fn finish(&self) -> u64 {
		self.0
	}
	fn write(&mut self, b: &[u8]) {
		for x in b {
			self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
		}
	}
}
pub fn hash_calls<V: Hash + ?Sized>(v: &V) -> Vec<u8> {
	let mut h = CallHasher::default();
	v.hash(&mut h);
	h.0
}
pub fn hash_sip<V: Hash + ?Sized>(v: &V) -> u64 {
	#[allow(deprecated)]
	let mut h = std::hash::SipHasher::new_with_keys(1, 2);
	v.hash(&mut h);
	h.finish()
}
pub fn hash_fnv<V: Hash + ?Sized>(v: &V) -> u64 {
	let mut h = Fnv::default();
	v.hash(&mut h);
	h.finish()
}
