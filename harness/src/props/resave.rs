//! C39: what was read can be saved, and then reads the same.

use super::generic::{Kd, canon_key, kind_of};
use super::roundtrip;
use crate::engine::{Case, Property, R, Suite, fail, guard};
use crate::fmt;
use crate::inputs;
use crate::lg::{self, NTag};
use crate::rd;
use crate::util::Mem;
use lofty::config::{ParseOptions, ParsingMode, WriteOptions};
use lofty::file::{AudioFile, TaggedFileExt};
use lofty::id3::v2::{Frame, FrameId};
use lofty::mp4::AtomData;
use lofty::picture::Picture;
use lofty::tag::Tag;
use std::io::Cursor;

macro_rules! suite {
	($name:literal, $q:expr, $t:expr, $f:expr) => {
		Suite { name: $name, quick: $q, thorough: $t, run: $f }
	};
}

fn options(c: &mut Case) -> ParseOptions {
	let s = &mut c.src;
	let m = *s.pick(&[ParsingMode::BestAttempt, ParsingMode::BestAttempt, ParsingMode::Strict, ParsingMode::Relaxed]);
	ParseOptions::new().parsing_mode(m).implicit_conversions(s.bool())
}

/// The frame without embedded frames that are dropped, like they are outside of chapters.
fn cleaned<'a>(f: &Frame<'a>) -> Option<Frame<'a>> {
	let keep = |f: &mut Frame<'a>| match cleaned(f) {
		Some(n) => {
			*f = n;
			true
		},
		None => false,
	};
	if !matches!(f.id(), FrameId::Valid(_)) {
		return None;
	}
	let mut f = f.clone();
	match &mut f {
		Frame::Url(u) if u.url().is_empty() => return None,
		Frame::Binary(b) if b.data.is_empty() => return None,
		Frame::Chapter(c) => c.children.retain_mut(keep),
		Frame::TableOfContents(c) => c.children.retain_mut(keep),
		_ => {},
	}
	Some(f)
}

/// A picture block has no way to tell an empty description from none.
fn pic(p: &Picture) -> String {
	lg::c_pic(p).replace("Some(\"\"),", "None,")
}

/// What a tag says. How a frame was stored (compressed, unsynchronised, its data length) is not part of it, and neither
/// are ID3v2.2/2.3 frames without a successor, which are documented to be dropped, and empty comments.
fn canon(t: &NTag) -> Vec<String> {
	match t {
		NTag::Id3v2(t) => t
			.into_iter()
			.filter_map(|f| cleaned(f))
			.map(|f| {
				let fl = f.flags();
				format!("{} group {:?} encryption {:?} {:?}", crate::fmt::id3::af_of(&f).brief(), fl.grouping_identity, fl.encryption, (fl.read_only, fl.tag_alter_preservation, fl.file_alter_preservation))
			})
			.collect(),
		NTag::Vorbis(v) => {
			use lofty::ogg::OggPictureStorage;
			let mut x: Vec<String> = v.items().filter(|(_, x)| !x.is_empty()).map(|(k, x)| format!("{k}={x}")).collect();
			x.extend(v.pictures().iter().map(|(p, i)| format!("{} {i:?}", pic(p))));
			x
		},
		// an ID3v1.1 tag is written, which has room for 28 bytes
		NTag::Id3v1(t) => {
			let mut t = t.clone();
			t.comment = t.comment.map(|c| c.chars().take(28).collect::<String>());
			NTag::Id3v1(t).canon()
		},
		NTag::Riff(t) => t.into_iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| format!("{k}={v}")).collect(),
		NTag::Ilst(t) => {
			let mut t = t.clone();
			t.retain(|a| !a.data().all(|d| matches!(d, AtomData::UTF8(x) | AtomData::UTF16(x) if x.is_empty())));
			lg::c_ilst(&t)
		},
		t => t.canon(),
	}
}

/// The items of a generic tag in any order, but for empty ones; from a damaged file only those of keys with free texts.
fn items(t: &Tag, intact: bool) -> Vec<String> {
	let ty = t.tag_type();
	let mut v: Vec<String> = t
		.items()
		.filter(|i| i.value().text().or(i.value().locator()).is_none_or(|t| !t.is_empty()))
		.filter(|i| intact || matches!(kind_of(ty, canon_key(ty, i.key())), Kd::Multi | Kd::Genre | Kd::Url | Kd::Langs))
		.map(lg::c_item)
		.collect();
	v.extend(t.pictures().iter().map(pic));
	v.sort();
	v
}

fn native(c: &mut Case) -> R {
	let k = *c.src.pick(&fmt::ALL_KINDS);
	let i = inputs::any_of(&mut c.src, k);
	let o = options(c);
	let Ok(n) = guard(|| rd::read_native(i.kind, &mut Cursor::new(&i.data), o, false))? else {
		c.class("unreadable");
		return Ok(());
	};
	for t in &n.tags {
		let ty = t.ty();
		if t.is_empty() || canon(t).is_empty() || !lg::writable(i.kind).contains(&ty) {
			continue;
		}
		let fresh = fmt::gen_plain(&mut c.src, i.kind);
		c.note(|| format!("{} {}: {:?} read with {o:?} saved into a fresh file: {}", i.kind.name(), i.what, ty, t.describe()));
		let name = format!("{:?} of {}", ty, i.kind.name());
		let mut f = Mem::new(fresh);
		match guard(|| t.save(&mut f, WriteOptions::default()))? {
			Ok(()) => {},
			Err(e) => {
				if !i.intact {
					c.class("refused");
					continue;
				}
				return fail(format!("{name}: refused: {}", super::preserve::esig(&rd::chain(&e))), format!("{}", rd::chain(&e)));
			},
		}
		let r = roundtrip::read(i.kind, &f.data, ParseOptions::new().implicit_conversions(false))?;
		let Some(g) = r.get(ty) else {
			return fail(format!("{name}: gone"), "the tag is not found in the saved file");
		};
		roundtrip::same_list(&format!("{name}: differs{}", if i.intact { "" } else { " (damaged)" }), &canon(t), &canon(g))?;
		c.class(if i.intact { "intact" } else { "damaged" });
		c.nontrivial();
	}
	Ok(())
}

fn generic(c: &mut Case) -> R {
	let k = *c.src.pick(&fmt::ALL_KINDS);
	let i = inputs::any_of(&mut c.src, k);
	let mut o = options(c);
	let conv = c.src.bool();
	let o = o.implicit_conversions(conv);
	let load = |d: &[u8], o: ParseOptions| guard(|| rd::read_native(i.kind, &mut Cursor::new(d), o, true));
	let Ok(n) = load(&i.data, o)? else {
		c.class("unreadable");
		return Ok(());
	};
	let f = n.generic.unwrap();
	let name = i.kind.name();
	// what is around a tag in a damaged file may hide it
	let fresh = !i.intact || c.src.bool();
	let data = if fresh { fmt::gen_plain(&mut c.src, i.kind) } else { i.data.clone() };
	c.note(|| format!("{name} {}: read with {o:?} and saved as it is (fresh file: {fresh}): {:?}", i.what, f.tags().iter().map(lg::c_tag).collect::<Vec<_>>()));
	let mut m = Mem::new(data);
	match guard(|| f.save_to(&mut m, WriteOptions::default()))? {
		Ok(()) => {},
		Err(e) => {
			if i.intact {
				return fail(format!("{name}: refused: {}", super::preserve::esig(&rd::chain(&e))), rd::chain(&e));
			}
			c.class("refused");
			return Ok(());
		},
	}
	let g = match load(&m.data, ParseOptions::new().implicit_conversions(conv))? {
		Ok(n) => n.generic.unwrap(),
		Err(e) => return fail(format!("{name}: unreadable: {}", super::preserve::esig(&e)), e),
	};
	for t in f.tags() {
		let want = items(t, i.intact);
		if want.is_empty() || !lg::writable(i.kind).contains(&t.tag_type()) {
			continue;
		}
		let Some(u) = g.tag(t.tag_type()) else {
			return fail(format!("{name}: generic {:?} gone", t.tag_type()), format!("the tag is not found in the saved file: {want:?}"));
		};
		roundtrip::same_list(&format!("{name}: generic {:?} differs", t.tag_type()), &want, &items(u, i.intact))?;
		c.class(if i.intact { "intact" } else { "damaged" });
		c.nontrivial();
	}
	Ok(())
}

pub fn props() -> Vec<Property> {
	vec![Property {
		id: "C39",
		rule: "a non-empty writable tag was read from a well-formed or damaged file, saved, read again and compared",
		assumptions: &[
			"saving what was read from a damaged file may be refused; frames without a successor in ID3v2.4, frames, values and atoms without content, and how a frame was stored are not compared",
			"of what a generic tag says about a damaged file, only free texts, genres, links and pictures are compared (C19 and C20 decide the rest on well-formed tags)",
		],
		suites: vec![suite!("native", 150_000, 4_000_000, native), suite!("generic", 150_000, 4_000_000, generic)],
	}]
}
