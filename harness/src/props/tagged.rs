//! C33: file objects as sets of tags.

use super::preserve::esig;
use crate::engine::{Case, Fail, Property, R, Src, Suite, fail, guard};
use crate::ensure;
use crate::fmt::{ALL_KINDS, Kind, gen_plain};
use crate::inputs;
use crate::lg;
use crate::util::Mem;
use lofty::aac::AacFile;
use lofty::ape::{ApeFile, ApeTag};
use lofty::config::{ParseOptions, WriteOptions};
use lofty::error::FileParseError;
use lofty::file::{AudioFile, BoundTaggedFile, FileType, TaggedFile, TaggedFileExt};
use lofty::flac::FlacFile;
use lofty::id3::v1::Id3v1Tag;
use lofty::id3::v2::Id3v2Tag;
use lofty::iff::aiff::{AiffFile, AiffTextChunks};
use lofty::iff::wav::{RiffInfoList, WavFile};
use lofty::mp4::{Ilst, Mp4File};
use lofty::mpeg::MpegFile;
use lofty::musepack::MpcFile;
use lofty::ogg::tag::VorbisComments;
use lofty::ogg::{OpusFile, SpeexFile, VorbisFile};
use lofty::picture::{MimeType, Picture, PictureType};
use lofty::probe::Probe;
use lofty::properties::FileProperties;
use lofty::tag::{Accessor, Tag, TagExt, TagType};
use lofty::wavpack::WavPackFile;
use std::cell::RefCell;
use std::io::{Cursor, Read, Seek, Write};
use std::rc::Rc;

macro_rules! suite {
	($name:literal, $q:expr, $t:expr, $f:expr) => {
		Suite { name: $name, quick: $q, thorough: $t, run: $f }
	};
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sup {
	No,
	Read,
	Write,
}

/// what the documentation says each format supports
fn support(k: Kind, t: TagType) -> Sup {
	use TagType::*;
	match (k, t) {
		(Kind::Aac | Kind::Mp3, Id3v2 | Id3v1) | (Kind::Mp3, Ape) => Sup::Write,
		(Kind::Ape, Ape | Id3v1) | (Kind::WavPack, Ape | Id3v1) | (Kind::Mpc, Ape) => Sup::Write,
		(Kind::Ape, Id3v2) | (Kind::Mpc, Id3v2 | Id3v1) | (Kind::Flac, Id3v2) => Sup::Read,
		(Kind::Aiff, Id3v2 | AiffText) | (Kind::Wav, Id3v2 | RiffInfo) => Sup::Write,
		(Kind::Mp4, Mp4Ilst) => Sup::Write,
		(Kind::Flac | Kind::Opus | Kind::Vorbis | Kind::Speex, VorbisComments) => Sup::Write,
		_ => Sup::No,
	}
}

fn primary(k: Kind) -> TagType {
	match k {
		Kind::Aac | Kind::Mp3 | Kind::Aiff | Kind::Wav => TagType::Id3v2,
		Kind::Ape | Kind::WavPack | Kind::Mpc => TagType::Ape,
		Kind::Mp4 => TagType::Mp4Ilst,
		Kind::Flac | Kind::Opus | Kind::Vorbis | Kind::Speex => TagType::VorbisComments,
	}
}

/// what a tag is told apart by: its title, or the picture it holds
fn title_of(t: &Tag) -> Option<String> {
	if let Some(x) = t.title() {
		return Some(x.into_owned());
	}
	if t.tag_type() == TagType::VorbisComments {
		// (may be those of the file)
		return None;
	}
	t.pictures().first().map(|p| format!("picture {}", String::from_utf8_lossy(p.data().get(16..).unwrap_or_default())))
}

/// a tag which holds a picture and nothing else
fn pictured(ty: TagType, title: &str) -> Tag {
	let mut t = Tag::new(ty);
	let mut d = b"\x89PNG\r\n\x1a\n\0\0\0\rIHDR".to_vec();
	d.extend(title.as_bytes());
	t.push_picture(Picture::unchecked(d).pic_type(PictureType::CoverFront).mime_type(MimeType::Png).build());
	t
}

type Model = Vec<(TagType, Option<String>)>;

fn find(m: &Model, ty: TagType) -> Option<usize> {
	m.iter().position(|(t, _)| *t == ty)
}

fn listed<T: TaggedFileExt>(f: &T) -> Model {
	f.tags().iter().map(|t| (t.tag_type(), title_of(t))).collect()
}

fn titled(ty: TagType, title: Option<&str>) -> Tag {
	let mut t = Tag::new(ty);
	if let Some(x) = title {
		t.set_title(x.to_string());
	}
	t
}

/// everything the object says about its tags agrees with the model
fn agree<T: TaggedFileExt + AudioFile>(f: &T, k: Kind, m: &Model, when: &str) -> R {
	let ls = listed(f);
	ensure!(ls == *m, format!("tags after {when}"), "{ls:?} expected {m:?}");
	ensure!(f.file_type() == k.file_type(), format!("file type after {when}"), "{:?}", f.file_type());
	ensure!(f.contains_tag() == !m.is_empty(), format!("contains_tag after {when}"), "{} with {m:?}", f.contains_tag());
	ensure!(f.primary_tag_type() == primary(k), format!("primary tag type of {}", k.name()), "{:?}", f.primary_tag_type());
	for ty in lg::ALL_TYPES {
		let want = find(m, ty).map(|i| m[i].1.clone());
		let got = f.tag(ty).map(title_of);
		ensure!(got == want, format!("tag() after {when}"), "{ty:?}: {got:?} expected {want:?}");
		ensure!(f.contains_tag_type(ty) == want.is_some(), format!("contains_tag_type() after {when}"), "{ty:?} with {m:?}");
		let s = f.tag_support(ty);
		let w = support(k, ty);
		ensure!(
			s.is_readable() == (w != Sup::No) && s.is_writable() == (w == Sup::Write),
			format!("tag support of {}", k.name()),
			"{ty:?}: {s:?} expected {w:?}"
		);
	}
	let p = f.primary_tag().map(title_of);
	let want = find(m, primary(k)).map(|i| m[i].1.clone());
	ensure!(p == want, format!("primary_tag() after {when}"), "{p:?} expected {want:?}");
	let p = f.first_tag().map(|t| (t.tag_type(), title_of(t)));
	ensure!(p == m.first().cloned(), format!("first_tag() after {when}"), "{p:?} expected {:?}", m.first());
	Ok(())
}

/// one edit, done to the object and the model
fn edit<T: TaggedFileExt + AudioFile>(s: &mut Src, f: &mut T, k: Kind, m: &mut Model, serial: &mut u32) -> Result<String, crate::engine::Fail> {
	*serial += 1;
	let title = format!("t{serial}");
	let ty = if s.chance(1, 4) { primary(k) } else { *s.pick(&lg::ALL_TYPES) };
	Ok(match s.below(12) {
		0..=3 => {
			let (tag, x) = if matches!(ty, TagType::Id3v2 | TagType::Ape | TagType::Mp4Ilst) && s.chance(1, 4) {
				(pictured(ty, &title), Some(format!("picture {title}")))
			} else {
				let x = (!s.chance(1, 6)).then_some(title);
				(titled(ty, x.as_deref()), x)
			};
			let got = f.insert_tag(tag).map(|t| (t.tag_type(), title_of(&t)));
			let mut want = None;
			if support(k, ty) != Sup::No {
				want = find(m, ty).map(|i| m.remove(i));
				m.push((ty, x.clone()));
			}
			ensure!(got == want, "insert_tag returns the wrong tag", "{ty:?}: {got:?} expected {want:?}");
			format!("insert {ty:?} {x:?}")
		},
		4..=5 => {
			let got = f.remove(ty).map(|t| (t.tag_type(), title_of(&t)));
			let want = find(m, ty).map(|i| m.remove(i));
			ensure!(got == want, "remove returns the wrong tag", "{ty:?}: {got:?} expected {want:?}");
			format!("remove {ty:?}")
		},
		6..=7 => {
			let i = find(m, ty);
			ensure!(f.tag_mut(ty).is_some() == i.is_some(), "tag_mut presence", "{ty:?} with {m:?}");
			if let (Some(t), Some(i)) = (f.tag_mut(ty), i) {
				t.set_title(title.clone());
				m[i].1 = Some(title.clone());
			}
			format!("retitle {ty:?} {title}")
		},
		8 => {
			let i = find(m, primary(k));
			ensure!(f.primary_tag_mut().is_some() == i.is_some(), "primary_tag_mut presence", "{m:?}");
			if let (Some(t), Some(i)) = (f.primary_tag_mut(), i) {
				t.set_title(title.clone());
				m[i].1 = Some(title.clone());
			}
			format!("retitle primary {title}")
		},
		9 => {
			ensure!(f.first_tag_mut().is_some() == !m.is_empty(), "first_tag_mut presence", "{m:?}");
			if let Some(t) = f.first_tag_mut() {
				t.set_title(title.clone());
				m[0].1 = Some(title.clone());
			}
			format!("retitle first {title}")
		},
		10 => {
			// emptied
			if let (Some(t), Some(i)) = (f.tag_mut(ty), find(m, ty)) {
				let ty = t.tag_type();
				*t = Tag::new(ty);
				m[i].1 = None;
			}
			format!("empty {ty:?}")
		},
		_ => {
			if s.chance(1, 3) {
				f.clear();
				m.clear();
				"clear".into()
			} else {
				let n = f.tags().len();
				ensure!(n == m.len(), "tags().len()", "{n} expected {}", m.len());
				"count".into()
			}
		},
	})
}

fn read(k: Kind, d: &[u8]) -> Result<Result<TaggedFile, String>, crate::engine::Fail> {
	guard(|| Probe::with_file_type(Cursor::new(d), k.file_type()).options(ParseOptions::new()).read().map_err(|e| e.to_string()))
}

fn on_disk(f: &TaggedFile, ty: TagType) -> Option<String> {
	f.tag(ty).and_then(title_of)
}

fn c33_memory(c: &mut Case) -> R {
	let s = &mut c.src;
	let mut k = *s.pick(&ALL_KINDS);
	let mut f = TaggedFile::new(k.file_type(), FileProperties::default(), vec![]);
	let mut m: Model = vec![];
	let mut serial = 0;
	let mut log = vec![];
	let n = s.usize(3, 14);
	for _ in 0..n {
		let what = if s.chance(1, 8) {
			k = *s.pick(&ALL_KINDS);
			f.change_file_type(k.file_type());
			m.retain(|(t, _)| support(k, *t) != Sup::No);
			let p = f.properties();
			ensure!(*p == FileProperties::default(), "properties kept by change_file_type", "{p:?}");
			format!("change to {}", k.name())
		} else {
			match edit(s, &mut f, k, &mut m, &mut serial) {
				Ok(w) => w,
				Err(mut e) => {
					e.msg = format!("{} | after {}", e.msg, log.join(", "));
					return Err(e);
				},
			}
		};
		let kind = what.split(' ').next().unwrap().to_string();
		log.push(what);
		if let Err(mut e) = agree(&f, k, &m, &kind) {
			e.msg = format!("{} | after {}", e.msg, log.join(", "));
			return Err(e);
		}
	}
	let l = log.join(", ");
	c.note(|| l);
	c.class("memory");
	if m.len() > 1 {
		c.nontrivial();
	}
	Ok(())
}

/// A file that can be looked at while something else holds it
#[derive(Clone)]
struct Shared(Rc<RefCell<Mem>>);

impl Read for Shared {
	fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
		self.0.borrow_mut().read(b)
	}
}

impl Write for Shared {
	fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
		self.0.borrow_mut().write(b)
	}
	fn flush(&mut self) -> std::io::Result<()> {
		self.0.borrow_mut().flush()
	}
}

impl Seek for Shared {
	fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
		self.0.borrow_mut().seek(p)
	}
}

impl lofty::io::Truncate for Shared {
	fn truncate(&mut self, n: u64) -> std::io::Result<()> {
		self.0.borrow_mut().truncate(n)
	}
}

impl lofty::io::Length for Shared {
	fn len(&self) -> std::io::Result<u64> {
		lofty::io::Length::len(&*self.0.borrow())
	}
}

enum Obj {
	Plain(TaggedFile),
	Bound(BoundTaggedFile<Shared>),
}

/// a file read, edited and saved, by `TaggedFile` or `BoundTaggedFile`
fn saved(c: &mut Case, bound: bool) -> R {
	let s = &mut c.src;
	let k = *s.pick(&ALL_KINDS);
	let name = k.name();
	let untagged = s.chance(1, 3);
	let data = if untagged { gen_plain(s, k) } else { inputs::tagged(s, k) };
	let Ok(first) = read(k, &data)? else { return Ok(()) };
	let mut disk: Vec<_> = lg::ALL_TYPES.iter().map(|t| (*t, on_disk(&first, *t))).collect();
	let mut m = listed(&first);
	let mut serial = 0;
	let mut log = vec![format!("{name} of {} bytes with {m:?}", data.len())];
	let mut file = Shared(Rc::new(RefCell::new(Mem::new(data))));
	let mut obj = if bound {
		match guard(|| BoundTaggedFile::read_from(file.clone(), ParseOptions::new()))? {
			Ok(b) if b.file_type() == k.file_type() => Obj::Bound(b),
			// (recognised as something else, or not at all)
			_ => return Ok(()),
		}
	} else {
		Obj::Plain(first)
	};
	let agree = |o: &Obj, m: &Model, when: &str| match o {
		Obj::Plain(f) => agree(f, k, m, when),
		Obj::Bound(f) => agree(f, k, m, when),
	};
	let mut saves = 0;
	let r = (|| -> R {
		agree(&obj, &m, "reading")?;
		for _ in 0..s.usize(1, 3) {
			for _ in 0..s.usize(1, 5) {
				let what = match &mut obj {
					Obj::Plain(f) => edit(s, f, k, &mut m, &mut serial)?,
					Obj::Bound(f) => edit(s, f, k, &mut m, &mut serial)?,
				};
				let kind = what.split(' ').next().unwrap().to_string();
				log.push(what);
				agree(&obj, &m, &kind)?;
			}
			log.push("save".into());
			let res = match &mut obj {
				Obj::Plain(f) => {
					file.0.borrow_mut().pos = 0;
					guard(|| f.save_to(&mut file, WriteOptions::new()))?
				},
				Obj::Bound(f) => guard(|| f.save(WriteOptions::new()))?,
			};
			if let Err(e) = res {
				let e = e.to_string();
				// what was in the file may be something that cannot be written
				if untagged && k != Kind::Mpc {
					return fail(format!("{name}: cannot be saved: {}", esig(&e)), e);
				}
				return Ok(());
			}
			saves += 1;
			for (ty, on) in &mut disk {
				if let (Sup::Write, Some(i)) = (support(k, *ty), find(&m, *ty)) {
					on.clone_from(&m[i].1);
				}
			}
			if let Obj::Bound(b) = &obj {
				// an object bound to its file no longer has tags that are not there
				let empty: Vec<_> = b.tags().iter().filter(|t| t.is_empty()).map(Tag::tag_type).collect();
				ensure!(empty.is_empty(), format!("{name}: empty tags kept after saving"), "{empty:?}");
				m.retain(|(t, x)| x.is_some() || b.contains_tag_type(*t));
			}
			agree(&obj, &m, "saving")?;
			let now = file.0.borrow().data.clone();
			let again = match read(k, &now)? {
				Ok(f) => f,
				Err(e) => return fail(format!("{name}: unreadable after saving: {}", esig(&e)), e),
			};
			for (ty, want) in &disk {
				let got = on_disk(&again, *ty);
				ensure!(got == *want, format!("{name}: {ty:?} in the file after saving"), "{got:?} expected {want:?}");
			}
		}
		Ok(())
	})();
	let l = log.join(", ");
	c.note(|| l.clone());
	c.class(name);
	if saves > 0 && serial > 1 {
		c.nontrivial();
	}
	r.map_err(|mut e| {
		e.msg = format!("{} | {l}", e.msg);
		e
	})
}

// ---- the formats' own file types

trait Slots: AudioFile + Sized {
	const KIND: Kind;
	/// the tags that are always there
	const FIXED: bool = false;
	fn title(&self, ty: TagType) -> Option<Option<String>>;
	fn set(&mut self, ty: TagType, title: Option<&str>) -> Option<Option<String>>;
	fn edit(&mut self, ty: TagType, title: &str) -> bool;
	fn remove(&mut self, ty: TagType) -> Option<Option<String>>;
}

fn make<T: Accessor + Default>(title: Option<&str>) -> T {
	let mut t = T::default();
	if let Some(x) = title {
		t.set_title(x.to_string());
	}
	t
}

fn t_of<T: Accessor>(t: &T) -> Option<String> {
	t.title().map(|t| t.into_owned())
}

macro_rules! slots {
	($file:ty, $kind:expr, $(($ty:ident, $tag:ty, $get:ident, $mutate:ident, $set:ident, $remove:ident)),*) => {
		impl Slots for $file {
			const KIND: Kind = $kind;
			fn title(&self, ty: TagType) -> Option<Option<String>> {
				match ty {
					$(TagType::$ty => self.$get().map(t_of),)*
					_ => None,
				}
			}
			fn set(&mut self, ty: TagType, title: Option<&str>) -> Option<Option<String>> {
				match ty {
					$(TagType::$ty => self.$set(make::<$tag>(title)).as_ref().map(t_of),)*
					_ => None,
				}
			}
			fn edit(&mut self, ty: TagType, title: &str) -> bool {
				match ty {
					$(TagType::$ty => match self.$mutate() {
						Some(t) => {
							t.set_title(title.to_string());
							true
						},
						None => false,
					},)*
					_ => false,
				}
			}
			fn remove(&mut self, ty: TagType) -> Option<Option<String>> {
				match ty {
					$(TagType::$ty => self.$remove().as_ref().map(t_of),)*
					_ => None,
				}
			}
		}
	};
}

macro_rules! ogg_slots {
	($file:ty, $kind:expr) => {
		impl Slots for $file {
			const KIND: Kind = $kind;
			const FIXED: bool = true;
			fn title(&self, ty: TagType) -> Option<Option<String>> {
				(ty == TagType::VorbisComments).then(|| t_of(self.vorbis_comments()))
			}
			fn set(&mut self, ty: TagType, title: Option<&str>) -> Option<Option<String>> {
				(ty == TagType::VorbisComments).then(|| self.set_vorbis_comments(make::<VorbisComments>(title)).as_ref().map(t_of)).flatten()
			}
			fn edit(&mut self, ty: TagType, title: &str) -> bool {
				if ty == TagType::VorbisComments {
					self.vorbis_comments_mut().set_title(title.to_string());
				}
				ty == TagType::VorbisComments
			}
			fn remove(&mut self, ty: TagType) -> Option<Option<String>> {
				(ty == TagType::VorbisComments).then(|| t_of(&self.remove_vorbis_comments()))
			}
		}
	};
}

slots!(
	AacFile,
	Kind::Aac,
	(Id3v2, Id3v2Tag, id3v2, id3v2_mut, set_id3v2, remove_id3v2),
	(Id3v1, Id3v1Tag, id3v1, id3v1_mut, set_id3v1, remove_id3v1)
);
slots!(
	MpegFile,
	Kind::Mp3,
	(Id3v2, Id3v2Tag, id3v2, id3v2_mut, set_id3v2, remove_id3v2),
	(Id3v1, Id3v1Tag, id3v1, id3v1_mut, set_id3v1, remove_id3v1),
	(Ape, ApeTag, ape, ape_mut, set_ape, remove_ape)
);
slots!(
	ApeFile,
	Kind::Ape,
	(Id3v2, Id3v2Tag, id3v2, id3v2_mut, set_id3v2, remove_id3v2),
	(Id3v1, Id3v1Tag, id3v1, id3v1_mut, set_id3v1, remove_id3v1),
	(Ape, ApeTag, ape, ape_mut, set_ape, remove_ape)
);
slots!(
	MpcFile,
	Kind::Mpc,
	(Id3v2, Id3v2Tag, id3v2, id3v2_mut, set_id3v2, remove_id3v2),
	(Id3v1, Id3v1Tag, id3v1, id3v1_mut, set_id3v1, remove_id3v1),
	(Ape, ApeTag, ape, ape_mut, set_ape, remove_ape)
);
slots!(
	WavPackFile,
	Kind::WavPack,
	(Id3v1, Id3v1Tag, id3v1, id3v1_mut, set_id3v1, remove_id3v1),
	(Ape, ApeTag, ape, ape_mut, set_ape, remove_ape)
);
slots!(
	AiffFile,
	Kind::Aiff,
	(Id3v2, Id3v2Tag, id3v2, id3v2_mut, set_id3v2, remove_id3v2),
	(AiffText, AiffTextChunks, text_chunks, text_chunks_mut, set_text_chunks, remove_text_chunks)
);
slots!(
	WavFile,
	Kind::Wav,
	(Id3v2, Id3v2Tag, id3v2, id3v2_mut, set_id3v2, remove_id3v2),
	(RiffInfo, RiffInfoList, riff_info, riff_info_mut, set_riff_info, remove_riff_info)
);
slots!(Mp4File, Kind::Mp4, (Mp4Ilst, Ilst, ilst, ilst_mut, set_ilst, remove_ilst));
slots!(
	FlacFile,
	Kind::Flac,
	(Id3v2, Id3v2Tag, id3v2, id3v2_mut, set_id3v2, remove_id3v2),
	(VorbisComments, VorbisComments, vorbis_comments, vorbis_comments_mut, set_vorbis_comments, remove_vorbis_comments)
);
ogg_slots!(OpusFile, Kind::Opus);
ogg_slots!(VorbisFile, Kind::Vorbis);
ogg_slots!(SpeexFile, Kind::Speex);

fn slots_agree<F: Slots>(f: &F, m: &Model, when: &str) -> R {
	let name = F::KIND.name();
	for ty in lg::ALL_TYPES {
		let want = find(m, ty).map(|i| m[i].1.clone());
		let got = f.title(ty);
		ensure!(got == want, format!("{name}: {ty:?} after {when}"), "{got:?} expected {want:?}");
		ensure!(f.contains_tag_type(ty) == want.is_some(), format!("{name}: contains_tag_type after {when}"), "{ty:?} with {m:?}");
	}
	ensure!(f.contains_tag() == !m.is_empty(), format!("{name}: contains_tag after {when}"), "{} with {m:?}", f.contains_tag());
	Ok(())
}

fn own<F: Slots>(c: &mut Case) -> R
where
	TaggedFile: From<F>,
{
	let s = &mut c.src;
	let k = F::KIND;
	let name = k.name();
	let untagged = s.chance(1, 3);
	let data = if untagged { gen_plain(s, k) } else { inputs::tagged(s, k) };
	let native = |d: &[u8]| guard(|| F::read_from(&mut Cursor::new(d), ParseOptions::new()).map_err(|e| e.to_string()));
	let Ok(mut f) = native(&data)? else { return Ok(()) };
	let state = |f: &F| -> Model { lg::ALL_TYPES.iter().filter_map(|t| f.title(*t).map(|x| (*t, x))).collect() };
	let mut m = state(&f);
	let mut disk = m.clone();
	let mut log = vec![format!("{name} of {} bytes with {m:?}", data.len())];
	let mut file = Mem::new(data);
	let mut serial = 0;
	let mut saves = 0;
	let here: Vec<TagType> = lg::ALL_TYPES.into_iter().filter(|t| support(k, *t) != Sup::No).collect();
	let r = (|| -> R {
		slots_agree(&f, &m, "reading")?;
		for _ in 0..s.usize(1, 3) {
			for _ in 0..s.usize(1, 4) {
				serial += 1;
				let title = format!("t{serial}");
				let ty = *s.pick(&here);
				let i = find(&m, ty);
				let old = i.map(|i| m[i].1.clone());
				let what = match s.below(4) {
					0 | 1 => {
						let x = (!s.chance(1, 6)).then_some(title);
						let got = f.set(ty, x.as_deref());
						ensure!(got == old, format!("{name}: setting {ty:?} returns the wrong tag"), "{got:?} expected {old:?}");
						m.retain(|(t, _)| *t != ty);
						m.push((ty, x.clone()));
						format!("set {ty:?} {x:?}")
					},
					2 => {
						let got = f.edit(ty, &title);
						ensure!(got == i.is_some(), format!("{name}: mutable {ty:?}"), "{got} with {m:?}");
						if let Some(i) = i {
							m[i].1 = Some(title.clone());
						}
						format!("retitle {ty:?} {title}")
					},
					_ => {
						let got = f.remove(ty);
						ensure!(got == old, format!("{name}: removing {ty:?} returns the wrong tag"), "{got:?} expected {old:?}");
						m.retain(|(t, _)| *t != ty);
						if F::FIXED {
							m.push((ty, None));
						}
						format!("remove {ty:?}")
					},
				};
				let kind = what.split(' ').next().unwrap().to_string();
				log.push(what);
				slots_agree(&f, &m, &kind)?;
			}
			// (tags that can only be read make saving fail)
			for ty in &here {
				if support(k, *ty) == Sup::Read {
					f.remove(*ty);
					m.retain(|(t, _)| t != ty);
				}
			}
			log.push("save".into());
			file.pos = 0;
			if let Err(e) = guard(|| f.save_to(&mut file, WriteOptions::new()))? {
				let e = e.to_string();
				if untagged && k != Kind::Mpc {
					return fail(format!("{name}: cannot be saved: {}", esig(&e)), e);
				}
				return Ok(());
			}
			saves += 1;
			slots_agree(&f, &m, "saving")?;
			for (t, x) in &m {
				disk.retain(|(u, _)| u != t);
				disk.push((*t, x.clone()));
			}
			let again = match native(&file.data)? {
				Ok(f) => f,
				Err(e) => return fail(format!("{name}: unreadable after saving: {}", esig(&e)), e),
			};
			for ty in &here {
				let got = again.title(*ty).flatten();
				if k == Kind::Flac && find(&m, *ty).is_none() {
					// (pictures are written along with the comments, which replaces what was there)
					disk.retain(|(u, _)| u != ty);
					disk.push((*ty, got));
					continue;
				}
				let want = find(&disk, *ty).and_then(|i| disk[i].1.clone());
				ensure!(got == want, format!("{name}: {ty:?} in the file after saving"), "{got:?} expected {want:?}");
			}
		}
		// the generic object made of it
		let t = TaggedFile::from(f);
		ensure!(t.file_type() == k.file_type(), format!("{name}: type of the converted file"), "{:?}", t.file_type());
		for ty in lg::ALL_TYPES {
			let got = t.tag(ty).map(|t| t.title().map(|t| t.into_owned()));
			let want = find(&m, ty).map(|i| m[i].1.clone());
			if k == Kind::Flac && want.is_none() && got == Some(None) {
				// (pictures of a file without comments get a tag of their own)
				continue;
			}
			ensure!(got == want, format!("{name}: {ty:?} of the converted file"), "{got:?} expected {want:?}");
		}
		Ok(())
	})();
	let l = log.join(", ");
	c.note(|| l.clone());
	c.class(name);
	if saves > 0 && serial > 1 {
		c.nontrivial();
	}
	r.map_err(|mut e| {
		e.msg = format!("{} | {l}", e.msg);
		e
	})
}

fn c33_native(c: &mut Case) -> R {
	match c.src.below(12) {
		0 => own::<AacFile>(c),
		1 => own::<MpegFile>(c),
		2 => own::<ApeFile>(c),
		3 => own::<MpcFile>(c),
		4 => own::<WavPackFile>(c),
		5 => own::<AiffFile>(c),
		6 => own::<WavFile>(c),
		7 => own::<Mp4File>(c),
		8 => own::<FlacFile>(c),
		9 => own::<OpusFile>(c),
		10 => own::<VorbisFile>(c),
		_ => own::<SpeexFile>(c),
	}
}

// ---- file types made with the derive macro

fn derived_read<R: std::io::Read + std::io::Seek>(r: &mut R, o: ParseOptions) -> Result<MpegFile, FileParseError> {
	MpegFile::read_from(r, o)
}

mod derived_a {
	use super::*;
	/// optional tags, one always present, a getter of its own
	#[derive(lofty::LoftyFile)]
	#[lofty(read_fn = "Self::parse")]
	#[lofty(file_type = "DerivedA")]
	pub struct DerivedA {
		#[lofty(tag_type = "Id3v2")]
		pub id3v2_tag: Option<Id3v2Tag>,
		#[lofty(tag_type = "Ape")]
		pub ape_tag: ApeTag,
		#[lofty(tag_type = "Id3v1")]
		#[lofty(getter = "old")]
		pub id3v1_tag: Option<Id3v1Tag>,
		pub properties: FileProperties,
	}
	impl DerivedA {
		fn parse<R: std::io::Read + std::io::Seek>(r: &mut R, o: ParseOptions) -> Result<Self, FileParseError> {
			let mut f = derived_read(r, o)?;
			Ok(DerivedA {
				id3v2_tag: f.remove_id3v2(),
				ape_tag: f.remove_ape().unwrap_or_default(),
				id3v1_tag: f.remove_id3v1(),
				properties: FileProperties::from(*f.properties()),
			})
		}
	}
}

mod derived_b {
	use super::*;
	/// saved by a function of its own
	#[derive(lofty::LoftyFile)]
	#[lofty(read_fn = "Self::parse")]
	#[lofty(write_fn = "Self::write")]
	#[lofty(file_type = "DerivedB")]
	pub struct DerivedB {
		#[lofty(tag_type = "Ape")]
		pub ape_tag: Option<ApeTag>,
		pub properties: lofty::mpeg::MpegProperties,
	}
	impl DerivedB {
		fn parse<R: std::io::Read + std::io::Seek>(r: &mut R, o: ParseOptions) -> Result<Self, FileParseError> {
			let mut f = derived_read(r, o)?;
			Ok(DerivedB { ape_tag: f.remove_ape(), properties: *f.properties() })
		}
		fn write<F: lofty::io::FileLike>(&self, f: &mut F, o: WriteOptions) -> Result<(), lofty::error::FileEncodingError> {
			f.rewind()?;
			// (written under another name, to be told apart)
			let mut t = self.ape_tag.clone().unwrap_or_default();
			t.set_artist("custom".into());
			t.save_to(f, o)
		}
	}
}

fn derived(c: &mut Case) -> R {
	use derived_a::DerivedA;
	use derived_b::DerivedB;
	let s = &mut c.src;
	let data = if s.chance(1, 3) { gen_plain(s, Kind::Mp3) } else { inputs::tagged(s, Kind::Mp3) };
	let o = ParseOptions::new();
	let Ok(plain) = guard(|| MpegFile::read_from(&mut Cursor::new(&data), o))? else { return Ok(()) };
	c.nontrivial();
	let s = &mut c.src;
	let e = |e: FileParseError| Fail { sig: "derived: unreadable".into(), msg: e.to_string() };
	if s.chance(1, 4) {
		let mut f = guard(|| DerivedB::read_from(&mut Cursor::new(&data), o))?.map_err(e)?;
		c.class("own write function");
		ensure!(f.contains_tag() == plain.ape().is_some(), "derived B: contains_tag", "{}", f.contains_tag());
		ensure!(f.contains_tag_type(TagType::Ape) == plain.ape().is_some() && !f.contains_tag_type(TagType::Id3v2), "derived B: contains_tag_type", "-");
		ensure!(format!("{:?}", f.properties()) == format!("{:?}", plain.properties()), "derived B: properties", "-");
		f.set_ape(make::<ApeTag>(Some("t")));
		let mut file = Mem::new(data.clone());
		if guard(|| f.save_to(&mut file, WriteOptions::new()))?.is_err() {
			return Ok(());
		}
		let again = guard(|| MpegFile::read_from(&mut Cursor::new(&file.data), o))?.map_err(e)?;
		let got = again.ape().and_then(|t| t.artist().map(|x| x.into_owned()));
		ensure!(got.as_deref() == Some("custom"), "derived B: the write function is not used", "artist {got:?}");
		let t = TaggedFile::from(f);
		ensure!(t.file_type() == FileType::Custom("DerivedB"), "derived B: file type", "{:?}", t.file_type());
		return Ok(());
	}
	c.class("derived");
	let s = &mut c.src;
	let mut f = guard(|| DerivedA::read_from(&mut Cursor::new(&data), o))?.map_err(e)?;
	let mut v2 = plain.id3v2().map(t_of);
	let mut v1 = plain.id3v1().map(t_of);
	let mut ape = plain.ape().and_then(t_of);
	let agree = |f: &DerivedA, v2: &Option<Option<String>>, v1: &Option<Option<String>>, ape: &Option<String>, when: &str| -> R {
		ensure!(f.id3v2().map(t_of) == *v2, format!("derived: ID3v2 after {when}"), "{:?} expected {v2:?}", f.id3v2().map(t_of));
		ensure!(f.old().map(t_of) == *v1, format!("derived: ID3v1 after {when}"), "{:?} expected {v1:?}", f.old().map(t_of));
		ensure!(t_of(f.ape()) == *ape, format!("derived: APE after {when}"), "{:?} expected {ape:?}", t_of(f.ape()));
		ensure!(f.contains_tag(), format!("derived: contains_tag after {when}"), "-");
		for (ty, w) in [
			(TagType::Id3v2, v2.is_some()),
			(TagType::Id3v1, v1.is_some()),
			(TagType::Ape, true),
			(TagType::VorbisComments, false),
		] {
			ensure!(f.contains_tag_type(ty) == w, format!("derived: contains_tag_type after {when}"), "{ty:?}");
		}
		Ok(())
	};
	agree(&f, &v2, &v1, &ape, "reading")?;
	for i in 0..s.usize(1, 5) {
		let title = format!("t{i}");
		let some = (!s.chance(1, 5)).then_some(title.clone());
		match s.below(8) {
			0 => {
				let old = f.set_id3v2(make(some.as_deref())).as_ref().map(t_of);
				ensure!(old == v2, "derived: set_id3v2 returns", "{old:?} expected {v2:?}");
				v2 = Some(some);
			},
			1 => {
				let old = f.set_old(make(some.as_deref())).as_ref().map(t_of);
				ensure!(old == v1, "derived: set_old returns", "{old:?} expected {v1:?}");
				v1 = Some(some);
			},
			2 => {
				let old = f.set_ape(make(some.as_deref())).as_ref().map(t_of);
				ensure!(old == Some(ape.clone()), "derived: set_ape returns", "{old:?} expected {ape:?}");
				ape = some;
			},
			3 => {
				let old = f.remove_id3v2().as_ref().map(t_of);
				ensure!(old == v2, "derived: remove_id3v2 returns", "{old:?} expected {v2:?}");
				v2 = None;
			},
			4 => {
				let old = f.remove_old().as_ref().map(t_of);
				ensure!(old == v1, "derived: remove_old returns", "{old:?} expected {v1:?}");
				v1 = None;
			},
			5 => {
				let old = t_of(&f.remove_ape());
				ensure!(old == ape, "derived: remove_ape returns", "{old:?} expected {ape:?}");
				ape = None;
			},
			6 => {
				f.ape_mut().set_title(title.clone());
				ape = Some(title);
			},
			_ => {
				if let Some(t) = f.id3v2_mut() {
					t.set_title(title.clone());
					v2 = Some(Some(title));
				}
			},
		}
		agree(&f, &v2, &v1, &ape, "an edit")?;
	}
	let mut file = Mem::new(data.clone());
	if guard(|| f.save_to(&mut file, WriteOptions::new()))?.is_ok() {
		let again = guard(|| MpegFile::read_from(&mut Cursor::new(&file.data), o))?.map_err(e)?;
		// a tag that is not held stays in the file
		let want = v2.clone().unwrap_or_else(|| plain.id3v2().and_then(t_of));
		ensure!(again.id3v2().and_then(t_of) == want, "derived: ID3v2 saved", "{:?} expected {want:?}", again.id3v2().map(t_of));
		let want = v1.clone().unwrap_or_else(|| plain.id3v1().and_then(t_of));
		ensure!(again.id3v1().and_then(t_of) == want, "derived: ID3v1 saved", "{:?} expected {want:?}", again.id3v1().map(t_of));
		ensure!(again.ape().and_then(t_of) == ape, "derived: APE saved", "{:?} expected {ape:?}", again.ape().map(t_of));
	}
	let t = TaggedFile::from(f);
	ensure!(t.file_type() == FileType::Custom("DerivedA"), "derived: file type", "{:?}", t.file_type());
	for (ty, want) in [(TagType::Id3v2, v2), (TagType::Id3v1, v1), (TagType::Ape, Some(ape))] {
		let got = t.tag(ty).map(|t| t.title().map(|t| t.into_owned()));
		ensure!(got == want, format!("derived: {ty:?} of the converted file"), "{got:?} expected {want:?}");
	}
	ensure!(t.tags().len() <= 3, "derived: too many tags", "{}", t.tags().len());
	Ok(())
}

pub fn props() -> Vec<Property> {
	vec![Property {
		id: "C33",
		rule: "two or more edits with a save after them, or two tags held at the end of a history in memory",
		assumptions: &[
			"tags are told apart by their titles",
			"a FlacFile without comments but with pictures replaces the comments in the file",
			"saving a format's own file object that holds a tag the format can only read is outside the domain",
		],
		suites: vec![
			suite!("memory", 60_000, 2_000_000, c33_memory),
			suite!("saved", 40_000, 1_500_000, |c| saved(c, false)),
			suite!("bound", 40_000, 1_500_000, |c| saved(c, true)),
			suite!("native", 60_000, 2_000_000, c33_native),
			suite!("derived", 15_000, 500_000, derived),
		],
	}]
}
