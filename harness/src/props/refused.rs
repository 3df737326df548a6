//! C38: a refused save leaves the file as it was, and saves are refused for a reason.

use super::preserve::{self, Op, esig, gen_op};
use super::robust::tag_fail;
use crate::engine::{Case, Property, R, Src, Suite, fail, guard};
use crate::ensure;
use crate::fmt::id3::{self, Af};
use crate::fmt::{ALL_KINDS, Kind};
use crate::inputs;
use crate::lg::{self, Cs, NTag};
use crate::util::{Mem, Scratch, first_diff};
use lofty::TextEncoding;
use lofty::config::WriteOptions;
use lofty::id3::v2::{
	AttachedPictureFrame, BinaryFrame, ChapterTableOfContentsFrame, CommentFrame, CtocFlags, ExtendedTextFrame, Frame, FrameFlags, FrameId, FrameList,
	Id3v2Tag, OwnershipFrame, PrivateFrame, TextInformationFrame, UnsynchronizedTextFrame,
};
use lofty::iff::aiff::Comment;
use lofty::mp4::{Atom, AtomData, AtomIdent, DataType};
use lofty::picture::{MimeType, Picture, PictureType};
use lofty::tag::{TagExt, TagType};
use std::borrow::Cow;

macro_rules! suite {
	($name:literal, $q:expr, $t:expr, $f:expr) => {
		Suite { name: $name, quick: $q, thorough: $t, run: $f }
	};
}

fn unchanged(what: &str, e: &dyn std::fmt::Display, before: &[u8], after: &[u8]) -> R {
	ensure!(
		before == after,
		format!("{what}: refused, but the file changed: {}", esig(e)),
		"the operation was refused ({e}), but the file is not as before: {}",
		first_diff(before, after)
	);
	Ok(())
}

// ---------------------------------------------------------------- any file

/// Saves and removals in files of every kind and state; whatever is refused changed nothing.
fn files(c: &mut Case) -> R {
	let i = inputs::any(&mut c.src);
	let ko = if c.src.chance(1, 4) { *c.src.pick(&ALL_KINDS) } else { i.kind };
	let op = gen_op(&mut c.src, ko);
	let mut o = lg::write_options(&mut c.src);
	if c.src.chance(1, 4) {
		o = o.use_id3v23(true);
	}
	c.note(|| format!("{} in {} ({}, {} bytes) with {o:?}", op.describe(), i.kind.name(), i.what, i.data.len()));
	let what = format!("{} {:?} in {}", op.name(), op.ty(), i.kind.name());
	// (crashes are C03's business)
	if c.src.chance(1, 20) {
		let f = Scratch::new("refused", &i.data);
		let r = guard(|| match &op {
			Op::SaveNative(t) => t.save_path(&f.0, o),
			Op::SaveGeneric(t) => t.save_to_path(&f.0, o),
			Op::Remove(t) => t.remove_from_path(&f.0, o),
		});
		c.class("path");
		return match r {
			Ok(Err(e)) => {
				c.nontrivial();
				unchanged(&what, &e, &i.data, &f.bytes())
			},
			_ => Ok(()),
		};
	}
	let mut m = Mem::new(i.data.clone());
	match guard(|| op.apply(&mut m, o)) {
		Ok(Err(e)) => {
			c.class(op.name());
			if m.ops > 10 {
				c.nontrivial();
			}
			unchanged(&what, &e, &i.data, &m.data)
		},
		_ => Ok(()),
	}
}

// ---------------------------------------------------------------- unwritable tags

fn latin1_less(s: &mut Src) -> String {
	let mut x = lg::short(s);
	let at = s.below(x.chars().count() as u64 + 1) as usize;
	let i = x.char_indices().nth(at).map_or(x.len(), |(i, _)| i);
	x.insert(i, *s.pick(&['\u{100}', '\u{2019}', '\u{65e5}', '\u{1f600}']));
	x
}

/// A tag that cannot be written, and why.
fn unwritable(s: &mut Src, ty: TagType, o: &mut WriteOptions) -> Option<(NTag, &'static str)> {
	let mut t = lg::plain_native(s, ty);
	let what = match &mut t {
		NTag::Id3v2(t) => {
			let (f, what): (Frame<'static>, _) = match s.below(8) {
				0 => {
					let mut l = *b"eng";
					l[s.below(3) as usize] = *s.pick(&[0, b'1', b' ', 0xE9, b'@', b'[', b'`', b'{']);
					let f = match s.bool() {
						true => Frame::Comment(CommentFrame::new(TextEncoding::UTF8, l, lg::short(s), lg::short(s))),
						false => Frame::UnsynchronizedText(UnsynchronizedTextFrame::new(TextEncoding::UTF16, l, lg::short(s), lg::short(s))),
					};
					(f, "language that is no code")
				},
				1 => {
					let mut d = "20240131".to_string();
					d.truncate(s.below(8) as usize);
					(Frame::Ownership(OwnershipFrame::new(TextEncoding::UTF8, "EUR1".to_string(), d, lg::short(s))), "date of purchase too short")
				},
				2 => {
					let n = s.range(256, 300);
					let e: Vec<Cow<'static, str>> = (0..n).map(|i| format!("c{i}").into()).collect();
					let f = CtocFlags { top_level: s.bool(), ordered: s.bool() };
					(Frame::TableOfContents(ChapterTableOfContentsFrame::new("toc".to_string(), f, e, FrameList::new())), "too many entries")
				},
				3 => {
					let mut f = BinaryFrame::new(FrameId::Valid(Cow::Borrowed("XENC")), b"abcdef".to_vec());
					let mut fl = FrameFlags::default();
					fl.encryption = Some(0x90);
					fl.data_length_indicator = if s.bool() { None } else { Some(0) };
					f.set_flags(fl);
					*o = o.use_id3v23(false);
					(Frame::Binary(f), "encrypted frame without its length")
				},
				4 => {
					let mut f = PrivateFrame::new("owner".to_string(), b"abcdef".to_vec());
					let mut fl = FrameFlags::default();
					fl.encryption = Some(s.below(0x81) as u8);
					fl.data_length_indicator = Some(6);
					f.set_flags(fl);
					(Frame::Private(f), "reserved encryption method")
				},
				5 => {
					*o = o.lossy_text_encoding(false);
					(Frame::Text(TextInformationFrame::new(FrameId::Valid(Cow::Borrowed("TENC")), TextEncoding::Latin1, latin1_less(s))), "text outside Latin-1")
				},
				6 => {
					*o = o.lossy_text_encoding(false);
					(Frame::UserText(ExtendedTextFrame::new(TextEncoding::Latin1, latin1_less(s), lg::short(s))), "description outside Latin-1")
				},
				_ => {
					*o = o.lossy_text_encoding(false);
					let p = Picture::unchecked(vec![0xFF, 0xD8, 0xFF, 0xE0, 1]).pic_type(PictureType::CoverBack).mime_type(MimeType::Jpeg).description(latin1_less(s)).build();
					(Frame::Picture(AttachedPictureFrame::new(TextEncoding::Latin1, p)), "picture description outside Latin-1")
				},
			};
			t.insert(f);
			if s.bool() {
				t.insert(Frame::Text(TextInformationFrame::new(FrameId::Valid(Cow::Borrowed("TSRC")), TextEncoding::UTF8, lg::short(s))));
			}
			what
		},
		NTag::Id3v1(t) => {
			*o = o.lossy_text_encoding(false);
			let mut x = latin1_less(s);
			while x.chars().count() > 30 {
				x.remove(0);
			}
			if x.is_ascii() {
				x = "\u{65e5}".into();
			}
			match s.below(4) {
				0 => t.title = Some(x),
				1 => t.artist = Some(x),
				2 => t.album = Some(x),
				_ => {
					while x.chars().count() > 28 {
						x.pop();
					}
					t.comment = Some(if x.is_ascii() { "\u{65e5}".into() } else { x })
				},
			}
			"text outside Latin-1"
		},
		NTag::Ilst(t) => match s.below(3) {
			0 => {
				let p = Picture::unchecked(vec![b'I', b'I', 42, 0, 1]).mime_type(if s.bool() { MimeType::Tiff } else { MimeType::Unknown("image/x".into()) }).build();
				let mut a = Atom::new(AtomIdent::Fourcc(*b"covr"), AtomData::Picture(Picture::unchecked(vec![0xFF, 0xD8, 0xFF, 0xE0]).mime_type(MimeType::Jpeg).build()));
				a.push_data(AtomData::Picture(p));
				t.replace_atom(a);
				"picture of a kind MP4 has no code for"
			},
			1 => {
				t.insert(Atom::new(AtomIdent::Fourcc(*b"abcd"), AtomData::Unknown { code: DataType::Other(s.range(0x100_0000, u32::MAX as u64) as u32), data: vec![1, 2] }));
				"type code of more than 24 bits"
			},
			_ => {
				let p = Picture::unchecked(vec![1, 2, 3, 4]).mime_type(MimeType::Tiff).build();
				t.insert_picture(p);
				"picture of a kind MP4 has no code for"
			},
		},
		NTag::Aiff(t) => match s.below(2) {
			0 => {
				let mut v = t.comments.take().unwrap_or_default();
				let n = s.range(65536, 65600) as usize;
				v.push(Comment { timestamp: 1, marker_id: 0, text: "x".repeat(n) });
				if s.bool() {
					v.insert(0, Comment { timestamp: 1, marker_id: 0, text: "y".into() });
				}
				t.comments = Some(v);
				"comment of more than 65535 bytes"
			},
			_ => {
				t.comments = Some(vec![Comment { timestamp: 1, marker_id: 0, text: "x".into() }; 65536]);
				"more than 65535 comments"
			},
		},
		_ => return None,
	};
	Some((t, what))
}

/// A well-formed file and a tag that cannot be written: refused, and the file is as before.
fn values(c: &mut Case) -> R {
	let k = *c.src.pick(&ALL_KINDS);
	let data = inputs::tagged(&mut c.src, k);
	let mut o = lg::write_options(&mut c.src);
	if c.src.chance(1, 3) {
		o = o.use_id3v23(true);
	}
	let wrong = c.src.chance(1, 4);
	let (t, what) = if wrong {
		// a tag type the file cannot hold, or not be written with
		let no: Vec<TagType> = lg::ALL_TYPES.iter().copied().filter(|t| !lg::writable(k).contains(t)).collect();
		let ty = *c.src.pick(&no);
		(lg::plain_native(&mut c.src, ty), "tag type the file does not take")
	} else {
		let ty = *c.src.pick(lg::writable(k));
		match unwritable(&mut c.src, ty, &mut o) {
			Some(x) => x,
			None => return Ok(()),
		}
	};
	c.note(|| format!("{what}: {} in {} ({} bytes) with {o:?}", t.describe(), k.name(), data.len()));
	let label = format!("save {:?} in {}", t.ty(), k.name());
	let generic = wrong && c.src.bool();
	let mut m = Mem::new(data.clone());
	let r = guard(|| if generic { t.generic().save_to(&mut m, o) } else { t.save(&mut m, o) }).map_err(|f| tag_fail(f, &label))?;
	match r {
		// (an empty generic tag removes; what it knows besides its items is not written)
		Ok(()) if generic && t.generic().is_empty() => {
			ensure!(m.data.len() <= data.len(), format!("{label}: {what} is written"), "{}", first_diff(&data, &m.data));
			return Ok(());
		},
		Ok(()) => return fail(format!("{label}: {what} is accepted"), format!("file {}", first_diff(&data, &m.data))),
		Err(e) => {
			c.nontrivial();
			c.class(what);
			unchanged(&label, &e, &data, &m.data)?;
		},
	}
	// and nothing comes out of a dump that is refused
	if !wrong {
		let mut out = vec![];
		let r = guard(|| t.dump(&mut out, o))?;
		ensure!(r.is_err(), format!("dump of {:?}: {what} is accepted", t.ty()), "{} bytes", out.len());
		ensure!(out.is_empty(), format!("dump of {:?}: refused, but bytes were put out", t.ty()), "{what}: {} bytes", out.len());
	}
	Ok(())
}

// ---------------------------------------------------------------- lossy text

/// Every text of a frame, and whether it is Latin-1 whatever the frame's encoding.
fn texts(f: &mut Af) -> Vec<(&mut String, bool)> {
	match f {
		Af::Text { vals, .. } => vals.iter_mut().map(|v| (v, false)).collect(),
		Af::User { desc, vals } => std::iter::once(desc).chain(vals.iter_mut()).map(|v| (v, false)).collect(),
		Af::Url { url, .. } => vec![(url, true)],
		Af::UserUrl { desc, url } => vec![(desc, false), (url, true)],
		Af::Lang { desc, text, .. } => vec![(desc, false), (text, false)],
		Af::Pic { desc, .. } => vec![(desc, false)],
		Af::Popm { email, .. } => vec![(email, true)],
		Af::Priv { owner, .. } | Af::Ufid { owner, .. } => vec![(owner, true)],
		Af::Pairs { pairs, .. } => pairs.iter_mut().flat_map(|(a, b)| [(a, false), (b, false)]).collect(),
		Af::Owne { price, seller, .. } => vec![(price, true), (seller, false)],
		Af::Rva2 { ident, .. } => vec![(ident, true)],
		Af::Chap { id, kids, .. } => std::iter::once((id, true)).chain(kids.iter_mut().flat_map(texts)).collect(),
		Af::Ctoc { id, entries, kids, .. } => std::iter::once((id, true))
			.chain(entries.iter_mut().map(|e| (e, true)))
			.chain(kids.iter_mut().flat_map(texts))
			.collect(),
		Af::Time { .. } | Af::Etco { .. } | Af::Bin { .. } => vec![],
	}
}

fn tag_of(v: &[Af], e: TextEncoding) -> NTag {
	let mut t = Id3v2Tag::new();
	for f in v {
		t.insert(id3::to_frame(f, e));
	}
	NTag::Id3v2(t)
}

/// Leaves out the frames that 2.3 does not have.
fn not_in_23(v: &mut Vec<Af>) {
	v.retain(|f| !["RVA2", "EQU2", "ASPI", "SEEK", "SIGN", "TMOO", "TPRO", "TSST", "TSOA", "TSOP", "TSOT"].contains(&f.id()));
	for f in v {
		if let Af::Chap { kids, .. } | Af::Ctoc { kids, .. } = f {
			not_in_23(kids);
		}
	}
}

/// One character outside Latin-1 somewhere in a tag: replaced by a question mark, or refused, exactly where the
/// text is stored as Latin-1.
fn lossy(c: &mut Case) -> R {
	let k = *c.src.pick(&[Kind::Mp3, Kind::Aac, Kind::Wav, Kind::Aiff]);
	let data = match k {
		Kind::Wav | Kind::Aiff => preserve::gen_form(&mut c.src, k).to_bytes(),
		_ => preserve::gen_parts(&mut c.src, k).to_bytes(),
	};
	let e = *c.src.pick(&[TextEncoding::Latin1, TextEncoding::Latin1, TextEncoding::UTF16, TextEncoding::UTF16BE, TextEncoding::UTF8]);
	let v23 = c.src.chance(1, 3);
	let mut afs = id3::gen_afs(&mut c.src, Cs::Latin1, 1, 4);
	if v23 {
		not_in_23(&mut afs);
	}
	let mut marked = afs.clone();
	let n = marked.iter_mut().flat_map(texts).count();
	if n == 0 {
		return Ok(());
	}
	let at = c.src.below(n as u64) as usize;
	let ch = *c.src.pick(&['\u{100}', '\u{2019}', '\u{65e5}', '\u{1f600}', '\u{ffff}']);
	let (len, affected) = {
		let (t, l) = marked.iter_mut().flat_map(texts).nth(at).unwrap();
		(t.chars().count(), l || e == TextEncoding::Latin1)
	};
	let pos = c.src.below(len as u64 + 1) as usize;
	let put = |v: &mut Vec<Af>, ch: char| {
		let (t, _) = v.iter_mut().flat_map(texts).nth(at).unwrap();
		let i = t.char_indices().nth(pos).map_or(t.len(), |(i, _)| i);
		t.insert(i, ch);
	};
	put(&mut marked, ch);
	let mut plain = afs.clone();
	put(&mut plain, '?');
	c.note(|| format!("{} in {} as {e:?} (2.3: {v23}), character {ch:?} in text {at} at {pos}", id3::brief(&marked), k.name()));
	let (t, q) = (tag_of(&marked, e), tag_of(&plain, e));
	if t.canon().len() != q.canon().len() {
		return Ok(());
	}
	c.nontrivial();
	c.class(if affected { "stored as Latin-1" } else { "stored as Unicode" });
	let o = WriteOptions::default().preferred_padding(0).use_id3v23(v23);
	let run = |t: &NTag, lossy: bool| {
		let mut m = Mem::new(data.clone());
		let mut o = o;
		let r = guard(|| t.save(&mut m, o.lossy_text_encoding(lossy)));
		r.map(|r| (r.map_err(|e| e.to_string()), m.data))
	};
	let id = {
		let mut left = at;
		let mut id = String::new();
		for f in &mut marked {
			let n = texts(f).len();
			if left < n {
				id = f.id().to_string();
				break;
			}
			left -= n;
		}
		id
	};
	let strict = run(&t, false)?;
	let loose = run(&t, true)?;
	let (qs, ql) = (run(&q, false)?, run(&q, true)?);
	ensure!(ql.0.is_ok() && qs.0.is_ok(), format!("{id}: plain text refused"), "{:?} {:?}", qs.0, ql.0);
	ensure!(qs.1 == ql.1, format!("{id}: lossy encoding changes text that needs no change"), "{}", first_diff(&qs.1, &ql.1));
	ensure!(loose.0.is_ok(), format!("{id}: refused although lossy encoding is on"), "{:?}", loose.0);
	if affected {
		ensure!(strict.0.is_err(), format!("{id}: text outside Latin-1 accepted although lossy encoding is off"), "{}", first_diff(&data, &strict.1));
		unchanged(&id, &strict.0.unwrap_err(), &data, &strict.1)?;
		ensure!(loose.1 == ql.1, format!("{id}: not replaced by a question mark"), "{}", first_diff(&ql.1, &loose.1));
	} else {
		ensure!(strict.0.is_ok(), format!("{id}: text that can be stored is refused"), "{:?}", strict.0);
		ensure!(strict.1 == loose.1, format!("{id}: lossy encoding changes text that can be stored"), "{}", first_diff(&strict.1, &loose.1));
		ensure!(loose.1 != ql.1, format!("{id}: text that can be stored is replaced"), "the question mark gives the same file");
	}
	Ok(())
}

pub fn props() -> Vec<Property> {
	vec![Property {
		id: "C38",
		rule: "an operation was refused after it looked at the file, or a tag with one character outside Latin-1 was saved with and without lossy encoding",
		assumptions: &["single tags saved or removed; a file object that saves several tags may have written some of them"],
		suites: vec![suite!("files", 300_000, 4_000_000, files), suite!("values", 150_000, 1_500_000, values), suite!("lossy", 100_000, 800_000, lossy)],
	}]
}
