//! C35: values of any size, and tags with any number of items, are stored in full or refused.

use super::preserve::esig;
use super::roundtrip::{any_mode, same_list};
use crate::engine::{Case, Property, R, Src, Suite, fail, guard};
use crate::ensure;
use crate::fmt::{self, ALL_KINDS, Kind, flac, tags};
use crate::lg::{self, NTag};
use crate::rd;
use crate::util::{Mem, first_diff};
use lofty::TextEncoding;
use lofty::ape::ApeItem;
use lofty::config::{GlobalOptions, WriteOptions, apply_global_options};
use lofty::id3::v2::{
	AttachedPictureFrame, BinaryFrame, CommentFrame, ExtendedTextFrame, ExtendedUrlFrame, Frame, FrameId, GeneralEncapsulatedObject, Id3v2Tag,
	PopularimeterFrame, PrivateFrame, TextInformationFrame, UniqueFileIdentifierFrame, UnsynchronizedTextFrame,
	UrlLinkFrame,
};
use lofty::iff::aiff::Comment;
use lofty::mp4::{Atom, AtomData, AtomIdent, DataType};
use lofty::ogg::OggPictureStorage;
use lofty::ogg::tag::VorbisComments;
use lofty::picture::{MimeType, Picture, PictureInformation, PictureType};
use lofty::tag::{ItemValue, TagType};
use std::borrow::Cow;
use std::io::Cursor;

macro_rules! suite {
	($name:literal, $q:expr, $t:expr, $f:expr) => {
		Suite { name: $name, quick: $q, thorough: $t, run: $f }
	};
}

/// Sizes around every limit of the formats' length fields that fits in memory many times over.
const EDGES: [usize; 17] = [
	0, 127, 255, 256, 510, 4080, 8160, 16383, 16384, 32767, 32768, 65025, 65280, 65535, 65536, 130050, 131072,
];

fn big(s: &mut Src) -> usize {
	let e = match s.weighted(&[12, 1]) {
		0 => *s.pick(&EDGES),
		_ => *s.pick(&[1 << 20, (1 << 21) - 1, 1 << 21]),
	};
	let d = match s.below(3) {
		0 => s.below(5) as i64 - 2,
		_ => s.below(160) as i64 - 120,
	};
	(e as i64 + d).max(1) as usize
}

/// Text of exactly `n` bytes without leading or trailing blanks.
fn text(s: &mut Src, n: usize, ascii: bool) -> String {
	let mut x = String::with_capacity(n);
	let unit = if ascii { "abcdefg hij" } else { *s.pick(&["abcdefg hij", "\u{e9}", "\u{20ac}x", "\u{1f600}"]) };
	while x.len() + unit.len() < n {
		x.push_str(unit);
	}
	while x.len() < n {
		x.push('z');
	}
	x
}

fn fid(id: &'static str) -> FrameId<'static> {
	FrameId::new(id).unwrap()
}

fn image(s: &mut Src, n: usize) -> Vec<u8> {
	let mut d = vec![0xFF, 0xD8, 0xFF, 0xE0];
	d.extend(s.blob(n));
	d
}

/// Adds one value of `n` bytes; returns where it went and whether the format has a limit below `n`.
fn add(s: &mut Src, t: &mut NTag, n: usize, v3: bool) -> (&'static str, bool) {
	match t {
		NTag::Id3v2(t) => {
			let enc = if v3 {
				*s.pick(&[TextEncoding::Latin1, TextEncoding::UTF16])
			} else {
				*s.pick(&[TextEncoding::Latin1, TextEncoding::UTF16, TextEncoding::UTF8, TextEncoding::UTF16BE])
			};
			let ascii = enc == TextEncoding::Latin1;
			let (f, what): (Frame<'static>, _) = match s.below(15) {
				0 => (Frame::Text(TextInformationFrame::new(fid("TIT2"), enc, text(s, n, ascii))), "text frame"),
				1 => (Frame::UserText(ExtendedTextFrame::new(enc, "d".to_string(), text(s, n, ascii))), "TXXX content"),
				2 => (Frame::UserText(ExtendedTextFrame::new(enc, text(s, n, ascii), "c".to_string())), "TXXX description"),
				3 => (Frame::Comment(CommentFrame::new(enc, *b"eng", "d".to_string(), text(s, n, ascii))), "COMM content"),
				4 => (Frame::Comment(CommentFrame::new(enc, *b"eng", text(s, n, ascii), "c".to_string())), "COMM description"),
				5 => (
					Frame::UnsynchronizedText(UnsynchronizedTextFrame::new(enc, *b"eng", "d".to_string(), text(s, n, ascii))),
					"USLT content",
				),
				6 => (Frame::UniqueFileIdentifier(UniqueFileIdentifierFrame::new("owner".to_string(), s.blob(n))), "UFID"),
				7 => (Frame::Private(PrivateFrame::new("owner".to_string(), s.blob(n))), "PRIV"),
				8 => (Frame::Private(PrivateFrame::new(text(s, n, true), vec![1, 2])), "PRIV owner"),
				9 => {
					let p = Picture::unchecked(image(s, n)).pic_type(PictureType::CoverFront).mime_type(MimeType::Jpeg);
					(Frame::Picture(AttachedPictureFrame::new(enc, p.description("d").build())), "APIC")
				},
				10 => {
					let d = text(s, n, ascii);
					let p = Picture::unchecked(image(s, 9)).pic_type(PictureType::CoverBack).mime_type(MimeType::Jpeg);
					(Frame::Picture(AttachedPictureFrame::new(enc, p.description(d).build())), "APIC description")
				},
				11 => (Frame::Url(UrlLinkFrame::new(fid("WOAF"), text(s, n, true))), "URL frame"),
				12 => (Frame::UserUrl(ExtendedUrlFrame::new(enc, "d".to_string(), text(s, n, true))), "WXXX content"),
				13 => {
					let g = GeneralEncapsulatedObject::new(
						enc,
						Some("application/x".into()),
						Some("file".into()),
						Some("d".into()),
						s.blob(n),
					);
					let d = g.as_bytes(WriteOptions::default()).expect("object");
					(Frame::Binary(BinaryFrame::new(fid("GEOB"), d)), "GEOB")
				},
				_ => (Frame::Binary(BinaryFrame::new(fid("XABC"), s.blob(n))), "unknown frame"),
			};
			t.insert(f);
			(what, false)
		},
		NTag::Ape(t) => {
			let (k, v, what) = match s.below(4) {
				0 => ("Big".to_string(), ItemValue::Binary(s.blob(n)), "binary item"),
				1 => ("Big".to_string(), ItemValue::Locator(text(s, n, true)), "locator item"),
				_ => ("Big".to_string(), ItemValue::Text(text(s, n, false)), "text item"),
			};
			t.insert(ApeItem::new(k, v).unwrap());
			(what, false)
		},
		NTag::Vorbis(t) => {
			match s.below(6) {
				0 => {
					let d = image(s, n);
					let p = Picture::unchecked(d).pic_type(PictureType::CoverFront).mime_type(MimeType::Jpeg).build();
					let _ = t.insert_picture(p, Some(PictureInformation::default()));
					return ("picture", false);
				},
				1 => {
					let d = text(s, n, false);
					let p = Picture::unchecked(image(s, 5)).pic_type(PictureType::CoverFront).mime_type(MimeType::Jpeg);
					let _ = t.insert_picture(p.description(d).build(), Some(PictureInformation::default()));
					return ("picture description", false);
				},
				2 => {
					let k = text(s, n, true).replace('=', "_").to_uppercase();
					t.push(k, "v".into());
					return ("comment key", false);
				},
				_ => t.push("BIG".into(), text(s, n, false)),
			}
			("comment", false)
		},
		NTag::Ilst(t) => {
			let free = |x: String| AtomIdent::Freeform { mean: Cow::Borrowed("com.apple.iTunes"), name: Cow::Owned(x) };
			let (a, what) = match s.below(7) {
				0 => (Atom::new(AtomIdent::Fourcc(*b"\xA9nam"), AtomData::UTF8(text(s, n, false))), "text atom"),
				1 => (Atom::new(AtomIdent::Fourcc(*b"\xA9lyr"), AtomData::UTF16(text(s, n, false))), "UTF-16 atom"),
				2 => {
					let p = Picture::unchecked(image(s, n)).mime_type(MimeType::Jpeg).build();
					t.insert_picture(p);
					return ("picture", false);
				},
				3 => (Atom::new(free(text(s, n, false)), AtomData::UTF8("v".into())), "freeform name"),
				4 => {
					let mean = Cow::Owned(text(s, n, false));
					(Atom::new(AtomIdent::Freeform { mean, name: Cow::Borrowed("x") }, AtomData::UTF8("v".into())), "freeform mean")
				},
				5 => (
					Atom::new(free("x".into()), AtomData::Unknown { code: DataType::Reserved, data: s.blob(n) }),
					"binary atom",
				),
				_ => (Atom::new(free("x".into()), AtomData::UTF8(text(s, n, false))), "freeform text"),
			};
			t.replace_atom(a);
			(what, false)
		},
		NTag::Riff(t) => {
			t.insert("ICMT".into(), text(s, n, false));
			("INFO item", false)
		},
		NTag::Aiff(t) => {
			let x = text(s, n, false);
			match s.below(6) {
				0 => t.name = Some(x),
				1 => t.author = Some(x),
				2 => t.copyright = Some(x),
				3 => t.annotations.get_or_insert_default().push(x),
				_ => {
					t.comments.get_or_insert_default().push(Comment { timestamp: 7, marker_id: 0, text: x });
					return ("comment", n > 65535);
				},
			}
			("text chunk", false)
		},
		NTag::Id3v1(_) => unreachable!(),
	}
}

fn pick(s: &mut Src) -> (Kind, TagType) {
	loop {
		let k = *s.pick(&ALL_KINDS);
		let ty = *s.pick(lg::writable(k));
		if ty != TagType::Id3v1 {
			return (k, ty);
		}
	}
}

/// Saves the tag; either everything is there afterwards or nothing changed and the format could not hold it.
fn store(c: &mut Case, k: Kind, t: &NTag, o: WriteOptions, data: &[u8], over: bool, what: &str) -> R {
	let ty = t.ty();
	let before = match fmt::essence(k, data) {
		Ok(e) => e,
		Err(e) => return fail("own file", format!("generated file is malformed: {e}")),
	};
	// files over the default limit are only edited with a higher one
	apply_global_options(GlobalOptions::new().allocation_limit(1 << 30));
	let mut f = Mem::new(data.to_vec());
	let r = guard(|| t.save(&mut f, o))?;
	let out = f.data;
	if let Err(e) = r {
		ensure!(over, format!("{ty:?} {what} in {} refused: {}", k.name(), esig(&e)), "a tag the format can hold was refused: {e}");
		ensure!(
			out == data,
			format!("{ty:?} {what} in {}: changed by a refused save", k.name()),
			"the save was refused ({e}) but the file changed: {}",
			first_diff(data, &out)
		);
		c.class("refused");
		return Ok(());
	}
	ensure!(
		!over,
		format!("{ty:?} {what} in {} over the limit", k.name()),
		"the format cannot hold this, but the save succeeded ({} bytes in the file)",
		out.len()
	);
	c.class(k.name());
	let after = match fmt::essence(k, &out) {
		Ok(e) => e,
		Err(e) => return fail(format!("{ty:?} {what} in {}: structure", k.name()), format!("the saved file is malformed: {e}")),
	};
	if k == Kind::Mp4 {
		if let Err(m) = fmt::mp4::same(&before, &after) {
			return fail(format!("{ty:?} {what} in {}: essence", k.name()), m);
		}
	} else if before != after {
		let at = before.iter().zip(&after).find(|(a, b)| a != b);
		return fail(
			format!("{ty:?} {what} in {}: essence", k.name()),
			match at {
				Some((a, b)) => format!("{}: {}", a.0, first_diff(&a.1, &b.1)),
				None => format!("{} pieces before, {} after", before.len(), after.len()),
			},
		);
	}
	let m = any_mode(&mut c.src);
	let r = guard(|| rd::read_native(k, &mut Cursor::new(&out), m, false));
	let sig = |x: &str| format!("{ty:?} {what} in {}: {x}", k.name());
	let n = match r? {
		Ok(n) => n,
		Err(e) => return fail(sig("unreadable"), format!("the saved file cannot be read: {e}")),
	};
	let (mut want, mut have) = (t.canon(), n.get(ty).map_or(vec![], NTag::canon));
	if k == Kind::Flac {
		// pictures are kept beside the comments
		want.retain(|x| !x.starts_with("pic("));
		have.retain(|x| !x.starts_with("pic("));
		let NTag::Vorbis(v) = t else { unreachable!() };
		let mut p: Vec<String> = v.pictures().iter().map(|(p, i)| format!("{} {i:?}", lg::c_pic(p))).collect();
		let mut q = n.extra.clone();
		p.sort();
		q.sort();
		ensure!(p.len() == q.len(), sig("pictures"), "{} pictures written, {} read", p.len(), q.len());
		for (a, b) in p.iter().zip(&q) {
			let id = a.split_once(' ').map_or(a.as_str(), |x| x.0);
			ensure!(b.contains(id.trim_end_matches(')')), sig("pictures"), "wrote {a:.300} read {b:.300}");
		}
	}
	if ty == TagType::Mp4Ilst {
		// pictures share one atom
		want.sort();
		have.sort();
	}
	same_list(&sig("contents"), &want, &have)?;

	let mut f = Mem::new(out);
	match guard(|| t.remove(&mut f, o))? {
		Ok(()) => {},
		Err(e) => return fail(sig("removal refused"), format!("the tag cannot be removed again: {e}")),
	}
	match fmt::essence(k, &f.data) {
		Ok(e) if k == Kind::Mp4 => {
			if let Err(m) = fmt::mp4::same(&before, &e) {
				return fail(sig("essence after removal"), m);
			}
		},
		Ok(e) => ensure!(e == before, sig("essence after removal"), "removing the tag changed the rest of the file"),
		Err(e) => return fail(sig("structure after removal"), e),
	}
	Ok(())
}

fn options(s: &mut Src, ty: TagType) -> (WriteOptions, bool) {
	let mut o = WriteOptions::default();
	match s.below(4) {
		0 => {},
		1 => o = o.preferred_padding(0),
		2 => o = o.preferred_padding(s.range(1, 40) as u32),
		_ => o = o.preferred_padding(big(s) as u32),
	}
	let v3 = ty == TagType::Id3v2 && s.chance(1, 4);
	if v3 {
		o.use_id3v23(true);
	}
	(o, v3)
}

fn values(c: &mut Case) -> R {
	let s = &mut c.src;
	let (k, ty) = pick(s);
	let data = fmt::gen_plain(s, k);
	let (o, v3) = options(s, ty);
	let mut t = if v3 || s.bool() { NTag::empty(ty) } else { lg::plain_native(s, ty) };
	let n = big(s);
	let (what, mut over) = add(s, &mut t, n, v3);
	if let NTag::Id3v2(t) = &mut t {
		if s.chance(1, 6) {
			let mut f = *t.flags();
			f.footer = true;
			t.set_flags(f);
		}
	}
	let mut sizes = vec![n];
	if s.chance(1, 5) {
		let n = big(s);
		over |= add(s, &mut t, n, v3).1;
		sizes.push(n);
	}
	c.note(|| format!("{}: {what} of {sizes:?} bytes in {} {o:?}", t.describe(), k.name()));
	if n >= 127 {
		c.nontrivial();
	}
	c.class(what);
	store(c, k, &t, o, &data, over, what)
}

fn counts(c: &mut Case) -> R {
	let s = &mut c.src;
	let (k, ty) = pick(s);
	let data = fmt::gen_plain(s, k);
	let (o, v3) = options(s, ty);
	let mut t = NTag::empty(ty);
	let e = *s.pick(&[127usize, 255, 256, 512, 1024, 3000]);
	let n = (e as i64 + s.below(5) as i64 - 2) as usize;
	let mut over = false;
	let what = match &mut t {
		NTag::Id3v2(t) => {
			let enc = if v3 { TextEncoding::UTF16 } else { TextEncoding::UTF8 };
			let what = s.below(4);
			for i in 0..n {
				let f = match what {
					0 => Frame::UserText(ExtendedTextFrame::new(enc, format!("d{i}"), format!("{}", i * 7))),
					1 => Frame::Comment(CommentFrame::new(enc, *b"eng", format!("d{i}"), "x".to_string())),
					2 => Frame::Private(PrivateFrame::new(format!("o{i}"), vec![i as u8])),
					_ => Frame::Popularimeter(PopularimeterFrame::new(format!("o{i}"), i as u8, i as u64)),
				};
				t.insert(f);
			}
			"many frames"
		},
		NTag::Ape(t) => {
			for i in 0..n {
				t.insert(ApeItem::new(format!("key{i}"), ItemValue::Text(format!("v{i}"))).unwrap());
			}
			"many items"
		},
		NTag::Vorbis(t) => {
			if s.bool() {
				for i in 0..n.min(300) {
					let p = Picture::unchecked(vec![0xFF, 0xD8, 0xFF, i as u8, (i >> 8) as u8])
						.pic_type(PictureType::Other)
						.mime_type(MimeType::Jpeg)
						.build();
					let _ = t.insert_picture(p, Some(PictureInformation::default()));
				}
				"many pictures"
			} else {
				let same = s.bool();
				for i in 0..n {
					t.push(if same { "KEY".into() } else { format!("KEY{i}") }, format!("v{i}"));
				}
				"many comments"
			}
		},
		NTag::Ilst(t) => {
			if s.bool() {
				let mut a = Atom::from_collection(AtomIdent::Fourcc(*b"\xA9ART"), vec![AtomData::UTF8("first".into())]).unwrap();
				for i in 0..n {
					a.push_data(AtomData::UTF8(format!("v{i}")));
				}
				t.replace_atom(a);
				"many values"
			} else {
				for i in 0..n {
					let id = AtomIdent::Freeform { mean: Cow::Borrowed("m"), name: Cow::Owned(format!("n{i}")) };
					t.insert(Atom::new(id, AtomData::UTF8(format!("v{i}"))));
				}
				"many atoms"
			}
		},
		NTag::Riff(t) => {
			for i in 0..n {
				let d = |n: usize| char::from(b'A' + (n % 26) as u8);
				t.insert(format!("I{}{}{}", d(i), d(i / 26), d(i / 676)), format!("v{i}"));
			}
			"many items"
		},
		NTag::Aiff(t) => {
			if s.bool() {
				t.annotations = Some((0..n).map(|i| format!("a{i}")).collect());
				"many annotations"
			} else {
				let n = match s.below(6) {
					0 => 65530 + s.usize(0, 12),
					_ => n,
				};
				over = n > 65535;
				t.comments =
					Some((0..n).map(|i| Comment { timestamp: i as u32, marker_id: 0, text: format!("{}", i % 10) }).collect());
				"many comments"
			}
		},
		NTag::Id3v1(_) => unreachable!(),
	};
	c.note(|| format!("{n} entries, {what} ({ty:?}) in {} {o:?}", k.name()));
	c.nontrivial();
	c.class(what);
	store(c, k, &t, o, &data, over, what)
}

/// The largest cases take turns: each holds several copies of its file.
static TURN: std::sync::Mutex<()> = std::sync::Mutex::new(());

/// What no tag of the format can hold: 2^28 bytes of ID3v2, 2^24 bytes in one FLAC block.
fn huge(c: &mut Case) -> R {
	let s = &mut c.src;
	let what = s.below(8);
	let _turn = if what < 2 { Some(TURN.lock().unwrap_or_else(|e| e.into_inner())) } else { None };
	match what {
		0 => {
			let k = *s.pick(&[Kind::Mp3, Kind::Wav, Kind::Aac, Kind::Aiff]);
			let data = fmt::gen_plain(s, k);
			let mut t = Id3v2Tag::new();
			let o = WriteOptions::default().preferred_padding(0);
			let (n, over, what) = match s.below(3) {
				// one frame
				0 => {
					let n = (1 << 28) + s.usize(0, 64);
					t.insert(Frame::Private(PrivateFrame::new("o".to_string(), vec![5u8; n])));
					(n, true, "huge frame")
				},
				// many frames
				1 => {
					let n = (1 << 26) + s.usize(0, 3);
					for i in 0..4 {
						t.insert(Frame::Private(PrivateFrame::new(format!("{i}"), vec![5u8; n])));
					}
					(4 * n, true, "huge tag")
				},
				// the header and the owner do not count: 10 + 2 + n < 2^28
				_ => {
					let n = (1 << 28) - 1 - 10 - 2 - s.usize(0, 3);
					t.insert(Frame::Private(PrivateFrame::new("o".to_string(), vec![5u8; n])));
					(n, false, "largest tag")
				},
			};
			c.note(|| format!("ID3v2 tag with {n} bytes in {}", k.name()));
			c.nontrivial();
			c.class(what);
			store(c, k, &NTag::Id3v2(t), o, &data, over, what)
		},
		1 => {
			// padding beyond what the tag size can state
			let k = *s.pick(&[Kind::Mp3, Kind::Wav, Kind::Aac, Kind::Aiff]);
			let data = fmt::gen_plain(s, k);
			let t = lg::plain_native(s, TagType::Id3v2);
			let p = match s.below(3) {
				0 => u32::MAX - s.below(40) as u32,
				1 => (1 << 28) + s.below(4096) as u32,
				_ => 1 << s.range(28, 31),
			};
			let o = WriteOptions::default().preferred_padding(p);
			c.note(|| format!("{} with {p} bytes of padding in {}", t.describe(), k.name()));
			c.nontrivial();
			c.class("huge padding");
			store(c, k, &t, o, &data, true, "huge padding")
		},
		2..=4 => {
			let max = (1usize << 24) - 1;
			let data = fmt::gen_plain(s, Kind::Flac);
			let d = s.range(0, 40) as i64 - 20;
			let mut t = VorbisComments::new();
			let vendor = "v";
			t.set_vendor(vendor.into());
			// the vendor string of the file is kept
			let kept = flac::parse(&data).ok().and_then(|f| {
				f.blocks.iter().find(|b| b.ty == 4).and_then(|b| tags::vc_decode(&b.data).ok()).map(|x| x.0.len())
			});
			let n = (max as i64 + d) as usize - (4 + kept.unwrap_or(vendor.len()) + 4 + 4 + 2);
			t.push("K".into(), "x".repeat(n));
			let o = WriteOptions::default();
			c.note(|| format!("FLAC comment block of {} bytes", max as i64 + d));
			c.nontrivial();
			c.class("comment block");
			store(c, Kind::Flac, &NTag::Vorbis(t), o, &data, d > 0, "comment block")
		},
		5 | 6 => {
			let max = (1usize << 24) - 1;
			let data = fmt::gen_plain(s, Kind::Flac);
			let d = s.range(0, 40) as i64 - 20;
			let mut t = VorbisComments::new();
			t.push("K".into(), "v".into());
			let (mime, desc) = (MimeType::Jpeg, "front");
			let n = (max as i64 + d) as usize - (32 + mime.as_str().len() + desc.len());
			let mut x = vec![0xFF, 0xD8, 0xFF, 0xE0];
			x.resize(n, 9);
			let p = Picture::unchecked(x).pic_type(PictureType::CoverFront).mime_type(mime).description(desc).build();
			let _ = t.insert_picture(p, Some(PictureInformation::default()));
			c.note(|| format!("FLAC picture block of {} bytes", max as i64 + d));
			c.nontrivial();
			c.class("picture block");
			store(c, Kind::Flac, &NTag::Vorbis(t), WriteOptions::default(), &data, d > 0, "picture block")
		},
		_ => {
			// nothing limits these below 4 GiB
			let k = *s.pick(&[Kind::Mp4, Kind::WavPack, Kind::Opus, Kind::Vorbis, Kind::Wav, Kind::Aiff, Kind::Mp3]);
			let ty = *lg::writable(k).iter().find(|t| !matches!(t, TagType::Id3v2 | TagType::Id3v1)).unwrap();
			let data = fmt::gen_plain(s, k);
			let n = (1 << 24) + s.usize(0, 80) - 60;
			let mut t = NTag::empty(ty);
			match &mut t {
				NTag::Ape(t) => {
					t.insert(ApeItem::new("Big".into(), ItemValue::Binary(vec![3; n])).unwrap());
				},
				NTag::Vorbis(t) => t.push("BIG".into(), "x".repeat(n)),
				NTag::Ilst(t) => t.replace_atom(Atom::new(AtomIdent::Fourcc(*b"\xA9lyr"), AtomData::UTF8("x".repeat(n)))),
				NTag::Riff(t) => {
					t.insert("ICMT".into(), "x".repeat(n));
				},
				NTag::Aiff(t) => t.annotations = Some(vec!["x".repeat(n)]),
				_ => unreachable!(),
			}
			c.note(|| format!("{ty:?} value of {n} bytes in {}", k.name()));
			c.nontrivial();
			c.class("value of 16 MiB");
			store(c, k, &t, WriteOptions::default(), &data, false, "value of 16 MiB")
		},
	}
}

pub fn props() -> Vec<Property> {
	vec![Property {
		id: "C35",
		rule: "a value of at least 127 bytes, or at least 125 entries",
		assumptions: &[
			"values are text or bytes the format can hold at ordinary sizes; only their size and number vary",
			"limits asserted: AIFF comment text and count (16 bits), FLAC metadata block (24 bits), ID3v2 tag (28 bits)",
			"containers over 4 GiB are not generated",
		],
		suites: vec![
			suite!("values", 6_000, 120_000, values),
			suite!("counts", 800, 12_000, counts),
			suite!("huge", 40, 400, huge),
		],
	}]
}
