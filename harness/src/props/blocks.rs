//! C34: the building blocks of ID3v2 used on their own: frame contents, synchsafe integers,
//! the unsynchronisation scheme and the scrambling of audio texts.

use crate::engine::{Case, Fail, Property, R, Src, Suite, fail, guard};
use crate::ensure;
use crate::fmt::id3::{self, Af, Enc};
use crate::lg::{self, Cs};
use lofty::TextEncoding;
use lofty::config::{ParseOptions, ParsingMode, WriteOptions};
use lofty::id3::v2::util::synchsafe::{SynchsafeInteger, UnsynchronizedStream};
use lofty::id3::v2::{
	AttachedPictureFrame, AudioTextFrame, AudioTextFrameFlags, BinaryFrame, ChapterFrame, ChapterTableOfContentsFrame, CommentFrame,
	EventTimingCodesFrame, ExtendedTextFrame, ExtendedUrlFrame, Frame, FrameFlags, FrameId, GeneralEncapsulatedObject, Id3v2Version, KeyValueFrame,
	OwnershipFrame, PopularimeterFrame, PrivateFrame, RelativeVolumeAdjustmentFrame, SyncTextContentType, SynchronizedTextFrame,
	TextInformationFrame, TimestampFormat, TimestampFrame, UniqueFileIdentifierFrame, UnsynchronizedTextFrame, UrlLinkFrame, scramble, upgrade_v2,
	upgrade_v3,
};
use std::io::{Read, Seek, SeekFrom};

macro_rules! suite {
	($name:literal, $q:expr, $t:expr, $f:expr) => {
		Suite { name: $name, quick: $q, thorough: $t, run: $f }
	};
}

/// Hands out a few bytes at a time
struct Bits<'a> {
	d: &'a [u8],
	pos: usize,
	step: usize,
	trip: bool,
}

impl Read for Bits<'_> {
	fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
		if self.trip && self.pos % 3 == 1 {
			self.trip = false;
			return Err(std::io::ErrorKind::Interrupted.into());
		}
		let n = b.len().min(self.step).min(self.d.len() - self.pos);
		b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
		self.pos += n;
		Ok(n)
	}
}

impl Seek for Bits<'_> {
	fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
		let n = match p {
			SeekFrom::Start(n) => n as i64,
			SeekFrom::Current(n) => self.pos as i64 + n,
			SeekFrom::End(n) => self.d.len() as i64 + n,
		};
		if n < 0 {
			return Err(std::io::ErrorKind::InvalidInput.into());
		}
		self.pos = (n as usize).min(self.d.len());
		Ok(n as u64)
	}
}

fn mode(s: &mut Src) -> ParsingMode {
	*s.pick(&[ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::Relaxed])
}

fn flags(s: &mut Src) -> FrameFlags {
	let mut f = FrameFlags::default();
	if s.bool() {
		f.tag_alter_preservation = s.bool();
		f.file_alter_preservation = s.bool();
		f.read_only = s.bool();
		f.grouping_identity = s.bool().then(|| s.u8());
	}
	f
}

fn written(f: &Frame<'_>, wo: WriteOptions, v: Id3v2Version) -> Result<Result<Vec<u8>, String>, Fail> {
	guard(|| {
		Ok::<_, Fail>(
			match f {
				Frame::Text(x) => x.as_bytes(wo),
				Frame::UserText(x) => x.as_bytes(wo),
				Frame::Url(x) => x.as_bytes(wo),
				Frame::UserUrl(x) => x.as_bytes(wo),
				Frame::Comment(x) => x.as_bytes(wo),
				Frame::UnsynchronizedText(x) => x.as_bytes(wo),
				Frame::Picture(x) => x.as_bytes(wo),
				Frame::Popularimeter(x) => x.as_bytes(wo),
				Frame::KeyValue(x) => x.as_bytes(wo),
				Frame::RelativeVolumeAdjustment(x) => x.as_bytes(wo),
				Frame::UniqueFileIdentifier(x) => x.as_bytes(wo),
				Frame::Ownership(x) => x.as_bytes(wo),
				Frame::EventTimingCodes(x) => x.as_bytes(),
				Frame::Private(x) => x.as_bytes(wo),
				Frame::Timestamp(x) => x.as_bytes(wo),
				Frame::Chapter(x) => x.as_bytes(v, wo),
				Frame::TableOfContents(x) => x.as_bytes(v, wo),
				Frame::Binary(x) => Ok(x.as_bytes()),
				_ => return Ok(Err("unknown frame".into())),
			}
			.map_err(|e| e.to_string()),
		)
	})?
}

fn parsed(af: &Af, r: &mut Bits<'_>, fl: FrameFlags, v: Id3v2Version, m: ParsingMode) -> Result<Result<Option<Frame<'static>>, String>, Fail> {
	let id = FrameId::new(af.id().to_string()).unwrap();
	guard(|| {
		let o = |x: Option<Frame<'static>>| x;
		Ok::<_, Fail>(
			(match af {
				Af::Text { .. } => TextInformationFrame::parse(r, id, fl, v).map(|f| o(f.map(Frame::Text))),
				Af::User { .. } => ExtendedTextFrame::parse(r, fl, v).map(|f| o(f.map(Frame::UserText))),
				Af::Url { .. } => UrlLinkFrame::parse(r, id, fl).map(|f| o(f.map(Frame::Url))),
				Af::UserUrl { .. } => ExtendedUrlFrame::parse(r, fl, v).map(|f| o(f.map(Frame::UserUrl))),
				Af::Lang { id, .. } if id == "COMM" => CommentFrame::parse(r, fl, v).map(|f| o(f.map(Frame::Comment))),
				Af::Lang { .. } => UnsynchronizedTextFrame::parse(r, fl, v).map(|f| o(f.map(Frame::UnsynchronizedText))),
				Af::Pic { .. } => AttachedPictureFrame::parse(r, fl, v).map(|f| Some(Frame::Picture(f))),
				Af::Popm { .. } => PopularimeterFrame::parse(r, fl).map(|f| Some(Frame::Popularimeter(f))),
				Af::Priv { .. } => PrivateFrame::parse(r, fl).map(|f| o(f.map(Frame::Private))),
				Af::Ufid { .. } => UniqueFileIdentifierFrame::parse(r, fl, m).map(|f| o(f.map(Frame::UniqueFileIdentifier))),
				Af::Pairs { .. } => KeyValueFrame::parse(r, id, fl, v).map(|f| o(f.map(Frame::KeyValue))),
				Af::Time { .. } => TimestampFrame::parse(r, id, fl, m).map(|f| o(f.map(Frame::Timestamp))),
				Af::Owne { .. } => OwnershipFrame::parse(r, fl).map(|f| o(f.map(Frame::Ownership))),
				Af::Etco { .. } => EventTimingCodesFrame::parse(r, fl).map(|f| o(f.map(Frame::EventTimingCodes))),
				Af::Rva2 { .. } => RelativeVolumeAdjustmentFrame::parse(r, fl, m).map(|f| o(f.map(Frame::RelativeVolumeAdjustment))),
				Af::Chap { .. } => ChapterFrame::parse(r, ParseOptions::new().parsing_mode(m), v, fl).map(|f| Some(Frame::Chapter(f))),
				Af::Ctoc { .. } => {
					ChapterTableOfContentsFrame::parse(r, ParseOptions::new().parsing_mode(m), v, fl).map(|f| Some(Frame::TableOfContents(f)))
				},
				Af::Bin { .. } => BinaryFrame::parse(r, id, fl).map(|f| Some(Frame::Binary(f))),
			})
			.map_err(|e| e.to_string()),
		)
	})?
}

fn has_many(f: &Af) -> bool {
	match f {
		Af::Text { vals, .. } | Af::User { vals, .. } => vals.len() > 1,
		Af::Chap { kids, .. } | Af::Ctoc { kids, .. } => kids.iter().any(has_many),
		_ => false,
	}
}

fn c34_frames(c: &mut Case) -> R {
	let s = &mut c.src;
	let ver = *s.pick(&[4u8, 4, 3, 2]);
	let e = id3::gen_enc(s, ver);
	let cs = id3::cs_of(e);
	let af = id3::gen_af(s, cs, 1);
	let m = mode(s);
	let fl = flags(s);
	let Some(parts) = id3::encode(&af, ver, e) else { return Ok(()) };
	if parts.len() != 1 || (ver < 4 && matches!(af, Af::Time { .. })) {
		return Ok(());
	}
	let body = &parts[0].1;
	let v = [Id3v2Version::V2, Id3v2Version::V3, Id3v2Version::V4][ver as usize - 2];
	let step = *s.pick(&[usize::MAX, usize::MAX, 1, 3]);
	let what = format!("{} 2.{ver} enc {} step {step} {m:?}", af.id(), e.byte);
	let txt = id3::brief(std::slice::from_ref(&af));
	c.note(|| format!("{what} {txt}"));
	c.class(match af {
		Af::Text { .. } | Af::User { .. } | Af::Pairs { .. } => "texts",
		Af::Url { .. } | Af::UserUrl { .. } => "links",
		Af::Lang { .. } => "comments",
		Af::Pic { .. } => "pictures",
		Af::Chap { .. } | Af::Ctoc { .. } => "chapters",
		Af::Bin { .. } => "binary",
		_ => "others",
	});
	c.nontrivial();
	let mut r = Bits { d: body, pos: 0, step, trip: false };
	let f = match parsed(&af, &mut r, fl, v, m)? {
		Ok(Some(f)) => f,
		o => return fail(format!("{}: content not read", af.id()), format!("{what}: {o:?} | {af:?}")),
	};
	ensure!(f.flags() == fl, format!("{}: flags given to parse", af.id()), "{what}: {:?} expected {fl:?}", f.flags());
	let back = id3::af_of(&f);
	ensure!(back == af, format!("{}: content read", af.id()), "{what}: {back:?} expected {af:?}");
	if let (Some(x), false) = (id3::enc_of(&f), matches!(af, Af::Chap { .. } | Af::Ctoc { .. })) {
		ensure!(x as u8 == e.byte, format!("{}: encoding read", af.id()), "{what}: {x:?}");
	}
	// written again
	let s = &mut c.src;
	let v3 = s.chance(1, 3);
	let lossy = s.bool();
	if v3 && (has_many(&af) || matches!(af, Af::Rva2 { .. } | Af::Time { .. } | Af::Chap { .. } | Af::Ctoc { .. })) {
		// (put together by the tag, or not a part of 2.3)
		return Ok(());
	}
	let (wv, n) = if v3 { (Id3v2Version::V3, 3) } else { (Id3v2Version::V4, 4) };
	let out = match written(&f, WriteOptions::new().use_id3v23(v3).lossy_text_encoding(lossy), wv)? {
		Ok(o) => o,
		Err(e) => return fail(format!("{}: content not written", af.id()), format!("{what}: {e} | {af:?}")),
	};
	// (events are put in order when written)
	let sorted = |f: Af| match f {
		Af::Etco { fmt, mut ev } => {
			ev.sort();
			Af::Etco { fmt, ev }
		},
		f => f,
	};
	match id3::decode(af.id(), n, &out) {
		Ok(b) => {
			if let Af::Etco { ev, .. } = &b {
				ensure!(ev.is_sorted_by_key(|e| e.1), "ETCO: events written out of order", "{ev:?}");
			}
			ensure!(sorted(b.clone()) == sorted(af.clone()), format!("{}: content written", af.id()), "{what} as 2.{n}: {b:?} expected {af:?}");
		},
		Err(x) => return fail(format!("{}: written content is malformed", af.id()), format!("{what} as 2.{n}: {x} | {af:?}")),
	}
	Ok(())
}

/// a terminated string
fn put(o: &mut Vec<u8>, t: &str, e: Enc, bom: bool) {
	match e.byte {
		0 => o.extend(t.chars().map(|c| c as u32 as u8)),
		3 => o.extend(t.as_bytes()),
		_ => {
			let be = e.byte == 2 || e.be;
			let mut w = |u: u16| o.extend(if be { u.to_be_bytes() } else { u.to_le_bytes() });
			if e.byte == 1 && bom {
				w(0xFEFF);
			}
			t.encode_utf16().for_each(&mut w);
			w(0);
			return;
		},
	}
	o.push(0);
}

/// takes a terminated string; with a byte order mark in `be` for those that follow
fn take(d: &mut &[u8], byte: u8, be: &mut Option<bool>) -> Result<String, String> {
	if byte == 0 || byte == 3 {
		let n = d.iter().position(|b| *b == 0).ok_or("not terminated")?;
		let (a, b) = d.split_at(n);
		*d = &b[1..];
		return if byte == 0 { Ok(a.iter().map(|b| char::from(*b)).collect()) } else { String::from_utf8(a.to_vec()).map_err(|e| e.to_string()) };
	}
	let n = d.chunks_exact(2).position(|c| c == [0, 0]).ok_or("not terminated")?;
	let (mut a, b) = d.split_at(n * 2);
	*d = &b[2..];
	if byte == 1 {
		match a.get(..2) {
			Some([0xFE, 0xFF]) => *be = Some(true),
			Some([0xFF, 0xFE]) => *be = Some(false),
			_ => {},
		}
		if let Some([0xFE, 0xFF] | [0xFF, 0xFE]) = a.get(..2) {
			a = &a[2..];
		}
	}
	let be = byte == 2 || a.is_empty() || be.ok_or("no byte order mark")?;
	let u: Vec<u16> = a.chunks_exact(2).map(|c| if be { u16::from_be_bytes([c[0], c[1]]) } else { u16::from_le_bytes([c[0], c[1]]) }).collect();
	String::from_utf16(&u).map_err(|e| e.to_string())
}

fn te(b: u8) -> TextEncoding {
	[TextEncoding::Latin1, TextEncoding::UTF16, TextEncoding::UTF16BE, TextEncoding::UTF8][b as usize]
}

#[derive(Clone, PartialEq, Debug)]
enum Obj {
	Geob { mime: String, name: String, desc: String, data: Vec<u8> },
	Sylt { lang: [u8; 3], fmt: u8, ty: u8, desc: String, lines: Vec<(u32, String)> },
	Atxt { mime: String, scrambled: bool, text: String, data: Vec<u8> },
}

impl Obj {
	fn id(&self) -> &'static str {
		match self {
			Obj::Geob { .. } => "GEOB",
			Obj::Sylt { .. } => "SYLT",
			Obj::Atxt { .. } => "ATXT",
		}
	}

	fn r#gen(s: &mut Src, cs: Cs) -> Obj {
		let opt = |s: &mut Src, cs| if s.chance(1, 4) { String::new() } else { lg::text(s, cs, false) };
		match s.below(3) {
			0 => {
				let n = s.size(400, &[0, 1]);
				Obj::Geob { mime: opt(s, Cs::Latin1), name: opt(s, cs), desc: opt(s, cs), data: s.blob(n) }
			},
			1 => {
				let n = s.size(12, &[0, 1]);
				let desc = opt(s, cs);
				let lines = (0..n).map(|_| (s.u32() >> s.below(32), opt(s, cs))).collect();
				Obj::Sylt { lang: *s.pick(&[*b"eng", *b"XXX", *b"deu"]), fmt: s.range(1, 2) as u8, ty: s.below(9) as u8, desc, lines }
			},
			_ => {
				let n = s.size(400, &[0, 1, 126, 127, 128]);
				Obj::Atxt { mime: opt(s, Cs::Latin1), scrambled: s.bool(), text: opt(s, cs), data: s.blob(n) }
			},
		}
	}

	fn encode(&self, e: Enc) -> Vec<u8> {
		let latin = Enc { byte: 0, be: false, bom_each: true };
		let mut o = vec![e.byte];
		match self {
			Obj::Geob { mime, name, desc, data } => {
				put(&mut o, mime, latin, true);
				put(&mut o, name, e, true);
				put(&mut o, desc, e, true);
				o.extend(data);
			},
			Obj::Sylt { lang, fmt, ty, desc, lines } => {
				o.extend(lang);
				o.push(*fmt);
				o.push(*ty);
				// a description without a byte order mark is possible when it is empty and the texts have their own
				put(&mut o, desc, e, !desc.is_empty() || !e.bom_each);
				for (at, t) in lines {
					put(&mut o, t, e, e.bom_each);
					o.extend(at.to_be_bytes());
				}
			},
			Obj::Atxt { mime, scrambled, text, data } => {
				put(&mut o, mime, latin, true);
				o.push(u8::from(*scrambled));
				put(&mut o, text, e, true);
				o.extend(data);
			},
		}
		o
	}

	/// with the encoding
	fn decode(id: &str, d: &[u8]) -> Result<(u8, Obj), String> {
		let (byte, mut d) = d.split_first().map(|(b, d)| (*b, d)).ok_or("empty")?;
		let mut be = None;
		let o = match id {
			"GEOB" => {
				let mime = take(&mut d, 0, &mut None)?;
				let name = take(&mut d, byte, &mut None)?;
				let desc = take(&mut d, byte, &mut None)?;
				Obj::Geob { mime, name, desc, data: d.to_vec() }
			},
			"SYLT" => {
				let h: [u8; 5] = d.get(..5).ok_or("short")?.try_into().unwrap();
				d = &d[5..];
				let desc = take(&mut d, byte, &mut be)?;
				let mut lines = vec![];
				while !d.is_empty() {
					let t = take(&mut d, byte, &mut be)?;
					let at = d.get(..4).ok_or("no time")?;
					lines.push((u32::from_be_bytes(at.try_into().unwrap()), t));
					d = &d[4..];
				}
				Obj::Sylt { lang: h[..3].try_into().unwrap(), fmt: h[3], ty: h[4], desc, lines }
			},
			_ => {
				let mime = take(&mut d, 0, &mut None)?;
				let (f, r) = d.split_first().ok_or("no flags")?;
				d = r;
				let text = take(&mut d, byte, &mut None)?;
				Obj::Atxt { mime, scrambled: *f == 1, text, data: d.to_vec() }
			},
		};
		Ok((byte, o))
	}
}

fn c34_objects(c: &mut Case) -> R {
	let s = &mut c.src;
	let e = Enc { byte: s.below(4) as u8, be: s.bool(), bom_each: s.chance(2, 3) };
	let o = Obj::r#gen(s, id3::cs_of(e));
	let id = o.id();
	let v3 = s.bool();
	let lossy = s.bool();
	let fl = flags(s);
	let read = s.bool();
	let none = |t: &str| (!t.is_empty()).then(|| t.to_string());
	c.note(|| format!("{o:?} {e:?} v3={v3} read={read}"));
	c.class(match id {
		"GEOB" => "GEOB",
		"SYLT" => "SYLT",
		_ => "ATXT",
	});
	c.nontrivial();
	let d = o.encode(e);
	let bad = |x: String| Fail { sig: format!("{id}: content not read"), msg: format!("{x} | {o:?} {e:?}") };
	let wo = WriteOptions::new().use_id3v23(v3).lossy_text_encoding(lossy);
	let out = match &o {
		Obj::Geob { mime, name, desc, data } => {
			let mut f = GeneralEncapsulatedObject::new(te(e.byte), none(mime), none(name), none(desc), data.clone());
			f.set_flags(fl);
			if read {
				let g = guard(|| GeneralEncapsulatedObject::parse(&d, fl))?.map_err(|e| bad(e.to_string()))?;
				ensure!(
					(g.encoding, &g.mime_type, &g.file_name, &g.descriptor, &g.data, g.flags())
						== (f.encoding, &f.mime_type, &f.file_name, &f.descriptor, &f.data, fl),
					"GEOB: content read",
					"{g:?} expected {f:?}"
				);
				f = g;
			}
			guard(|| f.as_bytes(wo))?.map_err(|e| e.to_string())
		},
		Obj::Sylt { lang, fmt, ty, desc, lines } => {
			let format = if *fmt == 1 { TimestampFormat::MPEG } else { TimestampFormat::MS };
			let mut f =
				SynchronizedTextFrame::new(te(e.byte), *lang, format, SyncTextContentType::try_from(*ty).unwrap(), none(desc), lines.clone());
			f.set_flags(fl);
			if read {
				let g = guard(|| SynchronizedTextFrame::parse(&d, fl))?.map_err(|e| bad(e.to_string()))?;
				ensure!(g == f && g.flags() == fl, "SYLT: content read", "{g:?} expected {f:?}");
				ensure!(g.content_type as u8 == *ty && g.timestamp_format as u8 == *fmt, "SYLT: kinds read", "{g:?}");
				f = g;
			}
			guard(|| f.as_bytes(wo))?.map_err(|e| e.to_string())
		},
		Obj::Atxt { mime, scrambled, text, data } => {
			let mut f = AudioTextFrame::new(te(e.byte), mime.clone(), AudioTextFrameFlags { scrambling: *scrambled }, text.clone(), data.clone());
			f.set_flags(fl);
			if read {
				let g = guard(|| AudioTextFrame::parse(&d, fl))?.map_err(|e| bad(e.to_string()))?;
				ensure!(
					(g.encoding, &g.mime_type, g.flags.scrambling, &g.equivalent_text, &g.audio_data, g.flags())
						== (f.encoding, mime, *scrambled, text, data, fl),
					"ATXT: content read",
					"{g:?} expected {f:?}"
				);
				f = g;
			}
			guard(|| f.as_bytes(wo))?.map_err(|e| e.to_string())
		},
	};
	let out = match out {
		Ok(o) => o,
		Err(x) => return fail(format!("{id}: content not written"), format!("{x} | {o:?} {e:?}")),
	};
	let want = if v3 && e.byte > 1 { 1 } else { e.byte };
	match Obj::decode(id, &out) {
		Ok((b, back)) => {
			ensure!(b == want, format!("{id}: encoding written"), "{b} expected {want} | {o:?}");
			ensure!(back == o, format!("{id}: content written"), "{back:?} expected {o:?}");
		},
		Err(x) => return fail(format!("{id}: written content is malformed"), format!("{x} | {o:?} {e:?} v3={v3} {out:02x?}")),
	}
	Ok(())
}

/// `n` spread over bytes of seven bits
fn spread(n: u128, bytes: u32) -> Option<u128> {
	(n >> (7 * bytes) == 0).then(|| (0..bytes).fold(0, |o, i| o | (n >> (7 * i) & 0x7F) << (8 * i)))
}

fn c34_synchsafe(c: &mut Case) -> R {
	let s = &mut c.src;
	let raw = u64::from(s.u32()) >> s.below(32);
	let n = match s.below(4) {
		0 => raw,
		1 => 1 << s.below(32),
		2 => (1u64 << s.range(1, 32)) - 1,
		_ => raw & 0x0FFF_FFFF,
	} as u32;
	c.note(|| format!("{n:#x}"));
	if n > 127 {
		c.nontrivial();
	}
	c.class("numbers");
	macro_rules! check {
		($ty:ty, $wide:ty) => {{
			let n = n as $ty;
			let b = size_of::<$ty>() as u32;
			let want = spread(n as u128, b);
			let got = guard(|| n.synch().ok())?;
			ensure!(got.map(|g| g as u128) == want, format!("synch of {}", stringify!($ty)), "{n:#x}: {got:x?} expected {want:x?}");
			if let Some(g) = got {
				let u = guard(|| g.unsynch())?;
				ensure!(u == n, format!("unsynch of {}", stringify!($ty)), "{n:#x}: {u:#x}");
			}
			let w = guard(|| n.widening_synch())?;
			ensure!(
				Some(w as u128) == spread(n as u128, size_of::<$wide>() as u32),
				format!("widening synch of {}", stringify!($ty)),
				"{n:#x}: {w:#x}"
			);
			// (bits that should not be there change nothing)
			let u = guard(|| n.unsynch())? as u128;
			let want = (0..b).fold(0u128, |o, i| o | ((n as u128) >> (8 * i) & 0x7F) << (7 * i));
			ensure!(u == want, format!("unsynch of {} with high bits", stringify!($ty)), "{n:#x}: {u:#x} expected {want:#x}");
		}};
	}
	check!(u8, u16);
	check!(u16, u32);
	check!(u32, u64);
	Ok(())
}

fn c34_unsync(c: &mut Case) -> R {
	let s = &mut c.src;
	let n = s.size(5000, &[0, 1, 2, 4095, 4096, 4097, 8191, 8192, 8193]);
	let data = id3::sync_blob(s, n);
	let d = id3::unsync(&data);
	let step = *s.pick(&[usize::MAX, 1, 2, 7, 4096]);
	let trip = s.chance(1, 4);
	let mut u = UnsynchronizedStream::new(Bits { d: &d, pos: 0, step, trip });
	let mut out = vec![];
	let mut zero = 0;
	let mut log = vec![];
	loop {
		let n = if s.chance(1, 3) { s.usize(0, 5000) } else { s.usize(0, 9) };
		let mut b = vec![0xAA; n];
		let k = match guard(|| u.read(&mut b))? {
			Ok(k) => k,
			Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
			Err(e) => return fail("unsynchronised stream fails", e.to_string()),
		};
		ensure!(k <= n, "unsynchronised stream reads more than asked", "{k} of {n}");
		if log.len() < 20 {
			log.push(format!("{k}/{n}"));
		}
		out.extend(&b[..k]);
		if k == 0 && n > 0 {
			zero += 1;
			if zero > 1 {
				break;
			}
		}
	}
	let ffs = data.iter().filter(|b| **b == 0xFF).count();
	c.note(|| format!("{} bytes with {ffs} 0xFF, step {step} reads {log:?}", data.len()));
	c.class("streams");
	if ffs > 0 && d.len() > data.len() {
		c.nontrivial();
	}
	ensure!(
		out == data,
		"unsynchronised stream",
		"{} bytes became {} (step {step} reads {log:?}): {:?}",
		data.len(),
		out.len(),
		crate::util::first_diff(&out, &data)
	);
	Ok(())
}

fn c34_scramble(c: &mut Case) -> R {
	let s = &mut c.src;
	let n = s.size(600, &[0, 1, 126, 127, 128, 254]);
	let d = s.blob(n);
	// a shift register: each bit is the exclusive or of the seventh and the sixth before it
	let mut bits: Vec<u8> = vec![1, 1, 1, 1, 1, 1, 1, 0];
	while bits.len() < n * 8 {
		let k = bits.len();
		bits.push(bits[k - 7] ^ bits[k - 6]);
	}
	let want: Vec<u8> = d.iter().enumerate().map(|(i, b)| b ^ (0..8).fold(0, |o, j| o << 1 | bits[i * 8 + j])).collect();
	let mut got = d.clone();
	guard(|| scramble(&mut got))?;
	c.note(|| format!("{n} bytes"));
	c.class("scrambling");
	if n > 1 {
		c.nontrivial();
	}
	ensure!(got == want, "scrambling", "{:?}", crate::util::first_diff(&got, &want));
	guard(|| scramble(&mut got))?;
	ensure!(got == d, "scrambling twice", "{n} bytes");
	Ok(())
}

fn c34_upgrade(c: &mut Case) -> R {
	let s = &mut c.src;
	// the frames of 2.2 and the names they have since
	let all = id3::v22_ids();
	let (old, new) = *s.pick(&all);
	let unknown = *s.pick(&["ZZZ", "TT9", "", "TIT2", "tt2", "PI"]);
	let (old3, new3) = *s.pick(&[("TORY", Some("TDOR")), ("IPLS", Some("TIPL")), ("TIT2", None), ("RVAD", None), ("ZZZZ", None), ("", None)]);
	c.note(|| format!("{old} {new}"));
	c.class("names");
	c.nontrivial();
	ensure!(upgrade_v2(old) == Some(new), "name of a 2.2 frame", "{old}: {:?} expected {new}", upgrade_v2(old));
	ensure!(upgrade_v2(unknown).is_none(), "name of an unknown 2.2 frame", "{unknown}: {:?}", upgrade_v2(unknown));
	ensure!(upgrade_v3(old3) == new3, "name of a 2.3 frame", "{old3}: {:?} expected {new3:?}", upgrade_v3(old3));
	Ok(())
}

pub fn props() -> Vec<Property> {
	vec![Property {
		id: "C34",
		rule: "a frame content, a stream with a byte that needs unsynchronisation, a number above 127 or two bytes of audio",
		assumptions: &[
			"texts are free of NUL and of byte order marks; several values in one frame are not written as 2.3",
			"frames that 2.3 splits or joins (dates, involved people) are checked in whole tags (C12, C13) only",
		],
		suites: vec![
			suite!("frames", 150_000, 3_000_000, c34_frames),
			suite!("objects", 120_000, 2_000_000, c34_objects),
			suite!("synchsafe", 60_000, 1_000_000, c34_synchsafe),
			suite!("unsync", 40_000, 600_000, c34_unsync),
			suite!("scramble", 10_000, 100_000, c34_scramble),
			suite!("names", 2_000, 20_000, c34_upgrade),
		],
	}]
}
