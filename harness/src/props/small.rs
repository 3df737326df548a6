//! C23 picture codecs, C24 timestamps and ratings, C29 Ogg paging.

use crate::engine::{Case, Property, R, Src, Suite, fail, guard};
use crate::ensure;
use crate::fmt::ogg as rogg;
use crate::fmt::tags;
use crate::lg::{self, Cs};
use crate::util::{first_diff, hex};
use lofty::config::{ParsingMode, WriteOptions};
use lofty::ape::{ApeItem, ApeTag};
use lofty::file::AudioFile;
use lofty::id3::v2::{Frame, FrameId, Id3v2Tag, TextInformationFrame, TimestampFrame};
use lofty::picture::{APE_PICTURE_TYPES, MimeType, Picture, PictureInformation, PictureType};
use lofty::tag::items::Timestamp;
use lofty::tag::items::popularimeter::{
	DefaultRatingProvider, MusicBeeProvider, PicardProvider, Popularimeter, RatingProvider, StarRating,
	WindowsMediaPlayerProvider,
};
use lofty::tag::{Accessor, ItemKey, ItemValue, Tag, TagExt, TagType};
use lofty::TextEncoding;
use ogg_pager::{Packets, Page, PageHeader};
use std::io::{Cursor, Seek, SeekFrom};

macro_rules! suite {
	($name:literal, $q:expr, $t:expr, $f:expr) => {
		Suite { name: $name, quick: $q, thorough: $t, run: $f }
	};
}

const MODES: [ParsingMode; 3] = [ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::Relaxed];

// ------------------------------------------------------------------ C23

/// the names of the picture types in APE tags, by ID3v2 picture type
const APE_NAMES: [&str; 21] = [
	"Cover Art (Other)",
	"Cover Art (Png Icon)",
	"Cover Art (Icon)",
	"Cover Art (Front)",
	"Cover Art (Back)",
	"Cover Art (Leaflet)",
	"Cover Art (Media)",
	"Cover Art (Lead Artist)",
	"Cover Art (Artist)",
	"Cover Art (Conductor)",
	"Cover Art (Band)",
	"Cover Art (Composer)",
	"Cover Art (Lyricist)",
	"Cover Art (Recording Location)",
	"Cover Art (During Recording)",
	"Cover Art (During Performance)",
	"Cover Art (Video Capture)",
	"Cover Art (Fish)",
	"Cover Art (Illustration)",
	"Cover Art (Band Logotype)",
	"Cover Art (Publisher Logotype)",
];

fn mime(s: &mut Src) -> Option<MimeType> {
	Some(match s.below(8) {
		0 => return None,
		1 => MimeType::Png,
		2 => MimeType::Jpeg,
		3 => MimeType::Tiff,
		4 => MimeType::Bmp,
		5 => MimeType::Gif,
		6 => MimeType::Unknown("-->".into()),
		_ => MimeType::Unknown(format!("image/{}", lg::short(s))),
	})
}

fn mime_text(m: &Option<MimeType>) -> String {
	match m {
		None => String::new(),
		Some(MimeType::Png) => "image/png".into(),
		Some(MimeType::Jpeg) => "image/jpeg".into(),
		Some(MimeType::Tiff) => "image/tiff".into(),
		Some(MimeType::Bmp) => "image/bmp".into(),
		Some(MimeType::Gif) => "image/gif".into(),
		Some(m) => m.as_str().to_string(),
	}
}

fn some_type(s: &mut Src) -> PictureType {
	match s.below(8) {
		0 => PictureType::from_u8(s.u8()),
		_ => lg::pic_type(s),
	}
}

fn some_picture(s: &mut Src) -> (Picture, PictureInformation) {
	let n = s.size(5000, &[0, 1, 2, 3, 4, 8, 32]);
	let m = mime(s);
	let mut b = Picture::unchecked(s.blob(n)).pic_type(some_type(s));
	if let Some(m) = m {
		b = b.mime_type(m);
	}
	if s.chance(2, 3) {
		b = b.description(lg::text(s, Cs::Any, false));
	}
	let info = PictureInformation { width: s.u32(), height: s.u32(), color_depth: s.u32(), num_colors: s.u32() };
	(b.build(), info)
}

fn c23_flac(c: &mut Case) -> R {
	let (p, info) = some_picture(&mut c.src);
	let enc = c.src.bool();
	c.note(|| format!("{} {info:?} encode {enc}", lg::c_pic(&p)));
	let bytes = p.as_flac_bytes(info, enc);
	let plain = if enc {
		tags::b64_decode(&bytes).ok_or(()).or_else(|()| fail("flac picture base64", "the encoded picture is no base64"))?
	} else {
		bytes.clone()
	};
	let d = tags::flac_picture_decode(&plain).or_else(|e| fail("flac picture layout", e))?;
	let want = tags::FlacPic {
		ty: u32::from(p.pic_type().as_u8()),
		mime: mime_text(&p.mime_type().cloned()).into_bytes(),
		desc: p.description().unwrap_or("").as_bytes().to_vec(),
		info: [info.width, info.height, info.color_depth, info.num_colors],
		data: p.data().to_vec(),
	};
	ensure!(d == want, "flac picture fields", "encoded {d:?}, expected {want:?}");
	for m in MODES {
		let (q, i) = Picture::from_flac_bytes(&bytes, enc, m)
			.or_else(|e| fail("flac picture refused", format!("{m:?}: {e}")))?;
		ensure!(q == p, "flac picture decoded", "{m:?}: {} decodes as {}", lg::c_pic(&p), lg::c_pic(&q));
		ensure!(i == info, "flac picture information", "{m:?}: {info:?} decodes as {i:?}");
	}
	if !p.data().is_empty() {
		c.nontrivial();
	}
	Ok(())
}

/// A block laid out by hand, and the same block damaged.
fn c23_flac_foreign(c: &mut Case) -> R {
	let s = &mut c.src;
	let (p, info) = some_picture(s);
	let case = s.below(3);
	let m = mime_text(&p.mime_type().cloned());
	let m = match case {
		0 => m.to_uppercase(),
		1 if m == "image/jpeg" => "image/jpg".into(),
		_ => m,
	};
	let i = [info.width, info.height, info.color_depth, info.num_colors];
	let raw = tags::flac_picture(u32::from(p.pic_type().as_u8()), &m, p.description().unwrap_or(""), i, p.data());
	let enc = s.bool();
	let pack = |d: &[u8]| if enc { tags::b64_encode(d).into_bytes() } else { d.to_vec() };
	let mode = *s.pick(&MODES);
	c.note(|| format!("{} as {m:?} base64 {enc} {mode:?}", lg::c_pic(&p)));
	let (q, j) = Picture::from_flac_bytes(&pack(&raw), enc, mode).or_else(|e| fail("foreign flac picture refused", format!("{e}")))?;
	let known = MimeType::from_str(&m);
	let same_mime = match q.mime_type() {
		None => m.is_empty(),
		Some(g) => *g == known && (g.as_str() == m || mime_text(&p.mime_type().cloned()) == g.as_str()),
	};
	ensure!(
		same_mime && q.pic_type() == p.pic_type() && q.description() == p.description() && q.data() == p.data() && j == info,
		"foreign flac picture",
		"{} {info:?} under {m:?} decodes as {} {j:?}",
		lg::c_pic(&p),
		lg::c_pic(&q)
	);
	// any prefix is refused, and no length field can point outside the block
	let s = &mut c.src;
	let cut = s.usize(0, raw.len() - 1);
	let r = guard(|| Picture::from_flac_bytes(&pack(&raw[..cut]), enc, mode))?;
	ensure!(r.is_err(), "cut flac picture accepted", "the first {cut} of {} bytes are accepted", raw.len());
	let mut bad = raw.clone();
	let desc_at = 8 + m.len();
	let info_at = desc_at + 4 + p.description().map_or(0, str::len);
	let (what, at) = *s.pick(&[("mime", 4), ("description", desc_at), ("data", info_at + 16)]);
	let v = *s.pick(&[u32::MAX, 0x7FFF_FFFF, raw.len() as u32 + 1, 0x8000_0000, u32::MAX - 12]);
	bad[at..at + 4].copy_from_slice(&v.to_be_bytes());
	let r = guard(|| Picture::from_flac_bytes(&pack(&bad), enc, mode))?;
	if what != "description" {
		ensure!(r.is_err(), "overlong flac picture accepted", "a {what} length of {v} is accepted");
	}
	c.nontrivial();
	Ok(())
}

fn c23_ape(c: &mut Case) -> R {
	let s = &mut c.src;
	let p = lg::picture(s, Cs::Any).pic;
	c.note(|| lg::c_pic(&p));
	let key = APE_NAMES[p.pic_type().as_u8() as usize];
	ensure!(p.pic_type().as_ape_key() == Some(key), "ape key", "{:?} has the key {:?}", p.pic_type(), p.pic_type().as_ape_key());
	ensure!(APE_PICTURE_TYPES.contains(&key), "ape key list", "{key:?} is not listed");
	ensure!(PictureType::from_ape_key(key) == p.pic_type(), "ape key back", "{key:?} gives {:?}", PictureType::from_ape_key(key));
	let bytes = p.as_ape_bytes();
	let mut want = p.description().unwrap_or("").as_bytes().to_vec();
	want.push(0);
	want.extend(p.data());
	ensure!(bytes == want, "ape picture layout", "{}", first_diff(&bytes, &want));
	let q = Picture::from_ape_bytes(key, &bytes).or_else(|e| fail("ape picture refused", format!("{e}")))?;
	ensure!(q == p, "ape picture decoded", "{} decodes as {}", lg::c_pic(&p), lg::c_pic(&q));
	// keys are the same in any case
	let s = &mut c.src;
	let any: String = key.chars().map(|x| if s.bool() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() }).collect();
	let t = PictureType::from_ape_key(&any);
	ensure!(t == p.pic_type(), "ape key in another case", "{any:?} gives {t:?}");
	let q = Picture::from_ape_bytes(&any, &bytes).or_else(|e| fail("ape picture refused", format!("{e}")))?;
	ensure!(q == p, "ape picture decoded", "{any:?}: {} decodes as {}", lg::c_pic(&p), lg::c_pic(&q));
	let mut tag = ApeTag::new();
	tag.insert(ApeItem::new(any.clone(), ItemValue::Binary(bytes)).unwrap());
	let g = Tag::from(tag);
	ensure!(g.pictures() == [p.clone()], "ape picture in a tag", "{any:?}: {} pictures", g.pictures().len());
	c.nontrivial();
	Ok(())
}

const SOFS: [u8; 13] = [0xC0, 0xC1, 0xC2, 0xC3, 0xC5, 0xC6, 0xC7, 0xC9, 0xCA, 0xCB, 0xCD, 0xCE, 0xCF];

/// a JPEG header with any legal sequence of segments before the frame header
fn full_jpeg(s: &mut Src) -> (Vec<u8>, [u32; 4]) {
	let mut v = vec![0xFF, 0xD8];
	let n = s.usize(0, 5);
	for _ in 0..n {
		let m = *s.pick(&[0xE0u8, 0xE1, 0xE2, 0xED, 0xEE, 0xDB, 0xC4, 0xFE, 0xDD, 0xCC]);
		if s.chance(1, 6) {
			v.extend(vec![0xFF; s.usize(1, 4)]);
		}
		let mut d = match s.below(4) {
			0 => vec![],
			// an embedded thumbnail with its own frame header
			1 => lg::jpeg(s.range(1, 200) as u16, s.range(1, 200) as u16, 8, 3, *s.pick(&[0xC0, 0xC2]), 0),
			2 => vec![0xFF; s.usize(1, 20)],
			_ => {
				let n = s.size(70_000, &[0, 65533]).min(65533);
				s.blob(n)
			},
		};
		d.truncate(65533);
		v.extend([0xFF, m]);
		v.extend((d.len() as u16 + 2).to_be_bytes());
		v.extend(d);
	}
	let (w, h) = (s.range(1, 65535) as u16, s.range(1, 65535) as u16);
	let p = *s.pick(&[8u8, 12, 16]);
	let k = *s.pick(&[3u8, 1, 4]);
	if s.chance(1, 6) {
		v.extend(vec![0xFF; s.usize(1, 4)]);
	}
	v.extend([0xFF, *s.pick(&SOFS)]);
	v.extend((8 + u16::from(k) * 3).to_be_bytes());
	v.push(p);
	v.extend(h.to_be_bytes());
	v.extend(w.to_be_bytes());
	v.push(k);
	for i in 0..k {
		v.extend([i + 1, 0x11, 0]);
	}
	v.extend([0xFF, 0xDA, 0, 8, 1, 1, 0, 0, 63, 0, 0x12, 0x34, 0xFF, 0xD9]);
	(v, [w.into(), h.into(), u32::from(p) * u32::from(k), 0])
}

/// a PNG header with any ancillary chunks before the palette
fn full_png(s: &mut Src) -> (Vec<u8>, [u32; 4]) {
	let mut v = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
	let mut chunk = |id: &[u8; 4], d: &[u8]| {
		v.extend((d.len() as u32).to_be_bytes());
		v.extend(id);
		v.extend(d);
		v.extend([0xDE, 0xAD, 0xBE, 0xEF]);
	};
	let (w, h) = (s.range(1, 0x7FFF_FFFF) as u32, s.range(1, 70_000) as u32);
	let (ct, d) = *s.pick(&[
		(0u8, 1u8), (0, 2), (0, 4), (0, 8), (0, 16), (2, 8), (2, 16), (3, 1), (3, 2), (3, 4), (3, 8), (4, 8), (4, 16), (6, 8), (6, 16),
	]);
	let mut ih = w.to_be_bytes().to_vec();
	ih.extend(h.to_be_bytes());
	ih.extend([d, ct, 0, 0, s.below(2) as u8]);
	chunk(b"IHDR", &ih);
	for _ in 0..s.usize(0, 4) {
		let id = *s.pick(&[*b"gAMA", *b"sRGB", *b"tEXt", *b"iCCP", *b"pHYs", *b"eXIf"]);
		let mut d = {
			let n = s.size(300, &[]);
			s.blob(n)
		};
		if s.chance(1, 3) {
			d.extend(b"\0\0\0\x09PLTE123456789");
		}
		chunk(&id, &d);
	}
	let colors = s.range(1, 1 << d.min(8)) as u32;
	// a suggested palette is legal in true colour images and says nothing about their colours
	if ct == 3 || ((ct == 2 || ct == 6) && s.chance(1, 4)) {
		chunk(b"PLTE", &vec![9; colors as usize * 3]);
	}
	chunk(b"IDAT", &[0; 16]);
	chunk(b"IEND", &[]);
	let depth = u32::from(d) * [1, 1, 3, 1, 2, 1, 4][ct as usize];
	(v, [w, h, depth, if ct == 3 { colors } else { 0 }])
}

fn c23_info(c: &mut Case) -> R {
	let s = &mut c.src;
	let jpeg = s.bool();
	let (data, want) = if jpeg { full_jpeg(s) } else { full_png(s) };
	let name = if jpeg { "jpeg" } else { "png" };
	c.class(if jpeg { "JPEG" } else { "PNG" });
	c.note(|| format!("{name} of {} bytes {} states {want:?}", data.len(), hex(&data[..data.len().min(80)])));
	let as4 = |i: PictureInformation| [i.width, i.height, i.color_depth, i.num_colors];
	let got = if jpeg { PictureInformation::from_jpeg(&data) } else { PictureInformation::from_png(&data) };
	let got = got.or_else(|e| fail(format!("{name} header refused"), format!("{e}")))?;
	ensure!(as4(got) == want, format!("{name} information"), "{got:?}, the header states {want:?}");
	let p = Picture::from_reader(&mut &data[..]).or_else(|e| fail("image refused", format!("{e}")))?;
	ensure!(p.mime_type() == Some(if jpeg { &MimeType::Jpeg } else { &MimeType::Png }), "image mime", "{:?}", p.mime_type());
	ensure!(p.data() == data, "image data", "{}", first_diff(p.data(), &data));
	let got = PictureInformation::from_picture(&p).or_else(|e| fail("from_picture refused", format!("{e}")))?;
	ensure!(as4(got) == want, format!("{name} from_picture"), "{got:?}, the header states {want:?}");
	// the other parser refuses it
	let other = if jpeg { PictureInformation::from_png(&data) } else { PictureInformation::from_jpeg(&data) };
	ensure!(other.is_err(), "wrong image accepted", "a {name} is accepted by the other parser as {other:?}");
	// a header cut anywhere is an error or the same dimensions, never a crash
	let s = &mut c.src;
	let cut = s.usize(0, data.len() - 1);
	let short = &data[..cut];
	let r = guard(|| if jpeg { PictureInformation::from_jpeg(short) } else { PictureInformation::from_png(short) })?;
	if let Ok(i) = r {
		ensure!(as4(i)[..3] == want[..3], "cut image misread", "the first {cut} bytes give {i:?}, expected {want:?}");
	}
	c.nontrivial();
	Ok(())
}

/// MIME types by signature
fn c23_sniff(c: &mut Case) -> R {
	let s = &mut c.src;
	let (data, want) = if s.chance(3, 4) {
		let (d, m, _) = lg::image(s);
		(d, Some(m))
	} else {
		let (mut d, m, _) = lg::image(s);
		// a damaged signature
		let need = match m {
			MimeType::Png => 8,
			MimeType::Gif => 6,
			MimeType::Tiff => 4,
			_ => 2,
		};
		let i = s.usize(0, need - 1);
		d[i] ^= 0x80;
		(d, None)
	};
	c.note(|| format!("{} is {want:?}", hex(&data[..data.len().min(16)])));
	let r = Picture::from_reader(&mut &data[..]);
	match (&r, &want) {
		(Ok(p), Some(m)) => {
			ensure!(p.mime_type() == Some(m) && p.data() == data, "sniffed mime", "{m:?} read as {:?}", p.mime_type());
			ensure!(p.pic_type() == PictureType::Other && p.description().is_none(), "sniffed picture", "{}", lg::c_pic(p));
		},
		(Err(_), None) => {},
		_ => return fail("sniffed wrongly", format!("{want:?} read as {:?}", r.map(|p| p.mime_type().cloned()).map_err(|e| e.to_string()))),
	}
	for m in [MimeType::Png, MimeType::Jpeg, MimeType::Tiff, MimeType::Bmp, MimeType::Gif] {
		let t = mime_text(&Some(m.clone()));
		let s = &mut c.src;
		let t2: String = t.chars().map(|ch| if s.bool() { ch.to_ascii_uppercase() } else { ch }).collect();
		ensure!(MimeType::from_str(&t2) == m && m.as_str() == t && m.to_string() == t, "mime text", "{t2:?} is {:?}", MimeType::from_str(&t2));
	}
	let b = c.src.u8();
	ensure!(PictureType::from_u8(b).as_u8() == b, "picture type number", "{b} gives {:?}", PictureType::from_u8(b));
	let k = PictureType::from_u8(b).as_ape_key().map(str::to_string);
	ensure!(k.as_deref() == APE_NAMES.get(b as usize).copied(), "picture type key", "{b} has the key {k:?}");
	c.nontrivial();
	Ok(())
}

// ------------------------------------------------------------------ C24

fn valid_stamp(s: &mut Src) -> Timestamp {
	let mut t = Timestamp { year: s.range(0, 9999) as u16, ..Default::default() };
	let depth = s.below(6);
	let f = |s: &mut Src, lo: u64, hi: u64| Some(*s.pick(&[lo, hi, (lo + hi) / 2, 9.min(hi), 10.min(hi)]) as u8).filter(|_| true);
	let any = |s: &mut Src, lo: u64, hi: u64| if s.bool() { f(s, lo, hi) } else { Some(s.range(lo, hi) as u8) };
	if depth > 0 {
		t.month = any(s, 1, 12);
	}
	if depth > 1 {
		t.day = any(s, 1, 31);
	}
	if depth > 2 {
		t.hour = any(s, 0, 23);
	}
	if depth > 3 {
		t.minute = any(s, 0, 59);
	}
	if depth > 4 {
		t.second = any(s, 0, 59);
	}
	t
}

fn parts(t: &Timestamp) -> Vec<u32> {
	let mut v = vec![u32::from(t.year)];
	v.extend([t.month, t.day, t.hour, t.minute, t.second].iter().map_while(|x| x.map(u32::from)));
	v
}

fn render(t: &Timestamp, seps: [&str; 5]) -> String {
	let p = parts(t);
	let mut o = format!("{:04}", p[0]);
	for (i, n) in p[1..].iter().enumerate() {
		o += seps[i];
		o += &format!("{n:02}");
	}
	o
}

fn c24_stamps(c: &mut Case) -> R {
	let s = &mut c.src;
	let t = valid_stamp(s);
	let p = parts(&t);
	let text = t.to_string();
	let want = render(&t, ["-", "-", "T", ":", ":"]);
	c.note(|| format!("{t:?} {text}"));
	ensure!(text == want, "timestamp text", "{t:?} prints as {text:?}, expected {want:?}");
	let parse = |x: &str, m: ParsingMode| guard(|| Timestamp::parse(&mut x.as_bytes(), m));
	for m in MODES {
		let r = parse(&text, m)?;
		ensure!(matches!(r, Ok(Some(u)) if u == t), format!("timestamp parse {m:?}"), "{text:?} parses as {r:?}");
		let tight = render(&t, ["", "", "T", "", ""]);
		let r = parse(&tight, m)?;
		ensure!(matches!(r, Ok(Some(u)) if u == t), format!("timestamp parse compact {m:?}"), "{tight:?} parses as {r:?}");
	}
	let r = text.parse::<Timestamp>();
	ensure!(matches!(r, Ok(u) if u == t), "timestamp from_str", "{text:?} parses as {r:?}");
	// what tolerant modes accept for the same time
	let s = &mut c.src;
	let m = *s.pick(&MODES[1..]);
	let ws = *s.pick(&["", " ", "\t\n ", "   "]);
	let sep = *s.pick(&["-", "."]);
	let sep2 = *s.pick(&["-", "."]);
	let mut loose = format!("{ws}{:04}", p[0]);
	let pad = s.below(3);
	for (i, n) in p[1..].iter().enumerate() {
		loose += [sep, sep2, "T", ":", ":"][i];
		let last = i + 2 == p.len();
		loose += &match pad {
			0 => format!("{n:02}"),
			1 => format!("{n:>2}"),
			_ if last => format!("{n:02}"),
			_ => format!("{n}"),
		};
	}
	if p.len() == 6 {
		loose += *s.pick(&["", "Z", "+02:00", ".123", "rubbish"]);
		if pad == 2 && loose.len() > 19 + ws.len() {
			loose = loose.trim_end_matches(|ch: char| !ch.is_ascii_digit()).to_string();
		}
	}
	let digits_after = p.len() == 6 && pad == 2;
	if !digits_after {
		let r = parse(&loose, m)?;
		ensure!(matches!(r, Ok(Some(u)) if u == t), format!("timestamp parse loose {m:?}"), "{loose:?} parses as {r:?}, expected {t:?}");
	}
	if !ws.is_empty() || (sep == "." && p.len() > 1) || (pad == 1 && p[1..].iter().any(|n| *n < 10)) {
		let r = parse(&loose, ParsingMode::Strict)?;
		ensure!(r.is_err(), "strict accepts loose timestamp", "{loose:?} parses as {r:?}");
	}
	if p.len() > 1 {
		c.nontrivial();
	}
	Ok(())
}

/// the strict grammar: YYYY[-MM[-DD[THH[:MM[:SS]]]]], or the same without the separators other than T
fn strict(text: &[u8]) -> Option<Vec<u32>> {
	let t = &text[..text.len().min(19)];
	let num = |d: &[u8]| -> Option<u32> {
		d.iter().try_fold(0u32, |a, b| b.is_ascii_digit().then(|| a * 10 + u32::from(b - b'0')))
	};
	if t.len() < 4 {
		return None;
	}
	let sep = t.iter().any(|b| b"-.:".contains(b));
	let mut v = vec![num(&t[..4])?];
	let mut rest = &t[4..];
	for i in 0..5 {
		if rest.is_empty() {
			break;
		}
		let want: &[u8] = if i == 2 {
			b"T"
		} else if !sep {
			b""
		} else if i < 2 {
			b"-"
		} else {
			b":"
		};
		rest = rest.strip_prefix(want)?;
		if rest.len() < 2 {
			return None;
		}
		v.push(num(&rest[..2])?);
		rest = &rest[2..];
	}
	Some(v)
}

/// whether the numbers can be read off the digits, up to `w` digits for the first and two for the others
fn from_digits(d: &[u8], nums: &[u32], w: usize) -> bool {
	let Some((n, rest)) = nums.split_first() else { return true };
	(1..=w.min(d.len())).any(|k| {
		d[..k].iter().fold(0, |a, b| a * 10 + u32::from(b - b'0')) == *n && from_digits(&d[k..], rest, 2)
	})
}

fn c24_grammar(c: &mut Case) -> R {
	let s = &mut c.src;
	let mut text = {
		let t = valid_stamp(s);
		let compact = s.chance(1, 4);
		render(&t, if compact { ["", "", "T", "", ""] } else { ["-", "-", "T", ":", ":"] }).into_bytes()
	};
	for _ in 0..s.usize(0, 3) {
		let ch = *s.pick(b"0123456789-.:T tZ/\0\xC3\xE9\n");
		match s.below(4) {
			0 if !text.is_empty() => {
				let i = s.usize(0, text.len() - 1);
				text[i] = ch;
			},
			1 if !text.is_empty() => {
				let i = s.usize(0, text.len() - 1);
				text.remove(i);
			},
			2 => {
				let i = s.usize(0, text.len());
				text.insert(i, ch);
			},
			_ => {
				let n = s.usize(0, text.len());
				text.truncate(n);
			},
		}
	}
	let shown = text.escape_ascii().to_string();
	c.note(|| shown.clone());
	let want = strict(&text);
	let parse = |m: ParsingMode| guard(|| Timestamp::parse(&mut &text[..], m).map_err(|e| e.to_string()));
	let got = parse(ParsingMode::Strict)?;
	match (&got, &want) {
		(Ok(Some(t)), Some(p)) => ensure!(parts(t) == *p, "strict timestamp value", "{shown:?} parses as {t:?}, expected {p:?}"),
		(Err(_), None) => {},
		_ => return fail("strict timestamp grammar", format!("{shown:?} parses as {got:?}, expected {want:?}")),
	}
	for m in &MODES[1..] {
		let r = parse(*m)?;
		if let Some(p) = &want {
			ensure!(matches!(&r, Ok(Some(t)) if parts(t) == *p), "lenient timestamp differs", "{shown:?} parses as {r:?} in {m:?}, expected {p:?}");
		}
		// whatever is understood prints as a timestamp of the same value
		if let Ok(Some(t)) = r {
			let back = Timestamp::parse(&mut t.to_string().as_bytes(), ParsingMode::Strict);
			ensure!(matches!(back, Ok(Some(u)) if u == t), "lenient timestamp print", "{shown:?} parses as {t:?}, prints as {t}, which parses as {back:?}");
			// and its fields come from the digits of the text, in order
			let digits: Vec<u8> = text.iter().copied().filter(u8::is_ascii_digit).collect();
			ensure!(from_digits(&digits, &parts(&t), 4), "timestamp digits", "{shown:?} parses as {t:?}");
		}
	}
	if want.is_none() {
		c.nontrivial();
	}
	Ok(())
}

fn c24_order(c: &mut Case) -> R {
	let s = &mut c.src;
	let a = valid_stamp(s);
	let mut b = valid_stamp(s);
	// close to each other
	if s.chance(2, 3) {
		b = a;
		for _ in 0..s.usize(0, 2) {
			let d = if s.bool() { 1u8 } else { 255 };
			match s.below(6) {
				0 => b.year = b.year.wrapping_add_signed(d as i8 as i16).min(9999),
				1 => b.month = b.month.map(|x| x.wrapping_add(d).clamp(1, 12)),
				2 => b.day = b.day.map(|x| x.wrapping_add(d).clamp(1, 31)),
				3 => b.hour = b.hour.map(|x| x.wrapping_add(d).min(23)),
				4 => b.minute = b.minute.map(|x| x.wrapping_add(d).min(59)),
				_ => b.second = b.second.map(|x| x.wrapping_add(d).min(59)),
			}
		}
	}
	c.note(|| format!("{a} {b}"));
	let want = parts(&a).cmp(&parts(&b));
	ensure!(a.cmp(&b) == want, "timestamp order", "{a} compares {:?} to {b}", a.cmp(&b));
	ensure!(b.cmp(&a) == want.reverse() && a.partial_cmp(&b) == Some(want) && (a == b) == want.is_eq(), "timestamp order laws", "{a} {b}");
	// the texts agree as well
	ensure!(a.to_string().cmp(&b.to_string()) == want, "timestamp text order", "{a} {b}");
	if want.is_ne() {
		c.nontrivial();
	}
	Ok(())
}

/// Fields outside their limits, or without the field they belong to, are never written.
fn c24_encode(c: &mut Case) -> R {
	let s = &mut c.src;
	let mut t = valid_stamp(s);
	let lim = [12u8, 31, 23, 59, 59];
	let mut bad = false;
	match s.below(8) {
		0 => {
			t.year = s.range(10000, 65535) as u16;
			bad = true;
		},
		n @ 1..=5 => {
			let i = n as usize - 1;
			let over = s.range(u64::from(lim[i]) + 1, 255) as u8;
			let f = [&mut t.month, &mut t.day, &mut t.hour, &mut t.minute, &mut t.second];
			let f = f.into_iter().nth(i).unwrap();
			if f.is_some() {
				*f = Some(over);
				bad = true;
			}
		},
		6 => {
			// a gap
			if t.second.is_some() {
				match s.below(4) {
					0 => t.month = None,
					1 => t.day = None,
					2 => t.hour = None,
					_ => t.minute = None,
				}
				bad = true;
			}
		},
		_ => {},
	}
	let id = *s.pick(&["TDRC", "TDOR", "TDRL", "TDEN", "TDTG"]);
	c.note(|| format!("{id} {t:?}"));
	let mut tag = Id3v2Tag::new();
	tag.insert(Frame::Timestamp(TimestampFrame::new(FrameId::new(id).unwrap(), TextEncoding::UTF8, t)));
	let mut out = vec![];
	let r = guard(|| tag.dump_to(&mut out, WriteOptions::new().preferred_padding(0)))?;
	if bad {
		ensure!(r.is_err(), "invalid timestamp written", "{t:?} is written: {}", hex(&out));
		c.nontrivial();
		return Ok(());
	}
	ensure!(r.is_ok(), "valid timestamp refused", "{t:?}: {:?}", r.err().map(|e| e.to_string()));
	let mut want = vec![3u8];
	want.extend(t.to_string().as_bytes());
	let (_, frames, _) = tags::id3v2_decode(&out).or_else(|e| fail("timestamp frame layout", e))?;
	ensure!(
		frames.len() == 1 && frames[0].id == id.as_bytes() && frames[0].data.iter().filter(|b| **b != 0).eq(want.iter()),
		"timestamp frame",
		"{t:?} written as {frames:?}"
	);
	Ok(())
}

/// Number pairs as other software writes them.
fn c24_pairs(c: &mut Case) -> R {
	let s = &mut c.src;
	let num = |s: &mut Src| match s.below(4) {
		0 => u64::from(s.u32()),
		1 => s.range(u64::from(u32::MAX) - 1, u64::from(u32::MAX) + 2),
		_ => s.range(0, 300),
	};
	let part = |s: &mut Src| -> (String, Option<u32>) {
		match s.below(6) {
			0 => (String::new(), None),
			1 => ((*s.pick(&["A", "x1", "-1", "1.5", "?"])).to_string(), None),
			2 => {
				let n = num(s);
				(format!("{n:04}"), u32::try_from(n).ok())
			},
			_ => {
				let n = num(s);
				(n.to_string(), u32::try_from(n).ok())
			},
		}
	};
	let (a, x) = part(s);
	let (text, x, y) = if s.chance(2, 3) {
		let (b, y) = part(s);
		(format!("{a}/{b}"), x, y)
	} else {
		(a, x, None)
	};
	let disc = s.bool();
	let ape = s.bool();
	c.note(|| format!("{text:?} disc {disc} ape {ape}"));
	let got = if ape {
		let mut t = ApeTag::new();
		let k = if disc { "Disc" } else { "Track" };
		t.insert(ApeItem::new(k.into(), ItemValue::Text(text.clone())).unwrap());
		if disc { (t.disk(), t.disk_total()) } else { (t.track(), t.track_total()) }
	} else {
		let mut t = Id3v2Tag::new();
		let k = if disc { "TPOS" } else { "TRCK" };
		t.insert(Frame::Text(TextInformationFrame::new(FrameId::new(k).unwrap(), TextEncoding::UTF8, text.clone())));
		if disc { (t.disk(), t.disk_total()) } else { (t.track(), t.track_total()) }
	};
	ensure!(got == (x, y), format!("number pair {}", if ape { "APE" } else { "ID3v2" }), "{text:?} reads as {got:?}, expected {:?}", (x, y));
	if text.contains('/') {
		c.nontrivial();
	}
	Ok(())
}

// Genres: what TCON frames say, in the two ways of writing several of them

fn genre_number(n: u64) -> String {
	crate::genres::GENRES.get(n as usize).map_or_else(|| n.to_string(), |g| (*g).to_string())
}

/// a genre as written, and what it means
fn one_genre(s: &mut Src) -> (String, String) {
	match s.below(8) {
		0..=2 => {
			let n = if s.chance(1, 4) { *s.pick(&[0, 1, 9, 10, 99, 100, 190, 191, 192, 255]) } else { s.below(256) };
			(n.to_string(), genre_number(n))
		},
		3 => ("RX".into(), "Remix".into()),
		4 => ("CR".into(), "Cover".into()),
		5 => {
			let g = *s.pick(&crate::genres::GENRES);
			(g.to_string(), g.to_string())
		},
		_ => {
			let mut t: String = lg::short(s).replace(['(', ')'], "-");
			if t.parse::<u64>().is_ok() || t == "RX" || t == "CR" || t.is_empty() || t.starts_with('+') {
				t.insert(0, 'x');
			}
			(t.clone(), t)
		},
	}
}

fn c24_genres(c: &mut Case) -> R {
	let s = &mut c.src;
	let mut want = vec![];
	let mut text = String::new();
	let old = s.bool();
	if old {
		// (n)(m)refinement
		for _ in 0..s.usize(0, 4) {
			let (w, m) = one_genre(s);
			text.push_str(&format!("({w})"));
			want.push(m);
		}
		match s.below(3) {
			0 if !want.is_empty() => {},
			1 => {
				// an opening parenthesis is doubled
				let (w, m) = one_genre(s);
				if w != m || w.len() < 4 {
					text.push_str("((of some kind)");
					want.push("(of some kind)".into());
				} else {
					text.push_str(&format!("(({w})"));
					want.push(format!("({m})"));
				}
			},
			_ => {
				let (w, m) = one_genre(s);
				text.push_str(&w);
				want.push(m);
			},
		}
	} else {
		for i in 0..s.usize(1, 4) {
			let (w, m) = one_genre(s);
			if i > 0 {
				text.push('\0');
			}
			text.push_str(&w);
			want.push(m);
		}
	}
	let v3 = s.bool();
	c.note(|| format!("{text:?}, means {want:?}, saved as 2.{}", if v3 { 3 } else { 4 }));
	c.class(if old { "parenthesised" } else { "separated" });
	if want.len() > 1 {
		c.nontrivial();
	}
	let mut t = Id3v2Tag::new();
	t.insert(Frame::Text(TextInformationFrame::new(FrameId::new("TCON").unwrap(), TextEncoding::UTF16, text.clone())));
	let check = |t: &Id3v2Tag, when: &str| -> R {
		let got: Vec<&str> = t.genres().into_iter().flatten().collect();
		ensure!(got == want, format!("genres {when}"), "{text:?} reads as {got:?}, expected {want:?}");
		let joined = want.join(" / ");
		ensure!(t.genre().as_deref() == Some(&joined), format!("genre accessor {when}"), "{text:?} reads as {:?}, expected {joined:?}", t.genre());
		Ok(())
	};
	check(&t, "in memory")?;
	let g = guard(|| Tag::from(t.clone()))?;
	let got: Vec<&str> = g.get_strings(ItemKey::Genre).collect();
	ensure!(got == want, "genres converted", "{text:?} converts to {got:?}, expected {want:?}");
	// (writing the older version has its own way to write lists, for which only plain values are clear)
	if v3 && want.iter().any(|w| w.contains('(')) {
		return Ok(());
	}
	let s = &mut c.src;
	let mut out = vec![];
	let o = WriteOptions::new().use_id3v23(v3);
	if let Err(e) = guard(|| t.dump_to(&mut out, o))? {
		return fail("genres cannot be written", format!("{text:?}: {e}"));
	}
	out.extend(crate::fmt::raw::gen_mp3(s).0);
	let f = guard(|| lofty::mpeg::MpegFile::read_from(&mut Cursor::new(&out), lofty::config::ParseOptions::new()))?;
	let Some(t) = f.as_ref().ok().and_then(|f| f.id3v2()) else {
		return fail("genres cannot be read back", format!("{text:?}: {:?}", f.as_ref().err()));
	};
	check(t, if v3 { "read from 2.3" } else { "read from 2.4" })
}

fn stars(n: u8) -> StarRating {
	match n {
		1 => StarRating::One,
		2 => StarRating::Two,
		3 => StarRating::Three,
		4 => StarRating::Four,
		_ => StarRating::Five,
	}
}

fn c24_ratings(c: &mut Case) -> R {
	let s = &mut c.src;
	let mut t = Tag::new(*s.pick(&[TagType::Id3v2, TagType::VorbisComments, TagType::Ape, TagType::Mp4Ilst, TagType::RiffInfo]));
	let mut want = vec![];
	for _ in 0..s.usize(1, 4) {
		let n = s.range(1, 5) as u8;
		let count = match s.below(4) {
			0 => u64::MAX,
			1 => 0,
			2 => u64::from(s.u32()),
			_ => s.range(0, 1 << 40),
		};
		let (p, email) = match s.below(5) {
			0 => (Popularimeter::musicbee(stars(n), count), "MusicBee".to_string()),
			1 => (Popularimeter::windows_media_player(stars(n), count), "Windows Media Player 9 Series".to_string()),
			2 => (Popularimeter::picard(stars(n), count), "users@musicbrainz.org".to_string()),
			_ => {
				let e = match s.below(3) {
					0 => String::new(),
					1 => format!("{}|{}", lg::short(s), s.below(9)),
					_ => lg::text(s, Cs::Any, false),
				};
				(Popularimeter::custom(e.clone(), stars(n), count), e)
			},
		};
		ensure!(p.rating() == stars(n) && p.email().unwrap_or("") == email && p.play_counter == count, "rating fields", "{p:?}");
		ensure!(p.to_string() == format!("{email}|{n}|{count}"), "rating text", "{p:?} prints as {p}");
		t.push_unchecked(lofty::tag::TagItem::new(ItemKey::Popularimeter, lofty::tag::ItemValue::Text(p.to_string())));
		want.push((email, n, count));
	}
	// text that is no rating is skipped
	for bad in ["", "a", "a|3", "a|0|1", "a|6|1", "a|x|1", "a|3|-1", "a|3|x", "|", "||", "a|3|18446744073709551616"] {
		if s.chance(1, 6) {
			t.push_unchecked(lofty::tag::TagItem::new(ItemKey::Popularimeter, lofty::tag::ItemValue::Text(bad.into())));
		}
	}
	c.note(|| format!("{want:?}"));
	let got: Vec<_> = t.ratings().map(|p| (p.email().unwrap_or("").to_string(), p.rating() as u8, p.play_counter)).collect();
	ensure!(got == want, "ratings read back", "{want:?} read as {got:?}");
	c.nontrivial();
	Ok(())
}

fn c24_providers(c: &mut Case) -> R {
	let s = &mut c.src;
	let ty = *s.pick(&lg::ALL_TYPES);
	let id3 = ty == TagType::Id3v2;
	// the documented value of 1 to 5 stars
	let (p, table): (Box<dyn RatingProvider>, [u8; 5]) = match s.below(4) {
		0 => (Box::new(MusicBeeProvider), if id3 { [1, 64, 128, 196, 255] } else { [20, 40, 60, 80, 100] }),
		1 => (Box::new(DefaultRatingProvider), if id3 { [1, 64, 128, 196, 255] } else { [20, 40, 60, 80, 100] }),
		2 => (Box::new(WindowsMediaPlayerProvider), [1, 64, 128, 196, 255]),
		_ => (Box::new(PicardProvider), if id3 { [51, 102, 153, 204, 255] } else { [5, 10, 15, 20, 25] }),
	};
	c.note(|| format!("{ty:?} {table:?}"));
	for n in 1..=5u8 {
		let v = p.rate(ty, stars(n));
		ensure!(v == table[n as usize - 1], "rating value", "{n} stars are {v} in {ty:?}, documented {table:?}");
		ensure!(p.convert_raw(ty, v) == stars(n), "rating back", "{n} stars are {v} in {ty:?}, which gives {:?}", p.convert_raw(ty, v));
	}
	for v in 0..=255u8 {
		let n = p.convert_raw(ty, v) as u8;
		let want = table.iter().position(|t| v <= *t).map_or(5, |i| i as u8 + 1);
		ensure!(n == want, "rating steps", "{v} gives {n} stars in {ty:?}, expected {want}");
	}
	c.nontrivial();
	Ok(())
}

// ------------------------------------------------------------------ C29

fn packet(s: &mut Src, max: usize) -> Vec<u8> {
	let n = s.size(max, &[0, 1, 254, 255, 256, 509, 510, 511, 7905, 8159, 8160, 8161, 16319, 16320, 16321, 65024, 65025, 65026, 65280]);
	s.blob(n)
}

fn packets(s: &mut Src, empty: bool) -> Vec<Vec<u8>> {
	let big = s.chance(1, 8);
	let n = s.usize(1, if big { 3 } else { 8 });
	(0..n)
		.map(|_| {
			let mut p = packet(s, if big { 150_000 } else { 4000 });
			if p.is_empty() && !empty {
				p.push(7);
			}
			p
		})
		.collect()
}

fn sizes(p: &[Vec<u8>]) -> Vec<usize> {
	p.iter().map(Vec::len).collect()
}

fn same_packets<'a>(got: impl Iterator<Item = &'a [u8]>, want: &[Vec<u8>], sig: &str) -> R {
	let got: Vec<&[u8]> = got.collect();
	ensure!(
		got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a == b),
		sig,
		"packets of {:?} bytes, expected {:?}",
		got.iter().map(|p| p.len()).collect::<Vec<_>>(),
		sizes(want)
	);
	Ok(())
}

fn c29_paginate(c: &mut Case) -> R {
	let s = &mut c.src;
	let want = packets(s, true);
	let serial = s.u32();
	let abgp = *s.pick(&[0, 1, 12345, u64::MAX - 1, 1 << 40]);
	let flags = *s.pick(&[0u8, 2, 4, 6]);
	let pre = {
		let n = s.size(300, &[0]);
		s.blob(n)
	};
	let how = s.below(3);
	c.note(|| format!("{:?} serial {serial:x} granule {abgp} flags {flags} how {how}", sizes(&want)));
	let mut pages = match how {
		0 => ogg_pager::paginate(want.iter().map(|p| &p[..]), serial, abgp, flags),
		1 => {
			// through a packet list read from some other paging, replaced packet by packet
			let other: Vec<Vec<u8>> = (0..want.len()).map(|i| vec![i as u8; 3]).collect();
			let d: Vec<u8> = rogg::paginate(&other, 1, 0, &[], &[5], &[]).iter().flat_map(rogg::Page::to_bytes).collect();
			let mut l = Packets::read(&mut Cursor::new(&d)).or_else(|e| fail("packets refused", e.to_string()))?;
			for (i, p) in want.iter().enumerate() {
				ensure!(l.set(i, p.clone()), "packet set", "packet {i} of {} cannot be set", want.len());
			}
			ensure!(!l.set(want.len(), vec![1]), "packet set beyond", "a packet beyond the end was set");
			l.paginate(serial, abgp, flags)
		},
		_ => {
			let d: Vec<u8> = rogg::paginate(&want, 1, 0, &[], &[9], &[]).iter().flat_map(rogg::Page::to_bytes).collect();
			let l = Packets::read(&mut Cursor::new(&d)).or_else(|e| fail("packets refused", e.to_string()))?;
			let mut out = pre.clone();
			let n = l.write_to(&mut out, serial, abgp, flags).or_else(|e| fail("write_to refused", e.to_string()))?;
			let got = l.paginate(serial, abgp, flags);
			if let Ok(p) = &got {
				let mut all = pre.clone();
				for q in p {
					let mut q = q.clone();
					q.gen_crc();
					all.extend(q.as_bytes());
				}
				ensure!(n == p.len() && all == out, "write_to differs from paginate", "{n} pages, {}; {}", p.len(), first_diff(&out, &all));
			}
			got
		},
	}
	.or_else(|e| fail("paginate refused", e.to_string()))?;
	let mut bytes = pre.clone();
	for (i, p) in pages.iter_mut().enumerate() {
		p.gen_crc();
		let b = p.as_bytes();
		ensure!(p.header().sequence_number as usize == i && p.header().stream_serial == serial, "page header", "page {i}: {:?}", p.header());
		ensure!(p.header().content_size() == p.content().len(), "page content size", "page {i}: {}", p.header().content_size());
		bytes.extend(b);
	}
	// judged by an independent reader: checksums, lacing, sequence, continuation
	let raw = rogg::parse_pages(&bytes[pre.len()..]).or_else(|e| fail("invalid page", e))?;
	let got = rogg::packets(&raw).or_else(|e| fail("invalid paging", e))?;
	ensure!(got.iter().all(|p| p.complete), "open packet", "the last packet never ends");
	same_packets(got.iter().map(|p| &p.data[..]), &want, "packets in pages")?;
	for (i, p) in raw.iter().enumerate() {
		ensure!((p.flags & 2 != 0) == (i == 0 && flags & 2 != 0), "first page flag", "page {i} has flags {}, asked for {flags}", p.flags);
		ensure!((p.flags & 4 != 0) == (i + 1 == raw.len() && flags & 4 != 0), "last page flag", "page {i} of {} has flags {}, asked for {flags}", raw.len(), p.flags);
		let ends = got.iter().any(|q| q.page == i);
		let g = if ends { abgp } else { u64::MAX };
		ensure!(p.granule == g, "page position", "page {i} has the position {}, a packet ends there: {ends}", p.granule);
	}
	// and by the library's own
	let mut r = Cursor::new(&bytes);
	r.seek(SeekFrom::Start(pre.len() as u64)).unwrap();
	let back = Packets::read(&mut r).or_else(|e| fail("own pages refused", e.to_string()))?;
	same_packets(back.iter(), &want, "packets read back")?;
	if want.iter().any(|p| p.len() >= 255) || want.len() > 1 {
		c.nontrivial();
	}
	Ok(())
}

/// Packets laid out by another multiplexer: any number of segments per page, packets sharing pages.
fn c29_foreign(c: &mut Case) -> R {
	let s = &mut c.src;
	let want = packets(s, true);
	let plan: Vec<usize> = (0..s.usize(1, 6)).map(|_| *s.pick(&[1usize, 2, 3, 17, 32, 254, 255])).collect();
	let brk: Vec<usize> = (0..want.len()).filter(|_| s.chance(1, 3)).collect();
	let serial = s.u32();
	let pages = rogg::paginate(&want, serial, s.u32(), &[1, 2, 3], &plan, &brk);
	let pre = {
		let n = s.size(300, &[0]);
		s.blob(n)
	};
	let mut bytes = pre.clone();
	let mut ends = vec![]; // where each packet's data ends
	for p in &pages {
		let at = bytes.len() + 27 + p.segs.len();
		let mut off = 0;
		for n in &p.segs {
			off += *n as usize;
			if *n < 255 {
				ends.push(at + off);
			}
		}
		bytes.extend(p.to_bytes());
	}
	let count = s.usize(0, want.len() + 1);
	let mut r = Cursor::new(&bytes);
	r.set_position(pre.len() as u64);
	c.note(|| format!("{:?} pages of {plan:?} breaks {brk:?} count {count}", sizes(&want)));
	let got = Packets::read_count(&mut r, count as isize);
	if count > want.len() {
		ensure!(got.is_err(), "missing packet accepted", "{count} packets read from {}", want.len());
	} else {
		let got = got.or_else(|e| fail("counted packets refused", e.to_string()))?;
		same_packets(got.iter(), &want[..count], "counted packets")?;
		ensure!(got.len() == count && got.is_empty() == (count == 0), "packet count", "{} of {count}", got.len());
		let end = if count == 0 { pre.len() } else { ends[count - 1] };
		ensure!(r.position() as usize == end, "reader position", "left at {} after {count} packets, which end at {end}", r.position());
		for i in 0..count + 1 {
			ensure!(got.get(i) == want[..count].get(i).map(|p| &p[..]), "packet get", "packet {i} differs");
		}
		same_packets((&got).into_iter(), &want[..count], "packet iteration")?;
	}
	let mut r = Cursor::new(&bytes);
	r.set_position(pre.len() as u64);
	let all = Packets::read(&mut r).or_else(|e| fail("packets refused", e.to_string()))?;
	same_packets(all.iter(), &want, "all packets")?;
	// replacing one packet changes that one
	let s = &mut c.src;
	let mut m = want.clone();
	let mut all = all;
	for _ in 0..s.usize(0, 4) {
		let i = s.usize(0, m.len() - 1);
		let p = packet(s, 600);
		m[i] = p.clone();
		ensure!(all.set(i, p), "packet set", "packet {i} cannot be set");
		same_packets(all.iter(), &m, "packets after set")?;
	}
	if pages.len() > 1 {
		c.nontrivial();
	}
	Ok(())
}

fn c29_page(c: &mut Case) -> R {
	let s = &mut c.src;
	let n = *s.pick(&[3usize, 40, 255]);
	let n = s.usize(1, n);
	let segs: Vec<u8> = (0..n).map(|_| if s.chance(2, 3) { 255 } else { s.u8() }).collect();
	let len: usize = segs.iter().map(|b| *b as usize).sum();
	let p = rogg::Page {
		flags: s.below(8) as u8,
		granule: s.range(0, u64::MAX - 1),
		serial: s.u32(),
		seq: s.u32(),
		segs,
		body: s.blob(len),
	};
	let pre = {
		let n = s.size(100, &[0]);
		s.blob(n)
	};
	let one = p.to_bytes();
	let mut bytes = pre.clone();
	bytes.extend(&one);
	bytes.extend(s.blob(30));
	c.note(|| format!("flags {} segs {:?} after {} bytes", p.flags, p.segs, pre.len()));
	let read = |d: &[u8]| {
		let mut r = Cursor::new(d);
		r.set_position(pre.len() as u64);
		guard(|| Page::read(&mut r)).map(|x| (x, r.position()))
	};
	let (got, pos) = read(&bytes)?;
	let mut got = got.or_else(|e| fail("page refused", e.to_string()))?;
	let h = got.header();
	ensure!(
		h.start as usize == pre.len()
			&& got.end as usize == pre.len() + one.len()
			&& pos == got.end
			&& h.header_type_flag() == p.flags
			&& h.abgp == p.granule
			&& h.stream_serial == p.serial
			&& h.sequence_number == p.seq
			&& h.content_size() == len
			&& h.checksum() == rogg::crc(&{
				let mut x = one.clone();
				x[22..26].fill(0);
				x
			}) && got.content() == p.body,
		"page fields",
		"{h:?} end {} position {pos}",
		got.end
	);
	ensure!(got.as_bytes() == one, "page bytes", "{}", first_diff(&got.as_bytes(), &one));
	ensure!(ogg_pager::crc32(&one) == rogg::crc(&one), "crc32", "{:x}", ogg_pager::crc32(&one));
	// changed fields are written with a fresh checksum
	let s = &mut c.src;
	let q = rogg::Page { granule: s.range(0, 1 << 50), serial: s.u32(), seq: s.u32(), ..p.clone() };
	let h = got.header_mut();
	(h.abgp, h.stream_serial, h.sequence_number) = (q.granule, q.serial, q.seq);
	got.gen_crc();
	ensure!(got.as_bytes() == q.to_bytes(), "changed page bytes", "{}", first_diff(&got.as_bytes(), &q.to_bytes()));
	ensure!(got.clone().take_content() == p.body, "page content", "content differs");
	// the header alone
	let mut r = Cursor::new(&bytes);
	r.set_position(pre.len() as u64);
	let h = PageHeader::read(&mut r).or_else(|e| fail("page header refused", e.to_string()))?;
	ensure!(r.position() as usize == pre.len() + 27 + p.segs.len() && h.content_size() == len, "page header read", "{h:?}");
	// cut and damaged headers are refused
	let cut = s.usize(0, one.len() - 1);
	let (r, _) = read(&bytes[..pre.len() + cut])?;
	ensure!(r.is_err(), "cut page accepted", "{cut} of {} bytes are accepted", one.len());
	let mut bad = bytes.clone();
	let at = s.usize(0, 4);
	bad[pre.len() + at] ^= 1 << s.below(8);
	let (r, _) = read(&bad)?;
	ensure!(r.is_err(), "damaged page accepted", "a page with byte {at} changed is accepted");
	c.nontrivial();
	Ok(())
}

/// Damaged streams: never a crash, and no packet that was not there.
fn c29_damage(c: &mut Case) -> R {
	let s = &mut c.src;
	let want = packets(s, true);
	let pages = rogg::paginate(&want, 1, 0, &[], &[*s.pick(&[1usize, 4, 255])], &[]);
	let mut bytes: Vec<u8> = pages.iter().flat_map(rogg::Page::to_bytes).collect();
	let cut = s.usize(0, bytes.len());
	bytes.truncate(cut);
	c.note(|| format!("{:?} cut to {cut}", sizes(&want)));
	let r = guard(|| Packets::read(&mut Cursor::new(&bytes)).map(|p| p.iter().map(<[u8]>::to_vec).collect::<Vec<_>>()))?;
	if let Ok(got) = r {
		ensure!(
			got.len() <= want.len() && got.iter().zip(&want).all(|(a, b)| a == b),
			"packets of a cut stream",
			"{:?} of {:?}",
			sizes(&got),
			sizes(&want)
		);
		if !got.is_empty() {
			c.nontrivial();
		}
	}
	let n = c.src.usize(1, want.len());
	let r = guard(|| Packets::read_count(&mut Cursor::new(&bytes), n as isize).map(|p| p.iter().map(<[u8]>::to_vec).collect::<Vec<_>>()))?;
	if let Ok(got) = r {
		ensure!(got == want[..n], "counted packets of a cut stream", "{:?} of {:?}", sizes(&got), sizes(&want[..n]));
	}
	Ok(())
}

pub fn props() -> Vec<Property> {
	vec![
		Property {
			id: "C23",
			rule: "the picture has data, or the image header was understood",
			assumptions: &[
				"pictures in APE items carry a known image format, whose MIME type is the one stated",
				"descriptions are not empty strings and hold no NUL",
			],
			suites: vec![
				suite!("flac", 60_000, 1_000_000, c23_flac),
				suite!("flac-foreign", 60_000, 1_000_000, c23_flac_foreign),
				suite!("ape", 60_000, 1_000_000, c23_ape),
				suite!("information", 80_000, 1_500_000, c23_info),
				suite!("signature", 60_000, 1_000_000, c23_sniff),
			],
		},
		Property {
			id: "C24",
			rule: "a timestamp of more than a year, a refused text, unequal timestamps, an invalid field, or ratings read back",
			assumptions: &["range checks of timestamp fields happen when they are written, as documented for TimestampParseError"],
			suites: vec![
				suite!("timestamps", 200_000, 5_000_000, c24_stamps),
				suite!("grammar", 200_000, 5_000_000, c24_grammar),
				suite!("order", 100_000, 2_000_000, c24_order),
				suite!("encode", 60_000, 1_000_000, c24_encode),
				suite!("ratings", 60_000, 1_000_000, c24_ratings),
				suite!("pairs", 60_000, 1_000_000, c24_pairs),
				suite!("genres", 100_000, 3_000_000, c24_genres),
				suite!("providers", 2_000, 20_000, c24_providers),
			],
		},
		Property {
			id: "C29",
			rule: "more than one packet or page, or a packet of several segments, or a damaged page refused",
			assumptions: &["pages without any segment are outside the supported streams (documented as BadSegmentCount)"],
			suites: vec![
				suite!("paginate", 30_000, 500_000, c29_paginate),
				suite!("foreign", 30_000, 500_000, c29_foreign),
				suite!("page", 30_000, 500_000, c29_page),
				suite!("damage", 30_000, 500_000, c29_damage),
			],
		},
	]
}
