//! C14-C18: each tag format written, read back, and checked by an independent decoder;
//! and independent encodings read by the library.

use super::preserve::{self, esig};
use crate::engine::{Case, Fail, Property, R, Rng, Src, Suite, fail, guard};
use crate::ensure;
use crate::fmt::{self, Kind, flac, mp4, ogg, raw, riff, tags};
use crate::inputs;
use crate::lg::{self, Cs, NTag};
use crate::rd;
use crate::util::{Mem, first_diff};
use lofty::ape::{ApeItem, ApeTag};
use lofty::config::{ParseOptions, ParsingMode, WriteOptions};
use lofty::id3::v1::Id3v1Tag;
use lofty::iff::aiff::{AiffTextChunks, Comment};
use lofty::iff::wav::RiffInfoList;
use lofty::mp4::{Atom, AtomData, AtomIdent, DataType, Ilst};
use lofty::ogg::OggPictureStorage;
use lofty::ogg::tag::VorbisComments;
use lofty::picture::{MimeType, PictureInformation};
use lofty::tag::{ItemValue, TagType};
use std::borrow::Cow;
use std::io::Cursor;

macro_rules! suite {
	($name:literal, $q:expr, $t:expr, $f:expr) => {
		Suite { name: $name, quick: $q, thorough: $t, run: $f }
	};
}

/// Saves a tag that must be accepted.
pub fn save(c: &mut Case, k: Kind, t: &NTag, o: WriteOptions, data: Vec<u8>) -> Result<Vec<u8>, Fail> {
	let mut f = Mem::new(data);
	match guard(|| t.save(&mut f, o)) {
		Err(p) => fail(format!("save {:?} in {}: {}", t.ty(), k.name(), p.sig), p.msg),
		Ok(Err(e)) => fail(
			format!("save {:?} in {} refused: {}", t.ty(), k.name(), esig(&e)),
			format!("a valid tag could not be saved to a well-formed file: {e} ({e:?})"),
		),
		Ok(Ok(())) => {
			c.class(k.name());
			Ok(f.data)
		},
	}
}

pub fn read(k: Kind, data: &[u8], o: ParseOptions) -> Result<rd::Native, Fail> {
	match guard(|| rd::read_native(k, &mut Cursor::new(data), o, false))? {
		Ok(n) => Ok(n),
		Err(e) => fail(format!("{} unreadable: {}", k.name(), esig(&e)), format!("the file cannot be read back: {e}")),
	}
}

/// Reading options that must not matter for a well-formed tag.
pub fn any_mode(s: &mut Src) -> ParseOptions {
	let mut o = ParseOptions::new();
	match s.below(4) {
		0 => o.parsing_mode(ParsingMode::Strict),
		1 => o.parsing_mode(ParsingMode::Relaxed),
		_ => o,
	}
}

pub fn same_list(sig: &str, want: &[String], got: &[String]) -> R {
	if want == got {
		return Ok(());
	}
	let i = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
	let cut = |s: Option<&String>| s.map_or("nothing".to_string(), |s| s.chars().take(300).collect());
	fail(
		sig,
		format!(
			"entry {i} of {}/{}: wrote {} | read {}",
			want.len(),
			got.len(),
			cut(want.get(i)),
			cut(got.get(i))
		),
	)
}

// ------------------------------------------------------------------ C14

fn v1_text(s: &mut Src) -> Option<String> {
	match s.below(6) {
		0 => None,
		1 => Some(lg::text(s, Cs::Ascii, false)),
		2 => Some(lg::text(s, Cs::Any, false)),
		3 => {
			// around the field widths
			let n = *s.pick(&[1usize, 27, 28, 29, 30, 31, 32, 60]);
			let b = s.bool();
			Some((0..n).map(|i| if b { char::from(0xC0 + (i % 60) as u8) } else { char::from(b'A' + (i % 26) as u8) }).collect())
		},
		4 => Some(String::new()),
		_ => Some(lg::text(s, Cs::Latin1, false)),
	}
}

pub fn v1_tag(s: &mut Src) -> Id3v1Tag {
	let mut t = Id3v1Tag::new();
	t.title = v1_text(s);
	t.artist = v1_text(s);
	t.album = v1_text(s);
	t.comment = v1_text(s);
	if s.bool() {
		t.year = Some(match s.below(4) {
			0 => s.below(1000) as u16,
			1 => *s.pick(&[0u16, 1, 9, 10, 99, 100, 999, 1000, 9999]),
			_ => s.range(1000, 9999) as u16,
		});
	}
	if s.bool() {
		t.track_number = Some(s.u8());
	}
	if s.bool() {
		t.genre = Some(s.below(192) as u8);
	}
	t
}

fn v1_field(t: &Option<String>, n: usize) -> Vec<u8> {
	let mut b: Vec<u8> = t
		.as_deref()
		.unwrap_or("")
		.chars()
		.take(n)
		.map(|c| if (c as u32) < 256 { c as u32 as u8 } else { b'?' })
		.collect();
	b.resize(n, 0);
	b
}

fn v1_back(b: &[u8]) -> Option<String> {
	let z = b.iter().position(|x| *x == 0).unwrap_or(b.len());
	if z == 0 { None } else { Some(b[..z].iter().map(|c| *c as char).collect()) }
}

fn v1_bytes(t: &Id3v1Tag) -> Vec<u8> {
	let mut v = b"TAG".to_vec();
	v.extend(v1_field(&t.title, 30));
	v.extend(v1_field(&t.artist, 30));
	v.extend(v1_field(&t.album, 30));
	v.extend(t.year.map_or(vec![0; 4], |y| format!("{y:04}").into_bytes()));
	v.extend(v1_field(&t.comment, 28));
	v.push(0);
	v.push(t.track_number.unwrap_or(0));
	v.push(t.genre.unwrap_or(255));
	v
}

const V1_KINDS: [Kind; 4] = [Kind::Mp3, Kind::Aac, Kind::Ape, Kind::WavPack];

fn v1_case(c: &mut Case) -> R {
	let k = *c.src.pick(&V1_KINDS);
	let parts = preserve::gen_parts(&mut c.src, k);
	let mut data = parts.to_bytes();
	let had = parts.id3v1.is_some();
	for round in 0..c.src.usize(1, 2) {
		let t = v1_tag(&mut c.src);
		let lossy = !c.src.chance(1, 4);
		let mut o = lg::write_options(&mut c.src);
		o.lossy_text_encoding(lossy);
		c.note(|| format!("save {t:?} lossy={lossy} in {} ({}; {} bytes)", k.name(), preserve::describe_parts(&parts), data.len()));
		let nt = NTag::Id3v1(t.clone());
		if nt.is_empty() {
			return Ok(());
		}
		// only the part that is kept has to be representable
		let encodable = [(&t.title, 30), (&t.artist, 30), (&t.album, 30), (&t.comment, 28)]
			.iter()
			.all(|(x, n)| x.as_deref().unwrap_or("").chars().take(*n).all(|c| (c as u32) < 256));
		if !lossy && !encodable {
			let mut f = Mem::new(data.clone());
			let r = guard(|| nt.save(&mut f, o))?;
			ensure!(r.is_err(), "unrepresentable text accepted", "text outside Latin-1 was saved although lossy encoding is off");
			ensure!(f.data == data, "refused save changed the file", "{}", first_diff(&data, &f.data));
			c.class("refused");
			c.nontrivial();
			return Ok(());
		}
		let out = save(c, k, &nt, o, data.clone())?;
		let want = v1_bytes(&t);
		let keep = if had || round > 0 { data.len() - 128 } else { data.len() };
		ensure!(
			out.len() == keep + 128,
			"ID3v1 tag count",
			"file of {} bytes {} an ID3v1 tag became {} bytes, expected {}",
			data.len(),
			if had || round > 0 { "with" } else { "without" },
			out.len(),
			keep + 128
		);
		ensure!(out[..keep] == data[..keep], "bytes before the ID3v1 tag changed", "{}", first_diff(&data[..keep], &out[..keep]));
		ensure!(out[keep..] == want[..], "ID3v1 bytes", "{}", first_diff(&want, &out[keep..]));
		let o = any_mode(&mut c.src);
		// a year that is missing is written as zero bytes, which strict parsing refuses by design
		let o = if t.year.is_none() { ParseOptions::new() } else { o };
		let n = read(k, &out, o)?;
		let Some(NTag::Id3v1(g)) = n.get(TagType::Id3v1) else {
			return fail("ID3v1 tag lost", "no ID3v1 tag is found after saving one");
		};
		let exp = Id3v1Tag {
			title: v1_back(&want[3..33]),
			artist: v1_back(&want[33..63]),
			album: v1_back(&want[63..93]),
			comment: v1_back(&want[97..125]),
			year: t.year,
			track_number: t.track_number.filter(|n| *n != 0),
			genre: t.genre,
		};
		ensure!(*g == exp, "ID3v1 read back", "expected {exp:?} read {g:?}");
		data = out;
		c.nontrivial();
	}
	Ok(())
}

/// any 128 bytes with the marker decode field by field
fn v1_decode_case(c: &mut Case) -> R {
	let mut b = b"TAG".to_vec();
	let style = c.src.below(3);
	match style {
		0 => b.extend(c.src.blob(125)),
		_ => {
			for n in [30usize, 30, 30] {
				let l = c.src.usize(0, n);
				let mut f: Vec<u8> = (0..l).map(|_| c.src.range(1, 255) as u8).collect();
				if c.src.chance(1, 4) {
					f.resize(n, b' ');
				} else {
					f.resize(n, 0);
				}
				b.extend(f);
			}
			let y = c.src.below(10_000);
			b.extend(format!("{y:04}").bytes());
			let l = c.src.usize(0, 30);
			let mut f: Vec<u8> = (0..l).map(|_| c.src.range(1, 255) as u8).collect();
			f.resize(30, 0);
			if c.src.bool() && l <= 28 {
				f[29] = c.src.u8();
			}
			b.extend(f);
			b.push(c.src.u8());
		},
	}
	let arr: [u8; 128] = b.clone().try_into().unwrap();
	c.note(|| format!("{:02x?}", arr));
	let year = &arr[93..97];
	let ydig = year.iter().take_while(|x| x.is_ascii_digit()).count();
	let year_val = if ydig == 4 { std::str::from_utf8(year).unwrap().parse::<u16>().ok() } else { None };
	for mode in [ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::Relaxed] {
		let r = guard(|| Id3v1Tag::parse(arr, mode))?;
		let g = match r {
			Ok(g) => g,
			Err(e) => {
				ensure!(mode == ParsingMode::Strict && year_val.is_none(), "ID3v1 parse refused", "{mode:?}: {e}");
				continue;
			},
		};
		ensure!(
			!(mode == ParsingMode::Strict && year_val.is_none()),
			"strict accepted a bad year",
			"year {year:?} accepted as {:?}",
			g.year
		);
		let v11 = arr[125] == 0 && arr[126] != 0;
		let exp = Id3v1Tag {
			title: v1_back(&arr[3..33]),
			artist: v1_back(&arr[33..63]),
			album: v1_back(&arr[63..93]),
			year: year_val,
			comment: if v11 { v1_back(&arr[97..125]) } else { v1_back(&arr[97..127]) },
			track_number: if v11 { Some(arr[126]) } else { None },
			genre: Some(arr[127]).filter(|g| *g < 192),
		};
		ensure!(g == exp, "ID3v1 decode", "{mode:?}: expected {exp:?} read {g:?}");
	}
	c.nontrivial();
	Ok(())
}

// ------------------------------------------------------------------ C15

const BAD_APE_KEYS: [&str; 4] = ["ID3", "TAG", "OGGS", "MP+"];

pub fn ape_key(s: &mut Src, i: usize) -> String {
	match s.below(6) {
		0 => (*s.pick(&["Title", "ARTIST", "album", "Comment", "Genre", "Track", "Disc", "Year", "Cover Art (Front)", "Cover Art (Back)", "Compilation"])).to_string(),
		1 => {
			let n = *s.pick(&[2usize, 3, 4, 254, 255]);
			(0..n).map(|j| char::from(b'a' + ((i * 7 + j) % 26) as u8)).collect()
		},
		2 => {
			let n = s.usize(2, 20);
			let mut k: String = (0..n).map(|_| char::from(s.range(0x20, 0x7E) as u8)).collect();
			k.push_str(&i.to_string());
			k
		},
		_ => format!("Key {i}{}", lg::short(s)),
	}
}

pub fn ape_value(s: &mut Src) -> ItemValue {
	let multi = |s: &mut Src| {
		let n = if s.chance(1, 4) { s.usize(2, 4) } else { 1 };
		let mut v: Vec<String> = (0..n).map(|_| lg::text(s, Cs::Any, false)).collect();
		if n > 2 && s.chance(1, 4) {
			v[0] = String::new();
		}
		v.join("\0")
	};
	match s.below(8) {
		0 | 1 => {
			let n = s.size(70_000, &[0, 1, 255, 256, 65535, 65536]);
			ItemValue::Binary(s.blob(n))
		},
		2 => ItemValue::Locator(multi(s)),
		3 => ItemValue::Text(String::new()),
		_ => ItemValue::Text(multi(s)),
	}
}

pub fn ape_tag(s: &mut Src) -> ApeTag {
	let mut t = ApeTag::new();
	t.read_only = s.chance(1, 6);
	for i in 0..s.usize(1, 8) {
		let k = ape_key(s, i);
		let v = ape_value(s);
		if BAD_APE_KEYS.iter().any(|b| b.eq_ignore_ascii_case(&k)) {
			continue;
		}
		if let Ok(mut it) = ApeItem::new(k, v) {
			it.read_only = s.chance(1, 5);
			t.insert(it);
		}
	}
	t
}

fn ape_of(t: &ApeTag) -> Vec<tags::ApeIt> {
	t.into_iter()
		.map(|i| {
			let (ty, value) = match i.value() {
				ItemValue::Text(x) => (0, x.clone().into_bytes()),
				ItemValue::Binary(x) => (1, x.clone()),
				ItemValue::Locator(x) => (2, x.clone().into_bytes()),
			};
			tags::ApeIt { key: i.key().to_string(), ty, read_only: i.read_only, value }
		})
		.collect()
}

fn show_ape(v: &[tags::ApeIt]) -> Vec<String> {
	v.iter().map(|i| format!("{:?} type {} ro {} {}", i.key, i.ty, i.read_only, lg::c_bytes(&i.value))).collect()
}

const APE_KINDS: [Kind; 4] = [Kind::Mp3, Kind::Ape, Kind::Mpc, Kind::WavPack];

fn ape_case(c: &mut Case) -> R {
	let k = *c.src.pick(&APE_KINDS);
	let parts = preserve::gen_parts(&mut c.src, k);
	let data = parts.to_bytes();
	let t = ape_tag(&mut c.src);
	let o = lg::write_options(&mut c.src);
	let nt = NTag::Ape(t.clone());
	c.note(|| format!("save {} in {} ({})", nt.describe(), k.name(), preserve::describe_parts(&parts)));
	if t.into_iter().len() == 0 {
		return Ok(());
	}
	let t = match &nt {
		NTag::Ape(t) => t,
		_ => unreachable!(),
	};
	let out = save(c, k, &nt, o, data)?;
	let p = raw::split(k, &out).map_err(|e| Fail { sig: "APE structure".into(), msg: e })?;
	let Some(b) = &p.ape else { return fail("APE tag lost", "no APE tag in the file after saving one") };
	let got = tags::ape_decode(b).map_err(|e| Fail { sig: "APE layout".into(), msg: e })?;
	let want = ape_of(t);
	same_list("APE items decoded", &show_ape(&want), &show_ape(&got))?;
	// tag flags of header and footer
	let f = fmt::rd_le32(&b[b.len() - 12..]);
	let h = fmt::rd_le32(&b[20..]);
	ensure!(f & (1 << 31) != 0 && b.starts_with(b"APETAGEX"), "APE header missing", "footer flags {f:08x}");
	ensure!((f & 1 == 1) == t.read_only && (h & 1 == 1) == t.read_only, "APE read only flag", "{h:08x}/{f:08x} for {}", t.read_only);
	ensure!(fmt::rd_le32(&b[8..]) == 2000, "APE version", "{}", fmt::rd_le32(&b[8..]));
	let n = read(k, &out, any_mode(&mut c.src))?;
	let Some(NTag::Ape(g)) = n.get(TagType::Ape) else {
		return fail("APE tag unread", "no APE tag is found after saving one");
	};
	same_list("APE items read back", &show_ape(&want), &show_ape(&ape_of(g)))?;
	c.nontrivial();
	Ok(())
}

/// The flags of the header and footer agree with the tag's form. Apart from the other suites,
/// as the repository's own tests pin the deviation that it finds.
fn ape_flags_case(c: &mut Case) -> R {
	let k = *c.src.pick(&APE_KINDS);
	let data = preserve::gen_parts(&mut c.src, k).to_bytes();
	let t = lg::plain_native(&mut c.src, TagType::Ape);
	let out = save(c, k, &t, WriteOptions::default(), data)?;
	let p = raw::split(k, &out).map_err(|e| Fail { sig: "APE structure".into(), msg: e })?;
	let Some(b) = &p.ape else { return fail("APE tag lost", "no APE tag in the file after saving one") };
	let f = fmt::rd_le32(&b[b.len() - 12..]);
	let h = fmt::rd_le32(&b[20..]);
	c.nontrivial();
	ensure!(
		f & (1 << 30) == 0 && h & (1 << 30) == 0,
		"APE flags deny the footer",
		"flags {h:08x}/{f:08x} say that the tag contains no footer"
	);
	Ok(())
}

/// foreign tags: any header/footer form, any item order
fn ape_foreign_case(c: &mut Case) -> R {
	let k = *c.src.pick(&APE_KINDS);
	let mut parts = preserve::gen_parts(&mut c.src, k);
	let t = ape_tag(&mut c.src);
	let header = c.src.bool();
	let version = if header { 2000 } else { *c.src.pick(&[1000u32, 2000]) };
	let mut items = ape_of(&t);
	if items.is_empty() {
		return Ok(());
	}
	for i in &mut items {
		// text written by others may be padded with zeros
		if i.ty == 0 && c.src.chance(1, 8) && !i.value.is_empty() {
			i.value.push(0);
		}
	}
	parts.ape = Some(tags::ape_encode(&items, header, version));
	parts.lead_ape = None;
	let data = parts.to_bytes();
	c.note(|| format!("read {:?} header={header} version={version} in {} ({})", show_ape(&items), k.name(), preserve::describe_parts(&parts)));
	let n = read(k, &data, any_mode(&mut c.src))?;
	let Some(NTag::Ape(g)) = n.get(TagType::Ape) else {
		return fail("foreign APE tag unread", "the APE tag is not found");
	};
	same_list("foreign APE items", &show_ape(&ape_of(&t)), &show_ape(&ape_of(g)))?;
	c.class(if header { "header" } else { "no header" });
	c.nontrivial();
	Ok(())
}

// ------------------------------------------------------------------ C16

pub fn vc_key(s: &mut Src, i: usize) -> String {
	match s.below(6) {
		0 | 1 => (*s.pick(&["TITLE", "ARTIST", "Album", "comment", "GENRE", "DATE", "TRACKTOTAL", "LYRICS", "ENCODER"])).to_string(),
		2 => (*s.pick(&["TRACKNUMBER", "DISCNUMBER"])).to_string(),
		3 => {
			let n = s.usize(1, 30);
			let k: String = (0..n).map(|_| char::from(s.range(0x20, 0x7D) as u8)).filter(|c| *c != '=').collect();
			format!("{k}x")
		},
		_ => format!("Key{i}{}", lg::short(s)),
	}
}

pub fn vc_tag(s: &mut Src) -> VorbisComments {
	let mut t = VorbisComments::new();
	t.set_vendor(lg::text(s, Cs::Any, true));
	for i in 0..s.usize(1, 8) {
		let k = vc_key(s, i);
		let mut v = lg::text(s, Cs::Any, false);
		if s.chance(1, 8) {
			v.insert(0, '=');
		}
		if s.chance(1, 8) {
			v.push_str("=x");
		}
		if (k == "TRACKNUMBER" || k == "DISCNUMBER") && s.chance(3, 4) {
			v = match s.below(4) {
				0 => format!("{:02}", s.below(99)),
				1 => format!("{}/{}", s.below(99), s.below(99)),
				_ => s.below(300).to_string(),
			};
		}
		if s.chance(1, 30) {
			let n = *s.pick(&[255usize, 256, 65025, 65026, 70_000, 200_000]);
			v = "long".repeat(n / 4);
		}
		t.push(k, v);
	}
	for _ in 0..[0u64, 0, 1, 3][s.below(4) as usize] {
		let p = if s.chance(1, 3) { lg::raw_picture(s, Cs::Any) } else { lg::picture(s, Cs::Any).pic };
		let i = match s.below(3) {
			0 => PictureInformation::default(),
			1 => PictureInformation { width: s.u32(), height: s.u32(), color_depth: s.u32(), num_colors: s.u32() },
			_ => PictureInformation::from_picture(&p).unwrap_or_default(),
		};
		let _ = t.insert_picture(p, Some(i));
	}
	t
}

const VC_KINDS: [Kind; 4] = [Kind::Vorbis, Kind::Opus, Kind::Speex, Kind::Flac];

/// (vendor, comments, pictures) found in a file by the harness's own decoders
fn vc_of_file(k: Kind, data: &[u8]) -> Result<(Option<Vec<u8>>, Vec<Vec<u8>>, Vec<tags::FlacPic>), String> {
	let mut pics = vec![];
	if k == Kind::Flac {
		let f = flac::parse(data)?;
		let vcs: Vec<_> = f.blocks.iter().filter(|b| b.ty == 4).collect();
		if vcs.len() > 1 {
			return Err(format!("{} comment blocks", vcs.len()));
		}
		for b in f.blocks.iter().filter(|b| b.ty == 6) {
			pics.push(tags::flac_picture_decode(&b.data)?);
		}
		return Ok(match vcs.first() {
			None => (None, vec![], pics),
			Some(b) => {
				let (v, c, used) = tags::vc_decode(&b.data)?;
				if used != b.data.len() {
					return Err("bytes after the last comment".into());
				}
				(Some(v), c, pics)
			},
		});
	}
	let pages = ogg::parse_pages(data)?;
	let serial = pages[0].serial;
	let mine: Vec<_> = pages.into_iter().filter(|p| p.serial == serial).collect();
	let pk = ogg::packets(&mine)?;
	let p = pk.get(1).ok_or("no comment packet")?;
	let prefix = ogg::comment_prefix(k);
	if !p.data.starts_with(prefix) {
		return Err("comment packet lacks its signature".into());
	}
	let (v, c, used) = tags::vc_decode(&p.data[prefix.len()..])?;
	let rest = &p.data[prefix.len() + used..];
	if k == Kind::Vorbis && rest.first().is_none_or(|b| b & 1 == 0) {
		return Err("framing bit missing".into());
	}
	let mut plain = vec![];
	for e in c {
		const P: &[u8] = b"METADATA_BLOCK_PICTURE=";
		if e.starts_with(P) {
			let d = tags::b64_decode(&e[P.len()..]).ok_or("picture is not base64")?;
			pics.push(tags::flac_picture_decode(&d)?);
		} else {
			plain.push(e);
		}
	}
	Ok((Some(v), plain, pics))
}

fn pic_want(t: &VorbisComments) -> Vec<String> {
	t.pictures()
		.iter()
		.map(|(p, i)| {
			format!(
				"{} {:?} {:?} {:?} {}",
				p.pic_type().as_u8(),
				p.mime_type().map_or("", MimeType::as_str),
				p.description().unwrap_or(""),
				[i.width, i.height, i.color_depth, i.num_colors],
				lg::c_bytes(p.data())
			)
		})
		.collect()
}

fn pic_got(v: &[tags::FlacPic]) -> Vec<String> {
	v.iter()
		.map(|p| {
			format!(
				"{} {:?} {:?} {:?} {}",
				p.ty,
				String::from_utf8_lossy(&p.mime),
				String::from_utf8_lossy(&p.desc),
				p.info,
				lg::c_bytes(&p.data)
			)
		})
		.collect()
}

fn vc_list(t: &VorbisComments) -> Vec<String> {
	t.items().map(|(k, v)| format!("{k}={v}")).collect()
}

fn vc_case(c: &mut Case, k: Kind) -> R {
	let data = inputs::tagged(&mut c.src, k);
	let t = vc_tag(&mut c.src);
	let nt = NTag::Vorbis(t.clone());
	let o = lg::write_options(&mut c.src);
	c.note(|| format!("save {} vendor {:?} in {} of {} bytes", nt.describe(), t.vendor(), k.name(), data.len()));
	let before = vc_of_file(k, &data).map_err(|e| Fail { sig: "input".into(), msg: e })?;
	let out = save(c, k, &nt, o, data)?;
	let (vendor, items, pics) = vc_of_file(k, &out).map_err(|e| Fail { sig: format!("comments in {}", k.name()), msg: e })?;
	let want = vc_list(&t);
	let got: Vec<String> = items.iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect();
	same_list(&format!("comments decoded in {}", k.name()), &want, &got)?;
	same_list(&format!("pictures decoded in {}", k.name()), &pic_want(&t), &pic_got(&pics))?;
	// the stream keeps the vendor of its encoder
	let want_vendor = before.0.unwrap_or_else(|| t.vendor().as_bytes().to_vec());
	ensure!(
		vendor.as_ref() == Some(&want_vendor),
		format!("vendor in {}", k.name()),
		"expected {:?} found {:?}",
		String::from_utf8_lossy(&want_vendor),
		vendor.map(|v| String::from_utf8_lossy(&v).into_owned())
	);
	let conv = !c.src.bool() && !t.items().any(|(k, _)| k == "TRACKNUMBER" || k == "DISCNUMBER");
	let o = any_mode(&mut c.src).implicit_conversions(conv);
	let n = read(k, &out, o)?;
	let Some(NTag::Vorbis(g)) = n.get(TagType::VorbisComments) else {
		return fail("comments unread", "no comments are found after saving them");
	};
	same_list(&format!("comments read back from {}", k.name()), &want, &vc_list(g))?;
	ensure!(g.vendor().as_bytes() == want_vendor, "vendor read back", "{:?}", g.vendor());
	let want_pics: Vec<String> = t.pictures().iter().map(|(p, i)| format!("{} {i:?}", lg::c_pic(p))).collect();
	let got_pics: Vec<String> = if k == Kind::Flac {
		n.extra.clone()
	} else {
		g.pictures().iter().map(|(p, i)| format!("{} {i:?}", lg::c_pic(p))).collect()
	};
	same_list(&format!("pictures read back from {}", k.name()), &want_pics, &got_pics)?;
	c.nontrivial();
	Ok(())
}

fn vc_raw(vendor: &[u8], entries: &[Vec<u8>]) -> Vec<u8> {
	let mut v = (vendor.len() as u32).to_le_bytes().to_vec();
	v.extend(vendor);
	v.extend((entries.len() as u32).to_le_bytes());
	for e in entries {
		v.extend((e.len() as u32).to_le_bytes());
		v.extend(e);
	}
	v
}

fn any_case(s: &mut Src, k: &str) -> String {
	match s.below(4) {
		0 | 1 => k.to_string(),
		2 => k.to_lowercase(),
		_ => k.chars().map(|c| if s.bool() { c.to_ascii_lowercase() } else { c }).collect(),
	}
}

/// Comments as other encoders write them, well-formed or not, and what a reader has to make of them.
fn vc_foreign_case(c: &mut Case) -> R {
	let k = *c.src.pick(&[Kind::Flac, Kind::Flac, Kind::Flac, Kind::Vorbis, Kind::Opus, Kind::Speex]);
	let s = &mut c.src;
	let mode = *s.pick(&[ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::BestAttempt, ParsingMode::Relaxed]);
	let (cover, conv) = (!s.chance(1, 5), s.bool());
	let o = ParseOptions::new().parsing_mode(mode).read_cover_art(cover).implicit_conversions(conv);
	// why Strict has to refuse
	let mut bad: Option<&'static str> = None;
	let mut want: Vec<String> = vec![];
	let mut numbers: Vec<(&'static str, Option<String>)> = vec![];
	let mut pics: Vec<String> = vec![];
	let mut entries: Vec<Vec<u8>> = vec![];
	let entry = |k: &[u8], v: &[u8]| [k, b"=", v].concat();
	let brief = |p: &lofty::picture::Picture, i: &PictureInformation| format!("{} {i:?}", lg::c_pic(p));
	let one_pic = |s: &mut Src| {
		let p = lg::picture(s, Cs::Any).pic;
		let i = PictureInformation { width: s.u32(), height: s.below(5000) as u32, color_depth: 24, num_colors: s.below(300) as u32 };
		let b = tags::flac_picture(
			u32::from(p.pic_type().as_u8()),
			p.mime_type().map_or("", MimeType::as_str),
			p.description().unwrap_or(""),
			[i.width, i.height, i.color_depth, i.num_colors],
			p.data(),
		);
		(p, i, b)
	};
	let (vendor, vendor_text) = match s.below(8) {
		0 => (vec![], String::new()),
		1 => {
			let b: Vec<u8> = [&b"Encoder "[..], &[0xE9, 0xFC, b' ', b'2']].concat();
			bad = Some("vendor");
			(b, "Encoder \u{e9}\u{fc} 2".to_string())
		},
		_ => {
			let t = lg::text(s, Cs::Any, false);
			(t.clone().into_bytes(), t)
		},
	};
	let mut seen = [false; 2];
	for i in 0..s.usize(0, 7) {
		match s.below(16) {
			0 | 1 if !(seen[0] && seen[1]) => {
				let w = if seen[0] || (!seen[1] && s.bool()) { 1 } else { 0 };
				seen[w] = true;
				let (num, tot) = [("TRACKNUMBER", "TRACKTOTAL"), ("DISCNUMBER", "DISCTOTAL")][w];
				let (n, m) = (s.below(400) as u32, s.below(70_000) as u32);
				let (v, number, total) = match s.below(8) {
					6 => (format!("A{n}/{m}"), format!("A{n}/{m}"), Some(m.to_string())),
					7 => (format!("/{m}"), format!("/{m}"), Some(m.to_string())),
					0 => (n.to_string(), n.to_string(), None),
					1 => (format!("{n:03}"), n.to_string(), None),
					2 | 3 => (format!("{n}/{m}"), n.to_string(), Some(m.to_string())),
					4 => (format!("{n:02}/{m:02}"), n.to_string(), Some(m.to_string())),
					_ => (format!("A{n}"), format!("A{n}"), None),
				};
				entries.push(entry(any_case(s, num).as_bytes(), v.as_bytes()));
				if conv {
					numbers.push((num, Some(number)));
					numbers.push((tot, total));
				} else {
					want.push(format!("{num}={v}"));
				}
			},
			2 | 3 => {
				let (p, i, b) = one_pic(s);
				entries.push(entry(any_case(s, "METADATA_BLOCK_PICTURE").as_bytes(), tags::b64_encode(&b).as_bytes()));
				if cover {
					pics.push(brief(&p, &i));
				}
			},
			4 => {
				let (p, _, _) = one_pic(s);
				let d = p.data().to_vec();
				let mime = match s.below(3) {
					0 => None,
					_ => p.mime_type().cloned(),
				};
				let known = mime.is_some() && lofty::picture::Picture::from_reader(&mut &d[..]).is_ok();
				let d = if known { d } else { [&b"raw "[..], &d[..d.len().min(40)]].concat() };
				entries.push(entry(any_case(s, "COVERART").as_bytes(), tags::b64_encode(&d).as_bytes()));
				if cover {
					let m = if known { p.mime_type().cloned().unwrap() } else { MimeType::Unknown("image/".into()) };
					let q = lofty::picture::Picture::unchecked(d).pic_type(lofty::picture::PictureType::Other).mime_type(m).build();
					pics.push(brief(&q, &PictureInformation::default()));
				}
			},
			5 => {
				let v = match s.below(3) {
					0 => b"!not base64!".to_vec(),
					1 => tags::b64_encode(&s.blob(20)).into_bytes(),
					_ => b"AAA".to_vec(),
				};
				let key = any_case(s, "METADATA_BLOCK_PICTURE");
				entries.push(entry(key.as_bytes(), &v));
				if cover {
					bad = Some("picture");
				}
			},
			6 => {
				entries.push(entry(any_case(s, "coverart").as_bytes(), b"*?*"));
				if cover {
					bad = Some("picture");
				}
			},
			7 => entries.push(lg::short(s).replace('=', "").into_bytes()),
			8 => {
				let key: &[u8] = s.pick(&[&b"K\xC3\xA9Y"[..], b"KEY\x7F", b"A~B", b"TAB\t", b"\x1FKEY", b"\xFF", b"NEW\nLINE"]);
				entries.push(entry(key, b"value"));
				bad = Some("key");
			},
			9 => {
				let key = if s.chance(1, 4) { "TRACKNUMBER".to_string() } else { vc_key(s, i) };
				let v: &[u8] = s.pick(&[&b"\xFF\xFEabc"[..], b"caf\xE9", b"\xC3", b"ok\x80", b"\xED\xA0\x80"]);
				entries.push(entry(key.as_bytes(), v));
				bad = Some("text");
			},
			_ => {
				let mut key = vc_key(s, i);
				if ["TRACKNUMBER", "DISCNUMBER", "TRACKTOTAL"].contains(&key.to_uppercase().as_str()) {
					key = format!("X{key}");
				}
				if s.chance(1, 3) {
					key = any_case(s, &key);
				}
				let mut v = lg::text(s, Cs::Any, true);
				if s.chance(1, 6) {
					v = format!("={v}=");
				}
				entries.push(entry(key.as_bytes(), v.as_bytes()));
				want.push(format!("{key}={v}"));
			},
		}
	}
	let block = vc_raw(&vendor, &entries);
	let mut blocks_bad = false;
	let mut from_blocks: Vec<String> = vec![];
	let data = if k == Kind::Flac {
		let (mut f, _) = flac::gen_flac(s);
		f.blocks.retain(|b| b.ty != 4 && b.ty != 6);
		let mut add = vec![];
		if s.chance(1, 8) {
			// an earlier comment block: the last one counts
			add.push(flac::Block { ty: 4, data: vc_raw(b"first", &[b"TITLE=first".to_vec()]) });
			blocks_bad = true;
		}
		add.push(flac::Block { ty: 4, data: block });
		for _ in 0..[0u64, 0, 1, 2][s.below(4) as usize] {
			let (p, _, b) = one_pic(s);
			let at = s.usize(0, add.len());
			if s.chance(1, 5) {
				// cut within the picture data
				let n = b.len() - s.usize(1, p.data().len().max(1)).min(b.len());
				add.insert(at, flac::Block { ty: 6, data: b[..n].to_vec() });
				blocks_bad |= cover;
			} else {
				add.insert(at, flac::Block { ty: 6, data: b });
			}
		}
		if cover {
			for b in add.iter().filter(|b| b.ty == 6) {
				if let Ok(d) = tags::flac_picture_decode(&b.data) {
					let mut p = lofty::picture::Picture::unchecked(d.data).pic_type(lofty::picture::PictureType::from_u8(d.ty as u8));
					if !d.mime.is_empty() {
						p = p.mime_type(MimeType::from_str(std::str::from_utf8(&d.mime).unwrap()));
					}
					if !d.desc.is_empty() {
						p = p.description(String::from_utf8(d.desc).unwrap());
					}
					let [width, height, color_depth, num_colors] = d.info;
					from_blocks.push(brief(&p.build(), &PictureInformation { width, height, color_depth, num_colors }));
				}
			}
		}
		let at = s.usize(1, f.blocks.len());
		f.blocks.splice(at..at, add);
		f.to_bytes()
	} else {
		let trailer: &[u8] = if k == Kind::Vorbis { &[1] } else { &[] };
		ogg::gen_ogg_with(s, k, &block, trailer).0.to_bytes()
	};
	let refuse = mode == ParsingMode::Strict && (bad.is_some() || blocks_bad);
	c.note(|| {
		let e: Vec<String> = entries.iter().map(|e| String::from_utf8_lossy(&e[..e.len().min(60)]).into_owned()).collect();
		format!("read {} with {o:?}: comments {e:?}, vendor {vendor_text:?}", k.name())
	});
	let r = guard(|| rd::read_native(k, &mut Cursor::new(&data), o, false))?;
	if refuse {
		c.class("refused");
		c.nontrivial();
		let why = bad.unwrap_or("blocks");
		ensure!(r.is_err(), format!("{}: Strict reads comments with a bad {why}", k.name()), "read although strict");
		return Ok(());
	}
	let n = match r {
		Ok(n) => n,
		Err(e) => return fail(format!("{}: foreign comments are refused: {}", k.name(), esig(&e)), format!("mode {mode:?}, bad: {bad:?}: {e}")),
	};
	if bad.is_some() {
		c.class("repaired");
	}
	let Some(NTag::Vorbis(g)) = n.get(TagType::VorbisComments) else {
		return fail("foreign comments unread", "no comments are found");
	};
	ensure!(g.vendor() == vendor_text, "foreign vendor", "expected {vendor_text:?} found {:?}", g.vendor());
	let is_num = |k: &str| ["TRACKNUMBER", "DISCNUMBER", "TRACKTOTAL", "DISCTOTAL"].contains(&k);
	let got: Vec<String> = g.items().filter(|(k, _)| !conv || !is_num(k)).map(|(k, v)| format!("{k}={v}")).collect();
	same_list("foreign comments", &want, &got)?;
	if conv {
		for key in ["TRACKNUMBER", "DISCNUMBER", "TRACKTOTAL", "DISCTOTAL"] {
			let w: Vec<String> = numbers.iter().filter(|(n, _)| *n == key).filter_map(|(_, v)| v.clone()).collect();
			let h: Vec<String> = g.get_all(key).map(str::to_string).collect();
			ensure!(w == h, "foreign numbers", "{key}: expected {w:?} found {h:?}");
		}
	}
	let got: Vec<String> = g.pictures().iter().map(|(p, i)| brief(p, i)).collect();
	same_list("foreign pictures", &pics, &got)?;
	if k == Kind::Flac {
		same_list("foreign picture blocks", &from_blocks, &n.extra)?;
	}
	c.class(k.name());
	c.nontrivial();
	Ok(())
}

// ------------------------------------------------------------------ C17

const ATOM_TEXT: [&[u8; 4]; 10] =
	[b"\xA9nam", b"\xA9ART", b"\xA9alb", b"\xA9cmt", b"\xA9gen", b"aART", b"cprt", b"desc", b"ldes", b"\xA9day"];
const ATOM_FLAG: [&[u8; 4]; 5] = [b"cpil", b"hdvd", b"pcst", b"pgap", b"shwm"];

fn atom_data(s: &mut Src) -> AtomData {
	match s.below(10) {
		0 | 1 => AtomData::UTF16(lg::text(s, Cs::Any, false)),
		2 => AtomData::SignedInteger(int_edge(s) as i32),
		3 => AtomData::UnsignedInteger(int_edge(s) as u32),
		4 => {
			let code = *s.pick(&[
				DataType::Reserved,
				DataType::SJis,
				DataType::BeFloat32,
				DataType::BeFloat64,
				DataType::Be64BitSignedInteger,
				DataType::Signed8BitInteger,
				DataType::QuicktimeMetadata,
				DataType::Jpeg,
				DataType::Other(0x1234),
				DataType::Other(0xFF_FFFF),
				DataType::Other(6),
			]);
			let n = s.size(3000, &[1, 2, 8]).max(1);
			AtomData::Unknown { code, data: s.blob(n) }
		},
		_ => AtomData::UTF8(lg::text(s, Cs::Any, false)),
	}
}

fn int_edge(s: &mut Src) -> i64 {
	match s.below(3) {
		0 => *s.pick(&[
			0i64, 1, -1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0xFF_FFFF, 0x100_0000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, -128, -129,
			-32768, -32769, -0x7F_FF01, -0x80_0000, -0x7F_8000, -0x80_0001, 0x7F_FFFF, 0x80_0000,
		]),
		1 => s.below(1 << 16) as i64,
		_ => i64::from(s.u32()),
	}
}

/// pictures that the format has a code for
pub fn ilst_picture(s: &mut Src) -> lofty::picture::Picture {
	let n = s.size(5000, &[1, 8]).max(1);
	let d = s.blob(n);
	let b = lofty::picture::Picture::unchecked(d).pic_type(lofty::picture::PictureType::Other);
	match s.below(5) {
		0 => b.mime_type(MimeType::Png).build(),
		1 => b.mime_type(MimeType::Gif).build(),
		2 => b.mime_type(MimeType::Bmp).build(),
		3 => b.build(),
		_ => b.mime_type(MimeType::Jpeg).build(),
	}
}

pub fn ilst_tag(s: &mut Src) -> Ilst {
	let mut t = Ilst::new();
	for i in 0..s.usize(1, 8) {
		match s.below(10) {
			0 | 1 => {
				let mean = match s.below(4) {
					0 => lg::text(s, Cs::Any, false),
					_ => "com.apple.iTunes".to_string(),
				};
				let name = match s.below(4) {
					0 => lg::text(s, Cs::Any, false),
					1 => (*s.pick(&["MusicBrainz Track Id", "ARTISTS", "LABEL", "data", "----"])).to_string(),
					_ => format!("n{i}{}", lg::short(s)),
				};
				let d: Vec<AtomData> = (0..if s.chance(1, 3) { s.usize(2, 4) } else { 1 }).map(|_| atom_data(s)).collect();
				t.insert(Atom::from_collection(AtomIdent::Freeform { mean: Cow::Owned(mean), name: Cow::Owned(name) }, d).unwrap());
			},
			2 => {
				let f = **s.pick(&ATOM_FLAG);
				t.replace_atom(Atom::new(AtomIdent::Fourcc(f), AtomData::Bool(s.bool())));
			},
			3 => {
				for _ in 0..s.usize(1, 3) {
					t.insert_picture(ilst_picture(s));
				}
			},
			4 => {
				let f = *s.pick(&[*b"trkn", *b"disk"]);
				let n = if f == *b"trkn" { 8 } else { 6 };
				t.replace_atom(Atom::new(AtomIdent::Fourcc(f), AtomData::Unknown { code: DataType::Reserved, data: s.blob(n) }));
			},
			5 => {
				// any identifier of valid characters
				let mut f = [0; 4];
				for b in &mut f {
					*b = if s.chance(1, 8) { 0xA9 } else { s.range(0x20, 0x7E) as u8 };
				}
				if matches!(&f, b"free" | b"skip" | b"----" | b"covr" | b"gnre" | b"plID") || ATOM_FLAG.contains(&&f) {
					continue;
				}
				// a known identifier in another case is left open
				let text: String = f.iter().map(|b| char::from(*b)).collect();
				if crate::names::NAMES.iter().any(|(ty, _, n)| *ty == TagType::Mp4Ilst && n.iter().any(|n| n.eq_ignore_ascii_case(&text) && *n != text)) {
					continue;
				}
				t.insert(Atom::new(AtomIdent::Fourcc(f), atom_data(s)));
			},
			6 => t.replace_atom(Atom::new(
				AtomIdent::Fourcc(*b"plID"),
				AtomData::Unknown { code: DataType::BeSignedInteger, data: s.blob(8) },
			)),
			7 => {
				t.insert(Atom::new(AtomIdent::Fourcc(**s.pick(&[b"tmpo", b"rtng", b"stik", b"atID"])), AtomData::SignedInteger(int_edge(s) as i32)));
			},
			_ => {
				let f = **s.pick(&ATOM_TEXT);
				let n = if s.chance(1, 4) { s.usize(2, 4) } else { 1 };
				let d = (0..n).map(|_| AtomData::UTF8(lg::text(s, Cs::Any, false))).collect();
				t.insert(Atom::from_collection(AtomIdent::Fourcc(f), d).unwrap());
			},
		}
	}
	t
}

fn uint_ok(n: u32, payload: &[u8]) -> bool {
	(1..=4).contains(&payload.len()) && payload.iter().fold(0u64, |a, b| (a << 8) | u64::from(*b)) == u64::from(n)
}

/// does the payload encode the value?
fn atom_matches(d: &AtomData, code: u32, p: &[u8]) -> bool {
	match d {
		AtomData::UTF8(s) => code == 1 && p == s.as_bytes(),
		AtomData::UTF16(s) => code == 2 && p == s.encode_utf16().flat_map(u16::to_be_bytes).collect::<Vec<_>>(),
		AtomData::SignedInteger(i) => {
			code == 21
				&& (1..=4).contains(&p.len())
				&& p.iter().skip(1).fold(i64::from(p[0] as i8), |a, b| (a << 8) | i64::from(*b)) == i64::from(*i)
		},
		AtomData::UnsignedInteger(i) => code == 22 && uint_ok(*i, p),
		AtomData::Bool(b) => code == 21 && p == [u8::from(*b)],
		AtomData::Picture(pic) => {
			let want = match pic.mime_type() {
				None => 0,
				Some(MimeType::Gif) => 12,
				Some(MimeType::Jpeg) => 13,
				Some(MimeType::Png) => 14,
				Some(MimeType::Bmp) => 27,
				_ => return false,
			};
			code == want && p == pic.data()
		},
		AtomData::Unknown { code: c, data } => code == u32::from(*c) && p == &data[..],
	}
}

fn ident_str(i: &AtomIdent<'_>) -> String {
	match i {
		AtomIdent::Fourcc(f) => format!("{}", f.escape_ascii()),
		AtomIdent::Freeform { mean, name } => format!("----:{mean}:{name}"),
	}
}

pub struct DecAtom {
	pub ident: String,
	pub data: Vec<(u32, Vec<u8>)>,
}

/// the harness's own decoder of an item list
pub fn ilst_decode(data: &[u8]) -> Result<Vec<DecAtom>, String> {
	let atoms = mp4::parse(data)?;
	let Some(l) = mp4::find(&atoms, &[b"moov", b"udta", b"meta", b"ilst"]) else { return Ok(vec![]) };
	let mut v = vec![];
	for a in &l.kids {
		if &a.id == b"free" {
			continue;
		}
		let mut ident = format!("{}", a.id.escape_ascii());
		let mut kids = &a.kids[..];
		if &a.id == b"----" {
			if kids.len() < 2 || &kids[0].id != b"mean" || &kids[1].id != b"name" {
				return Err("freeform atom without mean and name".into());
			}
			for k in &kids[..2] {
				if k.head.len() < 4 || k.head[..4] != [0; 4] {
					return Err("mean/name version and flags not zero".into());
				}
			}
			ident = format!(
				"----:{}:{}",
				String::from_utf8(kids[0].head[4..].to_vec()).map_err(|_| "mean not UTF-8")?,
				String::from_utf8(kids[1].head[4..].to_vec()).map_err(|_| "name not UTF-8")?
			);
			kids = &kids[2..];
		}
		let mut d = vec![];
		for k in kids {
			if &k.id != b"data" || k.head.len() < 8 {
				return Err(format!("{ident} holds {}", k.id.escape_ascii()));
			}
			if k.head[4..8] != [0; 4] {
				return Err(format!("{ident} locale {:?}", &k.head[4..8]));
			}
			d.push((fmt::rd_be32(&k.head), k.head[8..].to_vec()));
		}
		v.push(DecAtom { ident, data: d });
	}
	Ok(v)
}

fn show_dec(v: &[DecAtom]) -> String {
	v.iter()
		.map(|a| format!("{} {:?}", a.ident, a.data.iter().map(|(c, p)| format!("{c}:{}", lg::c_bytes(p))).collect::<Vec<_>>()))
		.collect::<Vec<_>>()
		.join("; ")
}

fn ilst_case(c: &mut Case) -> R {
	let data = if c.src.chance(1, 3) {
		inputs::tagged(&mut c.src, Kind::Mp4)
	} else {
		let exotic = c.src.bool();
		mp4::gen_mp4(&mut c.src, &mp4::Shape { exotic, ..Default::default() }).0
	};
	let t = ilst_tag(&mut c.src);
	let nt = NTag::Ilst(t.clone());
	if nt.is_empty() {
		return Ok(());
	}
	let o = lg::write_options(&mut c.src);
	c.note(|| format!("save {} in {} bytes", nt.describe(), data.len()));
	let path: [&[u8; 4]; 3] = [b"moov", b"udta", b"meta"];
	let had_meta = mp4::parse(&data).is_ok_and(|a| mp4::find(&a, &path).is_some_and(|m| mp4::find(&m.kids, &[b"hdlr"]).is_some()));
	let had_none = mp4::parse(&data).is_ok_and(|a| mp4::find(&a, &path).is_none());
	let out = save(c, Kind::Mp4, &nt, o, data)?;
	if had_meta || had_none {
		// other readers identify the metadata by its handler
		let e = |m: &str| Fail { sig: "metadata handler".into(), msg: m.to_string() };
		let atoms = mp4::parse(&out).map_err(|m| e(&m))?;
		let meta = mp4::find(&atoms, &path).ok_or_else(|| e("no meta atom after saving"))?;
		let h = meta.kids.first().filter(|h| &h.id == b"hdlr").ok_or_else(|| e("the meta atom does not start with its handler"))?;
		ensure!(
			had_meta || meta.head == [0; 4] && h.head == mp4::meta_hdlr().head,
			"metadata handler",
			"a new meta atom states {:?} and the handler {:?}",
			meta.head,
			h.head
		);
	}
	let dec = ilst_decode(&out).map_err(|e| Fail { sig: "item list structure".into(), msg: e })?;
	let idents: Vec<String> = (&t).into_iter().map(|a| ident_str(a.ident())).collect();
	same_list("atom identifiers", &idents, &dec.iter().map(|a| a.ident.clone()).collect::<Vec<_>>())?;
	for (a, d) in (&t).into_iter().zip(&dec) {
		let ad: Vec<_> = a.data().collect();
		ensure!(
			ad.len() == d.data.len(),
			"atom value count",
			"{} has {} values, wrote {}: {}",
			d.ident,
			ad.len(),
			d.data.len(),
			show_dec(&dec)
		);
		for (x, (code, p)) in ad.iter().zip(&d.data) {
			let kind = format!("{x:?}").split(['(', ' ', '{']).next().unwrap_or("").to_string();
			ensure!(
				atom_matches(x, *code, p),
				format!("atom payload {kind}"),
				"{}: {:?} was written as type {code} {}",
				d.ident,
				format!("{x:?}").chars().take(200).collect::<String>(),
				lg::c_bytes(p)
			);
		}
	}
	let n = read(Kind::Mp4, &out, any_mode(&mut c.src))?;
	let Some(NTag::Ilst(g)) = n.get(TagType::Mp4Ilst) else {
		return fail("item list unread", "no item list is found after saving one");
	};
	same_list("atoms read back", &lg::c_ilst(&t), &lg::c_ilst(g))?;
	c.nontrivial();
	Ok(())
}

/// foreign encodings: integers of any width, free atoms between items, gnre
fn ilst_foreign_case(c: &mut Case) -> R {
	let s = &mut c.src;
	let mut body = vec![];
	let mut want: Vec<String> = vec![];
	let mut names = vec![];
	for i in 0..s.usize(1, 6) {
		let id: [u8; 4] = format!("x{i:03}").into_bytes().try_into().unwrap();
		let mut kids = vec![];
		let n = if s.chance(1, 3) { s.usize(2, 3) } else { 1 };
		let mut vals = vec![];
		for _ in 0..n {
			let (ty, d, shown) = match s.below(6) {
				0 => {
					let v = int_edge(s) as i32;
					let min = if v == i32::from(v as i8) {
						1
					} else if v == i32::from(v as i16) {
						2
					} else if (-0x80_0000..0x80_0000).contains(&v) {
						3
					} else {
						4
					};
					let w = s.usize(min, 4);
					(21, v.to_be_bytes()[4 - w..].to_vec(), format!("{:?}", AtomData::SignedInteger(v)))
				},
				1 => {
					let v = int_edge(s) as u32;
					let min = (4 - (v.leading_zeros() / 8) as usize).max(1);
					let w = s.usize(min, 4);
					(22, v.to_be_bytes()[4 - w..].to_vec(), format!("{:?}", AtomData::UnsignedInteger(v)))
				},
				2 => {
					let t = lg::text(s, Cs::Any, false);
					let mut d: Vec<u8> = vec![];
					match s.below(3) {
						0 => {
							d.extend([0xFE, 0xFF]);
							d.extend(t.encode_utf16().flat_map(u16::to_be_bytes));
						},
						1 => {
							d.extend([0xFF, 0xFE]);
							d.extend(t.encode_utf16().flat_map(u16::to_le_bytes));
						},
						_ => d.extend(t.encode_utf16().flat_map(u16::to_be_bytes)),
					}
					// only the plain form is defined by the format
					if d.starts_with(&[0xFE, 0xFF]) || d.starts_with(&[0xFF, 0xFE]) {
						d = t.encode_utf16().flat_map(u16::to_be_bytes).collect();
					}
					(2, d, format!("{:?}", AtomData::UTF16(t)))
				},
				3 => {
					let n = s.usize(1, 40);
					let d = s.blob(n);
					(0, d.clone(), format!("{:?}", AtomData::Unknown { code: DataType::Reserved, data: d }))
				},
				_ => {
					let t = lg::text(s, Cs::Any, false);
					(1, t.clone().into_bytes(), format!("{:?}", AtomData::UTF8(t)))
				},
			};
			kids.push(mp4::data_atom(ty, &d));
			vals.push(shown);
		}
		let a = if s.chance(1, 4) {
			let name = format!("name {i}");
			let mut m = vec![0; 4];
			m.extend(b"org.example");
			let mut nm = vec![0; 4];
			nm.extend(name.as_bytes());
			let mut k = vec![mp4::Atom::leaf(b"mean", m), mp4::Atom::leaf(b"name", nm)];
			k.extend(kids);
			want.push(format!("{:?} [{}]", AtomIdent::Freeform { mean: "org.example".into(), name: name.into() }, vals.join(", ")));
			mp4::Atom::node(b"----", k)
		} else {
			want.push(format!("{:?} [{}]", AtomIdent::Fourcc(id), vals.join(", ")));
			mp4::Atom::node(&id, kids)
		};
		names.push(vals.len());
		a.write(&mut body);
		if s.chance(1, 5) {
			mp4::Atom::leaf(b"free", vec![0; s.usize(0, 40)]).write(&mut body);
		}
	}
	let data = inputs::mp4_with_ilst(s, &body);
	c.note(|| format!("item list {want:?}").chars().take(1500).collect());
	let n = read(Kind::Mp4, &data, any_mode(&mut c.src))?;
	let Some(NTag::Ilst(g)) = n.get(TagType::Mp4Ilst) else {
		return fail("foreign item list unread", "no item list is found");
	};
	same_list("foreign atoms", &want, &lg::c_ilst(g))?;
	c.nontrivial();
	Ok(())
}

// ------------------------------------------------------------------ C18

fn riff_key(s: &mut Src) -> String {
	match s.below(3) {
		0 => (0..4).map(|_| char::from(*s.pick(b"ABCXYZ0189"))).collect(),
		_ => (*s.pick(&["INAM", "IART", "IPRD", "ICMT", "IGNR", "ISFT", "ITRK", "ICRD", "ICOP", "IENG", "IPRT", "IFRM"])).to_string(),
	}
}

pub fn riff_tag(s: &mut Src) -> RiffInfoList {
	let mut t = RiffInfoList::new();
	for _ in 0..s.usize(1, 8) {
		let k = riff_key(s);
		t.insert(k, sized_text(s));
	}
	t
}

fn sized_text(s: &mut Src) -> String {
	match s.below(3) {
		0 => {
			let n = s.usize(1, 9);
			(0..n).map(|i| char::from(b'a' + i as u8)).collect()
		},
		_ => lg::text(s, Cs::Any, false),
	}
}

fn info_of(k: Kind, f: &riff::Form) -> Result<Vec<(String, Vec<u8>)>, String> {
	let lists: Vec<_> = f.chunks.iter().filter(|c| riff::is_tag_chunk(k, c) && !riff::is_id3(&c.id)).collect();
	if lists.len() > 1 {
		return Err(format!("{} INFO lists", lists.len()));
	}
	let mut v = vec![];
	if let Some(l) = lists.first() {
		let d = &l.data[4..];
		let mut p = 0;
		while p < d.len() {
			if d.len() - p < 8 {
				return Err("stray bytes in the INFO list".into());
			}
			let n = fmt::rd_le32(&d[p + 4..]) as usize;
			if p + 8 + n > d.len() {
				return Err("INFO entry runs past the list".into());
			}
			v.push((String::from_utf8_lossy(&d[p..p + 4]).into_owned(), d[p + 8..p + 8 + n].to_vec()));
			p += 8 + n;
			if n % 2 == 1 {
				if p >= d.len() {
					return Err("INFO entry of odd length lacks its pad byte".into());
				}
				p += 1;
			}
		}
	}
	Ok(v)
}

fn riff_case(c: &mut Case) -> R {
	let k = Kind::Wav;
	let data = preserve::gen_form(&mut c.src, k).to_bytes();
	let t = riff_tag(&mut c.src);
	let nt = NTag::Riff(t.clone());
	if nt.is_empty() {
		return Ok(());
	}
	let o = lg::write_options(&mut c.src);
	c.note(|| format!("save {} in {} bytes", nt.describe(), data.len()));
	let out = save(c, k, &nt, o, data)?;
	let f = riff::parse(&out).map_err(|e| Fail { sig: "RIFF structure".into(), msg: e })?;
	let got = info_of(k, &f).map_err(|e| Fail { sig: "INFO list structure".into(), msg: e })?;
	let want: Vec<String> = lg::c_riff(&t);
	let got: Vec<String> = got
		.into_iter()
		.map(|(k, mut v)| {
			let z = v.last() == Some(&0);
			while v.last() == Some(&0) {
				v.pop();
			}
			format!("{k}={}{}", String::from_utf8_lossy(&v), if z { "" } else { " (unterminated)" })
		})
		.collect();
	same_list("INFO entries decoded", &want, &got)?;
	let n = read(k, &out, any_mode(&mut c.src))?;
	let Some(NTag::Riff(g)) = n.get(TagType::RiffInfo) else {
		return fail("INFO list unread", "no INFO list is found after saving one");
	};
	same_list("INFO entries read back", &want, &lg::c_riff(g))?;
	c.nontrivial();
	Ok(())
}

/// INFO lists and text chunks by other writers
fn riff_foreign_case(c: &mut Case) -> R {
	let (mut f, _) = riff::gen_wav(&mut c.src);
	f.chunks.retain(|x| !riff::is_tag_chunk(Kind::Wav, x));
	let mut want = vec![];
	let mut d = b"INFO".to_vec();
	// some writers leave out the pad bytes, fill them with garbage, use another
	// encoding than UTF-8 or leave a few bytes behind
	let sloppy = c.src.chance(1, 3);
	let mut latin = false;
	for _ in 0..c.src.usize(1, 6) {
		let k = riff_key(&mut c.src);
		let t = sized_text(&mut c.src);
		let mut v;
		if sloppy && c.src.chance(1, 6) {
			latin = true;
			v = vec![b'a', 0xE9, b' ', 0xFC];
		} else {
			want.push(format!("{k}={t}"));
			v = t.into_bytes();
		}
		v.extend(vec![0; c.src.usize(0, 3)]);
		d.extend(k.as_bytes());
		d.extend((v.len() as u32).to_le_bytes());
		d.extend(&v);
		if v.len() % 2 == 1 {
			match c.src.below(if sloppy { 3 } else { 1 }) {
				0 => d.push(0),
				1 => {}
				_ => d.push(c.src.range(0x80, 0xFF) as u8),
			}
		}
	}
	if sloppy && c.src.bool() {
		let n = c.src.usize(1, 7);
		d.extend(vec![0; n]);
		c.class("sloppy list");
	}
	let at = c.src.usize(0, f.chunks.len());
	f.chunks.insert(at, riff::Chunk::new(b"LIST", d));
	let data = f.to_bytes();
	c.note(|| format!("INFO {want:?} at {at}").chars().take(1500).collect());
	// (the strict mode refuses a list with other encodings as a whole)
	let mode = if latin { ParseOptions::new() } else { any_mode(&mut c.src) };
	let n = read(Kind::Wav, &data, mode)?;
	let Some(NTag::Riff(g)) = n.get(TagType::RiffInfo) else {
		if want.is_empty() {
			return Ok(());
		}
		return fail("foreign INFO list unread", "no INFO list is found");
	};
	same_list("foreign INFO entries", &want, &lg::c_riff(g))?;
	c.nontrivial();
	Ok(())
}

pub fn aiff_tag(s: &mut Src) -> AiffTextChunks {
	let mut t = AiffTextChunks::default();
	if s.chance(2, 3) {
		t.name = Some(sized_text(s));
	}
	if s.bool() {
		t.author = Some(sized_text(s));
	}
	if s.bool() {
		t.copyright = Some(sized_text(s));
	}
	if s.bool() {
		t.annotations = Some((0..s.usize(1, 4)).map(|_| sized_text(s)).collect());
	}
	if s.bool() {
		t.comments = Some(
			(0..s.usize(1, 5))
				.map(|_| Comment { timestamp: s.u32(), marker_id: s.below(65536) as u16, text: sized_text(s) })
				.collect(),
		);
	}
	t
}

fn aiff_of(f: &riff::Form) -> Result<Vec<String>, String> {
	let txt = |d: &[u8]| {
		let mut d = d.to_vec();
		while d.last() == Some(&0) {
			d.pop();
		}
		format!("{:?}", String::from_utf8_lossy(&d))
	};
	let mut groups: [Vec<String>; 5] = Default::default();
	for c in &f.chunks {
		match &c.id {
			b"NAME" => groups[0].push(format!("NAME {}", txt(&c.data))),
			b"AUTH" => groups[1].push(format!("AUTH {}", txt(&c.data))),
			b"(c) " => groups[2].push(format!("(c) {}", txt(&c.data))),
			b"ANNO" => groups[3].push(format!("ANNO {}", txt(&c.data))),
			b"COMT" => {
				let d = &c.data;
				let n = u16::from_be_bytes([d[0], d[1]]);
				let mut p = 2;
				for _ in 0..n {
					if d.len() < p + 8 {
						return Err("comment cut".into());
					}
					let ts = fmt::rd_be32(&d[p..]);
					let m = u16::from_be_bytes([d[p + 4], d[p + 5]]);
					let l = u16::from_be_bytes([d[p + 6], d[p + 7]]) as usize;
					p += 8;
					if d.len() < p + l {
						return Err("comment text cut".into());
					}
					groups[4].push(format!("COMT {ts} {m} {}", txt(&d[p..p + l])));
					p += l + l % 2;
				}
				if p != d.len() {
					return Err(format!("comments end at {p} of {}", d.len()));
				}
			},
			_ => {},
		}
	}
	for (g, n) in groups.iter().zip(["NAME", "AUTH", "(c)"]) {
		if g.len() > 1 {
			return Err(format!("{} {n} chunks", g.len()));
		}
	}
	Ok(groups.concat())
}

fn aiff_want(t: &AiffTextChunks) -> Vec<String> {
	let mut v = vec![];
	v.extend(t.name.iter().map(|x| format!("NAME {x:?}")));
	v.extend(t.author.iter().map(|x| format!("AUTH {x:?}")));
	v.extend(t.copyright.iter().map(|x| format!("(c) {x:?}")));
	v.extend(t.annotations.iter().flatten().map(|x| format!("ANNO {x:?}")));
	v.extend(t.comments.iter().flatten().map(|x| format!("COMT {} {} {:?}", x.timestamp, x.marker_id, x.text)));
	v
}

fn aiff_case(c: &mut Case) -> R {
	let k = Kind::Aiff;
	let data = preserve::gen_form(&mut c.src, k).to_bytes();
	let t = aiff_tag(&mut c.src);
	let nt = NTag::Aiff(t.clone());
	if nt.is_empty() {
		return Ok(());
	}
	let o = lg::write_options(&mut c.src);
	c.note(|| format!("save {} in {} bytes", nt.describe(), data.len()));
	let out = save(c, k, &nt, o, data)?;
	let f = riff::parse(&out).map_err(|e| Fail { sig: "AIFF structure".into(), msg: e })?;
	let got = aiff_of(&f).map_err(|e| Fail { sig: "text chunk structure".into(), msg: e })?;
	let want = aiff_want(&t);
	same_list("text chunks decoded", &want, &got)?;
	let n = read(k, &out, any_mode(&mut c.src))?;
	let Some(NTag::Aiff(g)) = n.get(TagType::AiffText) else {
		return fail("text chunks unread", "no text chunks are found after saving them");
	};
	same_list("text chunks read back", &want, &aiff_want(g))?;
	c.nontrivial();
	Ok(())
}

fn aiff_foreign_case(c: &mut Case) -> R {
	let (mut f, _) = riff::gen_aiff(&mut c.src);
	f.chunks.retain(|x| !riff::is_tag_chunk(Kind::Aiff, x));
	let t = aiff_tag(&mut c.src);
	let mut new = vec![];
	let padded = |s: &mut Src, x: &str| {
		let mut v = x.as_bytes().to_vec();
		v.extend(vec![0; s.usize(0, 2)]);
		v
	};
	for (id, x) in [(b"NAME", &t.name), (b"AUTH", &t.author), (b"(c) ", &t.copyright)] {
		if let Some(x) = x {
			new.push(riff::Chunk::new(id, padded(&mut c.src, x)));
		}
	}
	for x in t.annotations.iter().flatten() {
		new.push(riff::Chunk::new(b"ANNO", padded(&mut c.src, x)));
	}
	if let Some(cs) = &t.comments {
		let mut d = (cs.len() as u16).to_be_bytes().to_vec();
		for x in cs {
			d.extend(x.timestamp.to_be_bytes());
			d.extend(x.marker_id.to_be_bytes());
			d.extend((x.text.len() as u16).to_be_bytes());
			d.extend(x.text.as_bytes());
			if x.text.len() % 2 == 1 {
				d.push(0);
			}
		}
		new.push(riff::Chunk::new(b"COMT", d));
	}
	// chunks may lie in any order, annotations keep theirs
	let mut r = Rng::new(c.src.below(1 << 30));
	let mut at = 0;
	for n in new {
		if n.id == *b"ANNO" {
			at = at + r.next() as usize % (f.chunks.len() - at + 1);
			f.chunks.insert(at, n);
			at += 1;
		} else {
			let i = r.next() as usize % (f.chunks.len() + 1);
			if i < at {
				at += 1;
			}
			f.chunks.insert(i, n);
		}
	}
	let data = f.to_bytes();
	c.note(|| format!("{t:?} in {:?}", f.chunks.iter().map(|c| String::from_utf8_lossy(&c.id).into_owned()).collect::<Vec<_>>()));
	let n = read(Kind::Aiff, &data, any_mode(&mut c.src))?;
	let want = aiff_want(&t);
	let got = match n.get(TagType::AiffText) {
		Some(NTag::Aiff(g)) => aiff_want(g),
		_ => vec![],
	};
	same_list("foreign text chunks", &want, &got)?;
	c.nontrivial();
	Ok(())
}

pub fn props() -> Vec<Property> {
	vec![
		Property {
			id: "C14",
			rule: "A case saves a generated ID3v1 tag (fields around their widths, any Latin-1 or other text, all years, tracks and genres) once or twice into a stream with other tags, or decodes 128 generated bytes; non-trivial when the exact 128 bytes and the parsed fields were compared.",
			assumptions: &["the expected 128 bytes come from the harness's own encoder"],
			suites: vec![suite!("write", 250_000, 6_000_000, v1_case), suite!("decode", 300_000, 6_000_000, v1_decode_case)],
		},
		Property {
			id: "C15",
			rule: "A case saves a generated APE tag (any legal keys, text lists, binary, locators, flags) or reads one made by an independent encoder; non-trivial when all items were compared.",
			assumptions: &["the harness's own strict APEv2 decoder is right"],
			suites: vec![suite!("write", 80_000, 2_000_000, ape_case), suite!("foreign", 80_000, 2_000_000, ape_foreign_case), suite!("flags", 20, 20, ape_flags_case)],
		},
		Property {
			id: "C16",
			rule: "A case saves generated comments (repeated keys of any legal characters, any text, long values, pictures) into a generated stream, or reads comments made by an independent encoder (keys and picture fields in any case, n/m numbers, old cover fields, fields without a separator, invalid keys, texts, pictures and vendors); non-trivial when the entries were compared one by one or the refusal was checked.",
			assumptions: &["the harness's own page, packet, comment and picture decoders are right"],
			suites: vec![
				suite!("flac", 60_000, 1_500_000, |c| vc_case(c, VC_KINDS[3])),
				suite!("vorbis", 7_000, 200_000, |c| vc_case(c, VC_KINDS[0])),
				suite!("opus", 7_000, 200_000, |c| vc_case(c, VC_KINDS[1])),
				suite!("speex", 7_000, 200_000, |c| vc_case(c, VC_KINDS[2])),
				suite!("foreign", 120_000, 3_000_000, vc_foreign_case),
			],
		},
		Property {
			id: "C17",
			rule: "A case saves a generated item list (any valid identifiers, freeform names, text, integers, flags, pictures, several values) or reads one made by an independent encoder; non-trivial when identifiers, type codes and payloads were compared.",
			assumptions: &["the harness's own atom decoder is right"],
			suites: vec![suite!("write", 100_000, 3_000_000, ilst_case), suite!("foreign", 100_000, 2_000_000, ilst_foreign_case)],
		},
		Property {
			id: "C18",
			rule: "A case saves a generated INFO list or set of AIFF text chunks with texts of either parity into a generated file, or reads one made by an independent encoder; non-trivial when all entries were compared.",
			assumptions: &["the harness's own chunk decoders are right"],
			suites: vec![
				suite!("riff", 150_000, 4_000_000, riff_case),
				suite!("riff-foreign", 150_000, 4_000_000, riff_foreign_case),
				suite!("aiff", 150_000, 4_000_000, aiff_case),
				suite!("aiff-foreign", 150_000, 4_000_000, aiff_foreign_case),
			],
		},
	]
}
