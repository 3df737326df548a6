//! C12, C13: ID3v2 tags written and read back, and every layout of a tag decoded.

use super::preserve;
use super::roundtrip::{any_mode, read, same_list, save};
use crate::engine::{Case, Fail, Property, R, Src, Suite, fail};
use crate::ensure;
use crate::fmt::id3::{self, Af};
use crate::fmt::{self, Kind, raw, riff, tags};
use crate::lg::{self, Cs, NTag};
use lofty::TextEncoding;
use lofty::config::{ParsingMode, WriteOptions};
use lofty::id3::v2::{Frame, FrameFlags, Id3v2Tag, Id3v2TagFlags, TagRestrictions};
use lofty::tag::TagType;

macro_rules! suite {
	($name:literal, $q:expr, $t:expr, $f:expr) => {
		Suite { name: $name, quick: $q, thorough: $t, run: $f }
	};
}

const KINDS: [Kind; 4] = [Kind::Mp3, Kind::Aac, Kind::Wav, Kind::Aiff];

pub fn te(b: u8) -> TextEncoding {
	[TextEncoding::Latin1, TextEncoding::UTF16, TextEncoding::UTF16BE, TextEncoding::UTF8][b as usize]
}

/// The ID3v2 tag in a file, cut out by the reference parsers.
pub fn tag_bytes(k: Kind, data: &[u8]) -> Result<Vec<u8>, Fail> {
	let e = |m: String| Fail { sig: "file structure after saving ID3v2".into(), msg: m };
	let mut v = match k {
		Kind::Wav | Kind::Aiff => {
			let f = riff::parse(data).map_err(e)?;
			f.chunks.into_iter().filter(|c| riff::is_id3(&c.id)).map(|c| c.data).collect()
		},
		_ => raw::split(k, data).map_err(e)?.id3v2,
	};
	if v.len() != 1 {
		return fail("ID3v2 tag count", format!("{} ID3v2 tags in the file after saving one", v.len()));
	}
	Ok(v.pop().unwrap())
}

fn gen_flags(s: &mut Src) -> FrameFlags {
	let mut f = FrameFlags::default();
	if s.bool() {
		return f;
	}
	f.tag_alter_preservation = s.bool();
	f.file_alter_preservation = s.bool();
	f.read_only = s.bool();
	if s.chance(1, 3) {
		f.grouping_identity = Some(if s.chance(1, 4) { *s.pick(&[0, 1, 0x7F, 0xFF]) } else { s.range(0x80, 0xF0) as u8 });
	}
	if s.chance(1, 6) {
		f.unsynchronisation = true;
	}
	if s.chance(1, 6) {
		f.compression = s.bool();
		f.data_length_indicator = Some(s.below(1 << 20) as u32);
	}
	f
}

/// what of the flags can be found in the file
fn kept_flags(f: FrameFlags, ver: u8) -> FrameFlags {
	let mut o = FrameFlags { unsynchronisation: false, ..f };
	if f.encryption.is_none() {
		o.compression = false;
		o.data_length_indicator = None;
	} else if ver == 3 && !f.compression {
		o.data_length_indicator = None;
	}
	o
}

/// the flag bytes of a frame header
fn flag_bits(f: &FrameFlags, ver: u8) -> u16 {
	// tag alter, file alter, read only, group, compressed, encrypted, length given
	let bits: [u16; 7] = if ver == 4 { [0x4000, 0x2000, 0x1000, 0x40, 8, 4, 1] } else { [0x8000, 0x4000, 0x2000, 0x20, 0x80, 0x40, 0] };
	let set = [
		f.tag_alter_preservation,
		f.file_alter_preservation,
		f.read_only,
		f.grouping_identity.is_some(),
		f.compression,
		f.encryption.is_some(),
		f.data_length_indicator.is_some(),
	];
	bits.iter().zip(set).filter(|(_, s)| *s).map(|(b, _)| b).sum()
}

pub struct Gf {
	pub af: Af,
	pub enc: u8,
	pub flags: FrameFlags,
}

fn simple_genre(s: &mut Src) -> String {
	(*s.pick(&["Rock", "Foo bar", "17", "4", "Remix", "Cover", "Electronic", "h\u{e9}", "AC"])).to_string()
}

fn gen_frames(s: &mut Src, max: usize, ver: u8) -> Vec<Gf> {
	let n = s.usize(1, max);
	let mut v: Vec<Gf> = vec![];
	let mut root = false;
	for _ in 0..n {
		let enc = s.below(4) as u8;
		let cs = if enc == 0 { Cs::Latin1 } else { Cs::Any };
		let mut af = id3::gen_af(s, cs, 2);
		let mut flags = gen_flags(s);
		if s.chance(1, 12) {
			// content nobody can look into
			let id = *s.pick(&["TIT2", "ZZZZ", "APIC", "COMM"]);
			let n = s.usize(1, 200);
			af = Af::Bin { id: id.into(), data: id3::sync_blob(s, n) };
			flags.encryption = Some(s.range(0x81, 0xF0) as u8);
			flags.compression = s.bool();
			flags.data_length_indicator = Some(s.range(1, 100_000) as u32);
		}
		if ver == 3 {
			plain23(s, &mut af, true);
		}
		if let Af::Ctoc { flags, .. } = &af {
			// only one may be the root
			if flags & 2 != 0 && root {
				continue;
			}
			root |= flags & 2 != 0;
		}
		if v.iter().any(|o| o.af.key() == af.key()) {
			continue;
		}
		v.push(Gf { af, enc, flags });
	}
	v
}

/// keeps to what has one evident form in 2.3
fn plain23(s: &mut Src, f: &mut Af, top: bool) {
	match f {
		Af::Text { id, vals } if id == "TCON" => {
			let n = s.usize(1, 3);
			*vals = (0..n).map(|_| simple_genre(s)).collect();
		},
		Af::Time { id, ts } if id == "TDRC" && !top => ts.truncate(4),
		Af::Chap { kids, .. } | Af::Ctoc { kids, .. } => {
			for k in kids {
				plain23(s, k, false);
			}
		},
		_ => {},
	}
}

/// What a 2.3 tag of these frames contains.
fn to23(v: &[Af]) -> Vec<Af> {
	const NEW: &[&str] = &[
		"ASPI", "EQU2", "RVA2", "SEEK", "SIGN", "TDEN", "TDRL", "TDTG", "TMOO", "TPRO", "TSOA", "TSOP", "TSOT", "TSST",
	];
	let mut o = vec![];
	let mut ipls: Vec<(String, String)> = vec![];
	for f in v {
		if NEW.contains(&f.id()) {
			continue;
		}
		let text = |id: &str, t: String| Af::Text { id: id.into(), vals: vec![t] };
		match f {
			Af::Time { id, ts } if id == "TDOR" => o.push(text("TORY", ts[..4].into())),
			Af::Time { ts, .. } => {
				o.push(text("TYER", ts[..4].into()));
				if ts.len() >= 10 {
					o.push(text("TDAT", format!("{}{}", &ts[8..10], &ts[5..7])));
				}
				if ts.len() >= 16 {
					o.push(text("TIME", format!("{}{}", &ts[11..13], &ts[14..16])));
				}
			},
			Af::Pairs { pairs, .. } => ipls.extend(pairs.clone()),
			Af::Text { id, vals } if id == "TCON" => {
				let n = vals.len();
				let t = vals
					.iter()
					.enumerate()
					.map(|(i, g)| match &**g {
						"Remix" => "(RX)".to_string(),
						"Cover" => "(CR)".to_string(),
						g if i + 1 == n && g.parse::<u8>().is_err() => g.to_string(),
						g => format!("({g})"),
					})
					.collect::<String>();
				o.push(text("TCON", t));
			},
			Af::Chap { id, at, kids } => o.push(Af::Chap { id: id.clone(), at: *at, kids: to23(kids) }),
			Af::Ctoc { id, flags, entries, kids } => {
				o.push(Af::Ctoc { id: id.clone(), flags: *flags, entries: entries.clone(), kids: to23(kids) })
			},
			f => o.push(f.clone()),
		}
	}
	if !ipls.is_empty() {
		o.push(Af::Pairs { id: "TIPL".into(), pairs: ipls });
	}
	o
}

/// What a reader makes of a 2.3 tag.
fn from23(v: &[Af], top: bool) -> Vec<Af> {
	let txt = |id: &str| {
		v.iter().find_map(|f| match f {
			Af::Text { id: i, vals } if i == id => Some(vals[0].clone()),
			_ => None,
		})
	};
	let mut o = vec![];
	for f in v {
		match f {
			Af::Text { id, vals } if id == "TORY" => o.push(Af::Time { id: "TDOR".into(), ts: vals[0].clone() }),
			Af::Text { id, vals } if id == "TYER" => {
				let mut ts = vals[0].clone();
				if let (true, Some(d)) = (top, txt("TDAT")) {
					ts.push_str(&format!("-{}-{}", &d[2..], &d[..2]));
					if let Some(t) = txt("TIME") {
						ts.push_str(&format!("T{}:{}", &t[..2], &t[2..]));
					}
				}
				o.push(Af::Time { id: "TDRC".into(), ts });
			},
			Af::Text { id, .. } if top && (id == "TDAT" || id == "TIME") => {},
			Af::Chap { id, at, kids } => o.push(Af::Chap { id: id.clone(), at: *at, kids: from23(kids, false) }),
			Af::Ctoc { id, flags, entries, kids } => {
				o.push(Af::Ctoc { id: id.clone(), flags: *flags, entries: entries.clone(), kids: from23(kids, false) })
			},
			f => o.push(f.clone()),
		}
	}
	o
}

pub fn show(v: &[Af]) -> Vec<String> {
	v.iter().map(|f| format!("{f:?}")).collect()
}

fn sorted(mut v: Vec<String>) -> Vec<String> {
	v.sort();
	v
}

pub fn frames_of(t: &Id3v2Tag) -> Vec<Af> {
	t.into_iter().map(id3::af_of).collect()
}

fn genres(t: &Id3v2Tag) -> Vec<String> {
	t.genres().map(|g| g.map(str::to_string).collect()).unwrap_or_default()
}

fn write_case(c: &mut Case, ver: u8) -> R {
	let k = *c.src.pick(&KINDS);
	let data = match k {
		Kind::Wav | Kind::Aiff => preserve::gen_form(&mut c.src, k).to_bytes(),
		_ => preserve::gen_parts(&mut c.src, k).to_bytes(),
	};
	let max = *c.src.pick(&[1usize, 2, 6, 12]);
	let fr = gen_frames(&mut c.src, max, ver);
	let mut tag = Id3v2Tag::new();
	for f in &fr {
		let mut x = id3::to_frame(&f.af, te(f.enc));
		x.set_flags(f.flags);
		tag.insert(x);
	}
	let mut tf = Id3v2TagFlags::default();
	if c.src.bool() {
		tf.unsynchronisation = c.src.chance(1, 4);
		tf.experimental = c.src.chance(1, 4);
		tf.footer = c.src.chance(1, 3);
		tf.crc = c.src.chance(1, 3);
		if c.src.chance(1, 3) {
			tf.restrictions = Some(TagRestrictions::from_byte(c.src.u8()));
		}
	}
	tag.set_flags(tf);
	let mut o: WriteOptions = lg::write_options(&mut c.src);
	o.use_id3v23(ver == 3);
	let all: Vec<Af> = fr.iter().map(|f| f.af.clone()).collect();
	c.note(|| format!("2.{ver} in {} ({} bytes), flags {tf:?}: {}", k.name(), data.len(), id3::brief(&all)));
	let out = save(c, k, &NTag::Id3v2(tag.clone()), o, data)?;
	let want = if ver == 3 { to23(&all) } else { all.clone() };
	if want.is_empty() {
		return Ok(());
	}

	// the bytes, by the reference decoder
	let b = tag_bytes(k, &out)?;
	let structure = |m: String| Fail { sig: "ID3v2 structure".into(), msg: m };
	let (v, frames, pad) = tags::id3v2_decode(&b).map_err(structure)?;
	ensure!(v == ver, "ID3v2 version", "asked for 2.{ver}, wrote 2.{v}");
	let ext = id3::ext_of(&b).map_err(structure)?;
	let footer = tf.footer && ver == 4 && !matches!(k, Kind::Wav | Kind::Aiff);
	ensure!(b[5] & 0x80 == 0, "ID3v2 unsynchronisation flag", "flag set on a tag that is not unsynchronised");
	ensure!((b[5] & 0x20 != 0) == tf.experimental, "ID3v2 experimental flag", "flags {:02x}", b[5]);
	ensure!((b[5] & 0x10 != 0) == footer, "ID3v2 footer flag", "flags {:02x}, footer wanted: {footer}", b[5]);
	ensure!(b[4] == 0, "ID3v2 revision", "revision {}", b[4]);
	ensure!(b[5] & 0x0F == 0, "ID3v2 undefined flags", "flags {:02x}", b[5]);
	ensure!((b[5] & 0x40 != 0) == ext.is_some(), "ID3v2 extended header flag", "flags {:02x}", b[5]);
	if ver == 4 {
		let (crc, restr) = ext.unwrap_or_default();
		ensure!(crc.is_some() == tf.crc, "ID3v2 CRC", "CRC wanted: {}, present: {}", tf.crc, crc.is_some());
		ensure!(restr == tf.restrictions.map(|r| r.as_bytes()), "ID3v2 restrictions", "{restr:?} for {:?}", tf.restrictions);
		if let Some(crc) = crc {
			let start = 10 + raw::synchsafe(&b[10..]) as usize;
			let end = b.len() - if footer { 10 } else { 0 };
			let sum = |d: &[u8]| {
				let mut c = flate2::Crc::new();
				c.update(d);
				c.sum()
			};
			// whether padding counts is told differently by different writers
			ensure!(
				crc == sum(&b[start..end]) || crc == sum(&b[start..end - pad]),
				"ID3v2 CRC",
				"CRC {crc:08x} is not that of the frames"
			);
		}
	}
	let mut got = vec![];
	let mut at = 0;
	for f in &frames {
		let id = f.id.escape_ascii().to_string();
		let bad = |m: String| Fail { sig: format!("ID3v2 frame {id} malformed"), msg: m };
		let (payload, group, encr) = id3::unflag(f, ver).map_err(bad)?;
		// the frame this one came from
		let src = fr.iter().find(|g| {
			g.af.id() == id
				&& g.flags.encryption.is_some() == encr.is_some()
				&& (encr.is_none() || matches!(&g.af, Af::Bin { data, .. } if *data == payload))
		});
		at += 1;
		if let Some(g) = src.filter(|_| fr.iter().filter(|x| x.af.id() == id).count() == 1) {
			let kf = kept_flags(g.flags, ver);
			ensure!(
				f.flags == flag_bits(&kf, ver) && group == kf.grouping_identity && encr == kf.encryption,
				"ID3v2 frame flags",
				"frame {at} ({id}): wrote {:04x} {group:?} {encr:?} for {:?}",
				f.flags,
				g.flags
			);
		}
		if encr.is_some() {
			got.push(Af::Bin { id, data: payload });
		} else {
			got.push(id3::decode(&id, ver, &payload).map_err(bad)?);
		}
	}
	same_list("ID3v2 frames decoded", &show(&want), &show(&got))?;

	// the library's reading
	let m = any_mode(&mut c.src);
	let n = read(k, &out, m)?;
	let Some(NTag::Id3v2(g)) = n.get(TagType::Id3v2) else {
		return fail("ID3v2 tag lost", "no ID3v2 tag is found after saving one");
	};
	if ver == 4 {
		same_list("ID3v2 frames read back", &show(&all), &show(&frames_of(g)))?;
		for (w, r) in fr.iter().zip(g.into_iter()) {
			ensure!(
				r.flags() == kept_flags(w.flags, ver),
				"ID3v2 frame flags read back",
				"{}: {:?} became {:?}",
				w.af.id(),
				w.flags,
				r.flags()
			);
			if let Some(e) = id3::enc_of(r) {
				ensure!(e == te(w.enc), "ID3v2 text encoding read back", "{}: {:?} became {e:?}", w.af.id(), te(w.enc));
			}
		}
		let f = g.flags();
		ensure!(
			f.footer == footer && f.experimental == tf.experimental && f.crc == tf.crc && f.restrictions == tf.restrictions && !f.unsynchronisation,
			"ID3v2 tag flags read back",
			"{tf:?} became {f:?}"
		);
	} else {
		same_list("ID3v2 frames read back", &sorted(show(&from23(&want, true))), &sorted(show(&frames_of(g))))?;
		ensure!(genres(&tag) == genres(g), "ID3v2 genres read back", "{:?} became {:?}", genres(&tag), genres(g));
	}
	c.nontrivial();
	Ok(())
}

fn write24(c: &mut Case) -> R {
	write_case(c, 4)
}

fn write23(c: &mut Case) -> R {
	write_case(c, 3)
}

/// Reading and saving again changes nothing, whatever wrote the tag.
fn resave_case(c: &mut Case) -> R {
	let k = *c.src.pick(&KINDS);
	let (t, l, exp) = id3::gen_tag(&mut c.src, 8);
	let data = put(&mut c.src, k, t);
	c.note(|| format!("resave {l:?} in {}: {}", k.name(), id3::brief(&exp)));
	let n = read(k, &data, lofty::config::ParseOptions::new())?;
	let Some(NTag::Id3v2(g)) = n.get(TagType::Id3v2) else { return Ok(()) };
	if g.into_iter().count() == 0 {
		return Ok(());
	}
	let out = save(c, k, &NTag::Id3v2(g.clone()), WriteOptions::default(), data)?;
	let n2 = read(k, &out, any_mode(&mut c.src))?;
	let Some(NTag::Id3v2(h)) = n2.get(TagType::Id3v2) else {
		return fail("ID3v2 tag lost", "no ID3v2 tag is found after saving one that was read");
	};
	same_list("ID3v2 resaved", &show(&frames_of(g)), &show(&frames_of(h)))?;
	let b = tag_bytes(k, &out)?;
	tags::id3v2_decode(&b).map_err(|m| Fail { sig: "ID3v2 structure".into(), msg: m })?;
	c.nontrivial();
	Ok(())
}

// ------------------------------------------------------------------ C13

const READ_KINDS: [Kind; 7] = [Kind::Mp3, Kind::Aac, Kind::Ape, Kind::Mpc, Kind::Flac, Kind::Wav, Kind::Aiff];

/// a file of the kind that holds exactly this ID3v2 tag
fn put(s: &mut Src, k: Kind, t: Vec<u8>) -> Vec<u8> {
	match k {
		Kind::Wav | Kind::Aiff => {
			let mut f = if k == Kind::Wav { riff::gen_wav(s).0 } else { riff::gen_aiff(s).0 };
			f.chunks.retain(|x| !riff::is_tag_chunk(k, x));
			let at = s.usize(0, f.chunks.len());
			f.chunks.insert(at, riff::Chunk::new(b"ID3 ", t));
			f.to_bytes()
		},
		_ => {
			let mut v = t;
			v.extend(fmt::gen_plain(s, k));
			v
		},
	}
}

/// the overall bitrate includes the tags
fn audio_only(p: &str) -> String {
	let Some(i) = p.find("overall_bitrate: ") else { return p.to_string() };
	let j = p[i..].find(',').map_or(p.len(), |j| i + j);
	format!("{}{}", &p[..i], &p[j..])
}

fn layout_case(c: &mut Case) -> R {
	let k = *c.src.pick(&READ_KINDS);
	let max = *c.src.pick(&[1usize, 3, 8]);
	let mode = any_mode(&mut c.src);
	// (frames have to have content, but only the strict mode insists)
	let mut strict = mode;
	strict.parsing_mode(ParsingMode::Strict);
	let empty = strict != mode && c.src.chance(1, 8);
	let (t, l, exp) = id3::gen_tag_with(&mut c.src, max, empty);
	let size = t.len();
	let data = put(&mut c.src, k, t.clone());
	c.note(|| format!("{l:?} in {}: {}", k.name(), id3::brief(&exp)));
	// an ID3v1 tag that begins within the ID3v2 tag of a tiny file: left open
	if data.len() >= 128 && data.len() - 128 < size && data[data.len() - 128..].starts_with(b"TAG") {
		c.class("TAG 128 bytes from the end");
		return Ok(());
	}
	let n = read(k, &data, mode)?;
	let got = match n.get(TagType::Id3v2) {
		Some(NTag::Id3v2(g)) => {
			let want = [lofty::id3::v2::Id3v2Version::V2, lofty::id3::v2::Id3v2Version::V3, lofty::id3::v2::Id3v2Version::V4][l.ver as usize - 2];
			ensure!(g.original_version() == want, "ID3v2 version reported", "{:?} for 2.{}", g.original_version(), l.ver);
			frames_of(g)
		},
		_ => vec![],
	};
	same_list("ID3v2 layout decoded", &sorted(show(&exp)), &sorted(show(&got)))?;
	// what follows the tag is still seen the same
	if !matches!(k, Kind::Wav | Kind::Aiff) {
		let bare = read(k, &data[size..], mode)?;
		// part of an AAC stream's bitrate is taken over the whole file
		if k != Kind::Aac {
			ensure!(audio_only(&bare.props) == audio_only(&n.props), "audio after an ID3v2 tag", "without the tag {} with {}", bare.props, n.props);
		}
	}
	c.class(["2.2", "2.3", "2.4"][l.ver as usize - 2]);
	if l.unsync {
		c.class("unsynchronised");
	}
	if l.ext && l.ver > 2 {
		c.class("extended header");
	}
	if l.footer {
		c.class("footer");
	}
	if empty {
		c.class("frames without content");
	}
	if !exp.is_empty() {
		c.nontrivial();
	}
	Ok(())
}

/// A file with several tags: the frames of the later ones are added, or replace their equals.
fn several_case(c: &mut Case) -> R {
	let s = &mut c.src;
	let k = *s.pick(&[Kind::Mp3, Kind::Aac, Kind::Wav, Kind::Aiff]);
	let n = s.usize(2, 3);
	let mut exp: Vec<Af> = vec![];
	let mut tags = vec![];
	let mut replaced = 0;
	let mut said = vec![];
	let mut first = 0;
	for i in 0..n {
		let (t, l, e) = id3::gen_tag(s, 5);
		said.push(format!("{l:?}: {}", id3::brief(&e)));
		if i == 0 {
			first = l.ver;
		}
		for f in e {
			let before = exp.len();
			let same = |o: &Af| o.key() == f.key() && (!matches!(f, Af::Pic { .. }) || format!("{o:?}") == format!("{f:?}"));
			exp.retain(|o| !same(o));
			replaced += before - exp.len();
			exp.push(f);
		}
		tags.push(t);
	}
	let said = said.join(" + ");
	let data = if matches!(k, Kind::Wav | Kind::Aiff) {
		let mut f = if k == Kind::Wav { riff::gen_wav(s).0 } else { riff::gen_aiff(s).0 };
		f.chunks.retain(|x| !riff::is_tag_chunk(k, x));
		let mut at: Vec<usize> = tags.iter().map(|_| s.usize(0, f.chunks.len())).collect();
		at.sort();
		for (t, at) in tags.into_iter().zip(at).rev() {
			f.chunks.insert(at, riff::Chunk::new(if s.bool() { b"ID3 " } else { b"id3 " }, t));
		}
		f.to_bytes()
	} else {
		let mut d: Vec<u8> = tags.concat();
		d.extend(fmt::gen_plain(s, k));
		d
	};
	c.note(|| format!("{}: {said}", k.name()));
	let mode = any_mode(&mut c.src);
	let nat = read(k, &data, mode)?;
	let (got, ver) = match nat.get(TagType::Id3v2) {
		Some(NTag::Id3v2(g)) => (frames_of(g), format!("{:?}", g.original_version())),
		_ => (vec![], String::new()),
	};
	// (a tag can have one file icon and one list of people only, but is not held to that)
	let rest = |v: &[Af]| -> Vec<Af> { v.iter().filter(|f| !matches!(f, Af::Pic { ty: 1 | 2, .. } | Af::Pairs { .. })).cloned().collect() };
	// binary frames with different flags are not equals
	let set = |v: &[Af]| {
		let mut v = sorted(show(&rest(v)));
		v.dedup();
		v
	};
	same_list("ID3v2 tags of a file added up", &set(&exp), &set(&got))?;
	ensure!(ver.is_empty() || ver == format!("V{first}"), "ID3v2 version of several tags", "{ver}, the first is 2.{first}");
	c.class(k.name());
	if replaced > 0 {
		c.class("replaced");
	}
	if exp.len() > 1 {
		c.nontrivial();
	}
	Ok(())
}

/// One list of frames in two layouts.
fn pair_case(c: &mut Case) -> R {
	let s = &mut c.src;
	let afs = id3::gen_afs(s, Cs::Latin1, 1, 6);
	let mut texts = vec![];
	let mut outs: Vec<Vec<String>> = vec![];
	for _ in 0..2 {
		let l = id3::gen_layout(s);
		let mut b = vec![];
		let mut exp = vec![];
		for f in &afs {
			let e = id3::gen_enc(s, l.ver);
			let Some(parts) = id3::encode(f, l.ver, e) else { continue };
			for (id, d) in &parts {
				let mut ff = id3::gen_fflags(s, l.ver);
				if l.ver == 4 && l.unsync {
					ff.unsync = true;
				}
				if d.is_empty() {
					continue;
				}
				id3::put_frame(&mut b, l.ver, id, d, ff);
			}
			exp.push(f.key());
		}
		texts.push(format!("{l:?}"));
		let mut data = id3::wrap(&l, &b);
		data.extend(fmt::gen_plain(s, Kind::Mp3));
		let n = read(Kind::Mp3, &data, lofty::config::ParseOptions::new())?;
		let got = match n.get(TagType::Id3v2) {
			Some(NTag::Id3v2(g)) => frames_of(g),
			_ => vec![],
		};
		let mut v: Vec<String> = got.iter().map(|f| format!("{}\0{f:?}", f.key())).collect();
		v.sort();
		outs.push(v);
	}
	let notes = texts.join(" / ");
	c.note(|| format!("{notes}: {}", id3::brief(&afs)));
	// frames that only one of the versions can hold are left out
	let key = |x: &String| x.split('\0').next().unwrap().to_string();
	let (a, b) = (outs[0].clone(), outs[1].clone());
	let a2: Vec<String> = a.iter().filter(|x| b.iter().any(|y| key(y) == key(x))).cloned().collect();
	let b2: Vec<String> = b.iter().filter(|x| a.iter().any(|y| key(y) == key(x))).cloned().collect();
	same_list("ID3v2 layouts disagree", &a2, &b2)?;
	if a2.len() > 1 {
		c.nontrivial();
	}
	Ok(())
}

/// Encrypted frames keep their content and what their flags announce.
fn encrypted_case(c: &mut Case) -> R {
	let s = &mut c.src;
	let ver = if s.bool() { 4 } else { 3 };
	let mut l = id3::gen_layout(s);
	l.ver = ver;
	if ver == 3 {
		l.footer = false;
	}
	let n = s.usize(1, 300);
	let payload = id3::sync_blob(s, n);
	let m = s.range(0x81, 0xF0) as u8;
	let group = if s.bool() { Some(s.range(0x80, 0xF0) as u8) } else { None };
	let comp = s.bool();
	let unsync = ver == 4 && (l.unsync || s.bool());
	// built by hand, as the content is opaque
	let mut x = vec![];
	let mut flags = 0u16;
	if ver == 4 {
		if let Some(g) = group {
			flags |= 0x40;
			x.push(g);
		}
		flags |= 4 | 1;
		x.push(m);
		if comp {
			flags |= 8;
		}
		x.extend(tags::ss(77));
		if unsync {
			flags |= 2;
			x.extend(id3::unsync(&payload));
		} else {
			x.extend(&payload);
		}
	} else {
		if comp {
			flags |= 0x80;
			x.extend(fmt::be32(0x1_0277));
		}
		flags |= 0x40;
		x.push(m);
		if let Some(g) = group {
			flags |= 0x20;
			x.push(g);
		}
		x.extend(&payload);
	}
	let id = *s.pick(&["ZZZZ", "TIT3", "APIC", "TYER", "TRDA"]);
	let id = if ver == 4 && id.starts_with("TY") { "TDRC" } else { id };
	let mut b = id.as_bytes().to_vec();
	b.extend(if ver == 4 { tags::ss(x.len() as u32) } else { fmt::be32(x.len() as u32) });
	b.extend(flags.to_be_bytes());
	b.extend(x);
	let mut ff = id3::FFlags::default();
	ff.unsync = ver == 4 && l.unsync;
	id3::put_frame(&mut b, ver, "TIT2", &tags::id3_text("after")[..].iter().enumerate().map(|(i, b)| if i == 0 { 0 } else { *b }).collect::<Vec<_>>(), ff);
	let mut data = id3::wrap(&l, &b);
	data.extend(fmt::gen_plain(s, Kind::Mp3));
	c.note(|| format!("{l:?} encrypted method={m:02x} group={group:?} comp={comp} unsync={unsync} {} bytes", payload.len()));
	let n = read(Kind::Mp3, &data, any_mode(&mut c.src))?;
	let Some(NTag::Id3v2(g)) = n.get(TagType::Id3v2) else {
		return fail("ID3v2 tag with an encrypted frame unread", "no tag found");
	};
	let v: Vec<&Frame<'_>> = g.into_iter().collect();
	ensure!(v.len() == 2, "encrypted frame read", "{} frames for 2", v.len());
	// (the date of 2.3 is put together after all frames are read)
	let first = usize::from(matches!(v[1], Frame::Binary(_)));
	let Frame::Binary(bf) = v[first] else {
		return fail("encrypted frame read", format!("encrypted frame became {:?}", v[0]));
	};
	let want = if id == "TYER" { "TDRC" } else { id };
	ensure!(bf.id().as_str() == want || id == "TRDA", "encrypted frame ID", "{id} became {}", bf.id().as_str());
	ensure!(bf.data == payload, "encrypted frame content", "{}", crate::util::first_diff(&payload, &bf.data));
	let f = bf.flags();
	let dli = if ver == 4 {
		Some(77)
	} else if comp {
		Some(0x1_0277)
	} else {
		None
	};
	ensure!(
		f.encryption == Some(m) && f.grouping_identity == group && f.compression == comp && f.data_length_indicator == dli,
		"encrypted frame flags",
		"{f:?}"
	);
	ensure!(id3::af_of(v[1 - first]) == Af::Text { id: "TIT2".into(), vals: vec!["after".into()] }, "frame after an encrypted one", "{:?}", v[1]);
	c.nontrivial();
	Ok(())
}

pub fn props() -> Vec<Property> {
	vec![
		Property {
			id: "C12",
			rule: "a tag of at least one frame that the version can hold was saved, decoded by the reference decoder and read back",
			assumptions: &["text without NUL; in 2.3 genres without parentheses; no timestamps with dates inside chapters in 2.3; text representable in the frame's encoding"],
			suites: vec![suite!("v24", 120_000, 2_000_000, write24), suite!("v23", 120_000, 2_000_000, write23), suite!("resave", 60_000, 1_000_000, resave_case)],
		},
		Property {
			id: "C13",
			rule: "a tag of at least one frame in some layout was decoded and compared with the frames it was built from",
			assumptions: &["layouts that the specifications allow; unsynchronisation applied as each version defines"],
			suites: vec![
				suite!("layouts", 200_000, 3_000_000, layout_case),
				suite!("pairs", 90_000, 1_000_000, pair_case),
				suite!("encrypted", 40_000, 500_000, encrypted_case),
				suite!("several", 30_000, 500_000, several_case),
			],
		},
	]
}
