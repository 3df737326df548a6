//! C25-C28: reading options, file type detection, audio properties.

use super::preserve::{self, esig, gen_op};
use super::robust;
use crate::engine::{Case, Fail, Property, R, Src, Suite, fail, guard};
use crate::ensure;
use crate::fmt::{self, ALL_KINDS, Expect, Kind, flac, mp4, ogg, raw, riff, tags};
use crate::inputs;
use crate::lg::{self, NTag};
use crate::rd::{self, Native};
use crate::util::{Budget, Mem, Scratch};
use lofty::config::{ParseOptions, ParsingMode, WriteOptions};
use lofty::file::{EXTENSIONS, FileType};
use lofty::file::AudioFile;
use lofty::properties::FileProperties;
use lofty::tag::TagType;
use std::io::Cursor;

macro_rules! suite {
	($name:literal, $q:expr, $t:expr, $f:expr) => {
		Suite { name: $name, quick: $q, thorough: $t, run: $f }
	};
}

/// from strict to lenient
const MODES: [ParsingMode; 3] = [ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::Relaxed];

/// (the setters change the value they are called on)
fn but(o: ParseOptions, f: impl FnOnce(&mut ParseOptions)) -> ParseOptions {
	let mut o = o;
	f(&mut o);
	o
}

fn with(k: Kind, data: &[u8], o: ParseOptions) -> Result<Result<Native, String>, Fail> {
	guard(|| rd::read_native(k, &mut Budget::new(data), o, false))
}

fn must(k: Kind, data: &[u8], o: ParseOptions, what: &str) -> Result<Native, Fail> {
	match with(k, data, o)? {
		Ok(n) => Ok(n),
		Err(e) => fail(format!("{} unreadable {what}: {}", k.name(), esig(&e)), format!("well-formed file refused with {o:?}: {e}")),
	}
}

// ------------------------------------------------------------------ C25

/// Tags with content, as lines, keyed by type.
fn lines(n: &Native) -> Vec<(TagType, Vec<String>)> {
	n.tags.iter().map(|t| (t.ty(), rd::canon_full(t))).collect()
}

fn without_pictures(t: &NTag) -> NTag {
	use lofty::ape::{APE_PICTURE_TYPES, ApeTag};
	use lofty::id3::v2::Frame;
	use lofty::ogg::OggPictureStorage;
	let mut t = t.clone();
	match &mut t {
		NTag::Id3v2(t) => {
			let mut frames: Vec<Frame<'static>> = (&*t).into_iter().cloned().collect();
			t.retain(|f| !matches!(f, Frame::Picture(_)));
			if frames.iter().any(|f| matches!(f, Frame::Chapter(_) | Frame::TableOfContents(_))) {
				// (in the same order)
				t.retain(|_| false);
				frames.retain(|f| !matches!(f, Frame::Picture(_)));
				for mut f in frames {
					match &mut f {
						Frame::Chapter(c) => c.children.retain(|f| !matches!(f, Frame::Picture(_))),
						Frame::TableOfContents(c) => c.children.retain(|f| !matches!(f, Frame::Picture(_))),
						_ => {},
					}
					t.insert(f);
				}
			}
		},
		NTag::Ape(a) => {
			let mut n = ApeTag::new();
			for i in &*a {
				if !APE_PICTURE_TYPES.iter().any(|k| k.eq_ignore_ascii_case(i.key())) {
					n.push(i.clone());
				}
			}
			n.read_only = a.read_only;
			*a = n;
		},
		NTag::Vorbis(v) => {
			while !v.pictures().is_empty() {
				v.remove_picture(0);
			}
		},
		NTag::Ilst(i) => i.remove_pictures(),
		_ => {},
	}
	t
}

/// content per tag type; an absent tag and an empty one are the same
fn drop_empty(v: Vec<NTag>) -> Vec<(TagType, Vec<String>)> {
	v.iter().filter(|t| !t.is_empty()).map(|t| (t.ty(), rd::canon_full(t))).collect()
}

fn differ(a: &[(TagType, Vec<String>)], b: &[(TagType, Vec<String>)]) -> String {
	for (x, y) in a.iter().zip(b) {
		if x != y {
			if x.0 != y.0 {
				return format!("{:?} vs {:?}", x.0, y.0);
			}
			for (p, q) in x.1.iter().zip(&y.1) {
				if p != q {
					return format!("{:?}: {} | {}", x.0, p.chars().take(300).collect::<String>(), q.chars().take(300).collect::<String>());
				}
			}
			return format!("{:?}: {} entries vs {}", x.0, x.1.len(), y.1.len());
		}
	}
	format!("{:?} vs {:?}", a.iter().map(|x| x.0).collect::<Vec<_>>(), b.iter().map(|x| x.0).collect::<Vec<_>>())
}

/// A file with pictures anywhere between the other entries of its tags.
fn covers(s: &mut Src, k: Kind) -> Vec<u8> {
	let n = s.usize(2, 6);
	// None: text
	let entries: Vec<Option<Vec<u8>>> = (0..n)
		.map(|i| {
			s.bool().then(|| {
				let mut d = lg::png(1 + i as u32, 1, 8, 2, None, 0);
				let n = s.size(3000, &[]);
				d.extend(s.blob(n));
				d
			})
		})
		.collect();
	let text = |i: usize| format!("value {i}");
	let ape = |ro: bool| {
		let names = ["Cover Art (Front)", "Cover Art (Back)", "Cover Art (Other)", "Cover Art (Artist)", "Cover Art (Icon)", "Cover Art (Media)"];
		let items: Vec<tags::ApeIt> = entries
			.iter()
			.enumerate()
			.map(|(i, e)| match e {
				Some(d) => tags::ApeIt { key: names[i].into(), ty: 1, read_only: ro, value: [b"name.png\0", &d[..]].concat() },
				None => tags::ApeIt { key: format!("Key {i}"), ty: 0, read_only: ro, value: text(i).into_bytes() },
			})
			.collect();
		tags::ape_encode(&items, true, 2000)
	};
	let chapter = s.chance(1, 3).then(|| s.usize(0, n));
	let id3 = || {
		let names = [b"TIT2", b"TPE1", b"TALB", b"TCOM", b"TPE2", b"TENC"];
		let mut frames: Vec<(&[u8; 4], Vec<u8>)> = entries
			.iter()
			.enumerate()
			.map(|(i, e)| match e {
				Some(d) => (b"APIC", [&b"\0image/png\0"[..], &[3 + i as u8], format!("d{i}\0").as_bytes(), d].concat()),
				None => (names[i], tags::id3_text(&text(i))),
			})
			.collect();
		// a chapter with the same entries
		if let Some(at) = chapter {
			let inner = tags::id3v24(&frames, 0);
			let head = [&b"chapter\0"[..], &[0; 4], &[0, 0, 9, 9], &[0xFF; 8]].concat();
			frames.insert(at, (b"CHAP", [&head[..], &inner[10..]].concat()));
		}
		tags::id3v24(&frames, 10)
	};
	let vc = || {
		let items: Vec<(String, String)> = entries
			.iter()
			.enumerate()
			.map(|(i, e)| match e {
				Some(d) => ("METADATA_BLOCK_PICTURE".into(), tags::b64_encode(&tags::flac_picture(3 + i as u32, "image/png", "", [0; 4], d))),
				None => (format!("KEY{i}"), text(i)),
			})
			.collect();
		tags::vc_encode("v", &items)
	};
	match k {
		Kind::Mp4 => {
			let names = [b"\xA9nam", b"\xA9ART", b"\xA9alb", b"\xA9wrt", b"aART", b"\xA9too"];
			let kids = entries
				.iter()
				.enumerate()
				.map(|(i, e)| match e {
					Some(d) => mp4::Atom::node(b"covr", vec![mp4::data_atom(14, d)]),
					None => mp4::Atom::node(names[i], vec![mp4::data_atom(1, text(i).as_bytes())]),
				})
				.collect();
			mp4::gen_mp4(s, &mp4::Shape { ilst: Some(kids), ..Default::default() }).0
		},
		k if k.is_ogg() => {
			let c = vc();
			ogg::gen_ogg_with(s, k, &c, &[]).0.to_bytes()
		},
		Kind::Flac => {
			let (mut f, _) = flac::gen_flac(s);
			let c = vc();
			f.blocks.push(flac::Block { ty: 4, data: c });
			f.to_bytes()
		},
		Kind::Wav | Kind::Aiff => {
			let mut f = if k == Kind::Wav { riff::gen_wav(s).0 } else { riff::gen_aiff(s).0 };
			f.chunks.push(riff::Chunk::new(b"ID3 ", id3()));
			f.to_bytes()
		},
		Kind::Aac => [id3(), fmt::gen_plain(s, k)].concat(),
		Kind::WavPack => [fmt::gen_plain(s, k), ape(false)].concat(),
		_ => {
			let ro = s.bool();
			let mut v = if s.bool() { id3() } else { vec![] };
			v.extend(fmt::gen_plain(s, k));
			v.extend(ape(ro));
			v
		},
	}
}

fn c25_options(c: &mut Case) -> R {
	let k = *c.src.pick(&ALL_KINDS);
	let mut d = if c.src.chance(1, 3) { covers(&mut c.src, k) } else { inputs::tagged(&mut c.src, k) };
	let name = k.name();
	// an APE tag before the audio
	if matches!(k, Kind::Ape | Kind::Mp3) && !d.starts_with(b"ID3") && c.src.chance(1, 4) {
		let n = c.src.usize(1, 3);
		let items: Vec<tags::ApeIt> = (0..n).map(|i| tags::ApeIt { key: format!("Lead {i}"), ty: 0, read_only: false, value: format!("value {i}").into_bytes() }).collect();
		d.splice(0..0, tags::ape_encode(&items, true, 2000));
		c.class("leading APE tag");
	}
	let mode = *c.src.pick(&MODES);
	let mut base = ParseOptions::new().parsing_mode(mode);
	if c.src.chance(1, 4) {
		base = base.implicit_conversions(false);
	}
	let Ok(full) = with(k, &d, base)? else {
		c.class("refused");
		return Ok(());
	};
	c.note(|| format!("{name}, {mode:?}, tags {:?}", full.tags.iter().map(|t| (t.ty(), t.canon().len())).collect::<Vec<_>>()));
	if full.tags.iter().any(|t| !t.is_empty()) {
		c.nontrivial();
	}
	c.class(name);
	// no properties
	let n = must(k, &d, but(base, |o| *o = o.read_properties(false)), "without properties")?;
	ensure!(
		lines(&n) == lines(&full) && n.extra == full.extra,
		format!("{name}: tags depend on read_properties"),
		"{}",
		differ(&lines(&full), &lines(&n))
	);
	let n = guard(|| rd::read_native(k, &mut Cursor::new(&d), but(base, |o| *o = o.read_properties(false)), true))?;
	if let Ok(n) = n {
		let p = n.generic.as_ref().map(|g| g.properties().clone());
		if let Some(p) = p {
			ensure!(
				p.duration().is_zero() && matches!(p.overall_bitrate(), None | Some(0)) && matches!(p.audio_bitrate(), None | Some(0)),
				format!("{name}: properties read although switched off"),
				"{p:?}"
			);
		}
	}
	// no tags
	let n = must(k, &d, but(base, |o| *o = o.read_tags(false)), "without tags")?;
	ensure!(
		n.props == full.props,
		format!("{name}: properties depend on read_tags"),
		"with tags: {} | without: {}",
		full.props,
		n.props
	);
	let left: Vec<_> = n.tags.iter().filter(|t| !t.is_empty()).map(NTag::describe).collect();
	ensure!(left.is_empty(), format!("{name}: tags read although switched off"), "{left:?}");
	if k == Kind::Flac {
		// (picture blocks are cover art, which has its own switch)
		ensure!(
			n.extra.is_empty() || n.extra == full.extra,
			"FLAC: pictures depend on read_tags",
			"{:?}",
			n.extra
		);
	}
	// no pictures
	let n = must(k, &d, but(base, |o| *o = o.read_cover_art(false)), "without cover art")?;
	ensure!(
		n.props == full.props,
		format!("{name}: properties depend on read_cover_art"),
		"{} | {}",
		full.props,
		n.props
	);
	let want = drop_empty(full.tags.iter().map(without_pictures).collect());
	let got = drop_empty(n.tags.clone());
	ensure!(want == got, format!("{name}: other content depends on read_cover_art"), "{}", differ(&want, &got));
	if k == Kind::Flac {
		ensure!(n.extra.is_empty(), "FLAC: pictures read although switched off", "{:?}", n.extra);
	}
	if full.tags.iter().any(|t| t.canon() != without_pictures(t).canon()) || (k == Kind::Flac && !full.extra.is_empty()) {
		c.class("with pictures");
	}
	// nothing but the tags / nothing at all
	let n = must(k, &d, but(base, |o| *o = o.read_tags(false).read_properties(false)), "with nothing")?;
	ensure!(n.tags.iter().all(NTag::is_empty), format!("{name}: tags read although both are off"), "{:?}", n.tags.len());
	Ok(())
}

/// A well-formed file gives the same in all modes.
fn c25_modes(c: &mut Case) -> R {
	let k = *c.src.pick(&ALL_KINDS);
	let d = inputs::tagged(&mut c.src, k);
	let conv = c.src.chance(3, 4);
	let r: Vec<_> = MODES
		.iter()
		.map(|m| with(k, &d, ParseOptions::new().parsing_mode(*m).implicit_conversions(conv)))
		.collect::<Result<_, _>>()?;
	c.class(k.name());
	for (m, r) in MODES.iter().zip(&r) {
		match r {
			// (a year is mandatory there, and the library itself leaves it out)
			Err(e) if e.contains("expected 4 digit year") => {
				c.class("no ID3v1 year");
				return Ok(());
			},
			Err(e) => {
				return fail(format!("{} {m:?} refuses a well-formed file: {}", k.name(), esig(e)), e.clone());
			},
			Ok(_) => {},
		}
	}
	let outs: Vec<_> = r.iter().flatten().collect();
	let last = outs[1];
	for (m, n) in MODES.iter().zip(&outs) {
		ensure!(
			n.props == last.props,
			format!("{} {m:?}: properties differ from BestAttempt", k.name()),
			"{} | {}",
			n.props,
			last.props
		);
		ensure!(
			lines(n) == lines(last) && n.extra == last.extra,
			format!("{} {m:?}: tags differ from BestAttempt", k.name()),
			"{}",
			differ(&lines(n), &lines(last))
		);
	}
	if last.tags.iter().any(|t| !t.is_empty()) {
		c.nontrivial();
	}
	Ok(())
}

/// What a stricter mode accepts, a more lenient one accepts too.
fn c25_lenient(c: &mut Case) -> R {
	let i = inputs::any(&mut c.src);
	let conv = c.src.chance(3, 4);
	let mut o = ParseOptions::new().implicit_conversions(conv);
	if c.src.chance(1, 6) {
		o = o.read_properties(false);
	}
	if c.src.chance(1, 8) {
		o = o.read_tags(false);
	}
	c.note(|| format!("{} {} ({} bytes)", i.kind.name(), i.what, i.data.len()));
	let mut prev: Option<ParsingMode> = None;
	for m in MODES {
		let r = with(i.kind, &i.data, but(o, |o| *o = o.parsing_mode(m))).map_err(|f| robust::tag_fail(f, "reading"))?;
		match r {
			Ok(_) => {
				if prev.is_none() && m != ParsingMode::Strict {
					c.class("refused when strict");
				}
				prev = prev.or(Some(m));
			},
			Err(e) => {
				if let Some(p) = prev {
					return fail(
						format!("{}: accepted by {p:?}, refused by {m:?}: {}", i.kind.name(), esig(&e)),
						format!("{} ({})", e, i.what),
					);
				}
			},
		}
	}
	if prev.is_some() && !i.intact {
		c.nontrivial();
	}
	Ok(())
}

// ------------------------------------------------------------------ C26

/// Bytes that no format's marker can be found in.
fn junk(s: &mut Src, n: usize) -> Vec<u8> {
	let mode = s.below(3);
	(0..n)
		.map(|i| match mode {
			0 => 0,
			1 => b'x',
			_ => {
				let b = (s.below(0xFF)) as u8;
				if i == 0 && b"MIROFfw".contains(&b) { 0 } else { b }
			},
		})
		.collect()
}

fn id3v2_of(s: &mut Src, size: usize) -> Vec<u8> {
	// a tag whose content has no meaning for the detection: one private frame, padding
	let pad = if s.bool() { 0 } else { s.usize(0, size / 2) };
	let n = size - pad;
	let mut p = b"own\0".to_vec();
	let mut rng = crate::engine::Rng::new(s.below(1 << 32));
	p.extend((0..n).map(|_| rng.next() as u8));
	let mut t = fmt::tags::id3v24(&[(b"PRIV", p)], pad);
	if s.chance(1, 3) && pad == 0 {
		t[5] |= 0x10;
		let f = t[3..10].to_vec();
		t.extend(b"3DI");
		t.extend(f);
	} else if s.chance(1, 3) && n < 100 {
		t[3] = 3;
	}
	t
}

fn c26_detect(c: &mut Case) -> R {
	let k = *c.src.pick(&ALL_KINDS);
	let s = &mut c.src;
	let base = if s.bool() { fmt::gen_plain(s, k) } else { inputs::tagged(s, k) };
	let mut data = base.clone();
	let mut o = ParseOptions::new();
	let mut what = "plain";
	let limit = match s.below(4) {
		0 => {
			let n = *s.pick(&[0usize, 10, 100, 2000, 4096, 60_000]);
			o = o.max_junk_bytes(n);
			n
		},
		_ => 1024,
	};
	let syncs = matches!(k, Kind::Mp3 | Kind::Aac);
	let behind = matches!(k, Kind::Mp3 | Kind::Aac | Kind::Ape | Kind::Mpc | Kind::Flac);
	let has_id3 = base.starts_with(b"ID3");
	match s.below(4) {
		1 if behind && !has_id3 => {
			let n = s.size(200_000, &[0, 1, 1000, 1023, 1024, 1025, 65_536]);
			let mut v = id3v2_of(s, n);
			what = "behind ID3v2";
			if syncs && s.chance(1, 3) && limit > 0 {
				let j = s.size(limit, &[limit, limit - 1]);
				v.extend(junk(s, j));
				what = "behind ID3v2 and junk";
			}
			v.extend(&data);
			data = v;
		},
		2 if syncs && !has_id3 && limit > 0 => {
			let n = s.size(limit, &[1, limit, limit - 1]);
			let mut v = junk(s, n.max(1));
			v.extend(&data);
			data = v;
			what = "behind junk";
		},
		_ => {},
	}
	if has_id3 && limit < 1024 && syncs {
		// (two tags in a row are searched like junk)
		o = ParseOptions::new();
	}
	c.note(|| format!("{} {what} ({} bytes, junk limit {limit})", k.name(), data.len()));
	c.class(k.name());
	c.class(what);
	c.nontrivial();
	let got = guard(|| rd::detect(Budget::new(&data), o))?;
	let want = Some(k.file_type());
	ensure!(got == Ok(want), format!("{} {what} detected as {got:?}", k.name()), "expected {want:?}");
	// detection leaves the reader where it was, so reading gives the same as naming the type
	let by_type = guard(|| rd::read_native(k, &mut Cursor::new(&data), o, true))?;
	let probed = guard(|| {
		let mut p = lofty::probe::Probe::new(Cursor::new(&data)).options(o).guess_file_type().map_err(|e| e.to_string())?;
		p = p.options(o);
		p.read().map_err(|e| rd::chain(&e))
	})?;
	match (by_type, probed) {
		(Ok(a), Ok(b)) => {
			let a = rd::c_tagged(a.generic.as_ref().unwrap());
			let b = rd::c_tagged(&b);
			ensure!(a == b, format!("{} {what}: detection changes the result", k.name()), "{a:?}\n{b:?}");
		},
		(Err(a), Err(b)) => {
			ensure!(a == b, format!("{} {what}: detection changes the error", k.name()), "{a} | {b}");
			return fail(format!("{} {what} unreadable: {}", k.name(), esig(&a)), a);
		},
		(a, b) => {
			return fail(
				format!("{} {what}: detection changes acceptance", k.name()),
				format!("typed: {:?}, probed: {:?}", a.err(), b.err()),
			);
		},
	}
	Ok(())
}

fn c26_none(c: &mut Case) -> R {
	let s = &mut c.src;
	let n = s.size(3000, &[0, 1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 35, 36, 37]);
	let mut d = match s.below(5) {
		0 => junk(s, n),
		1 => {
			// the right outer form of another kind
			let mut v = s
				.pick(&[
					&b"RIFF\x10\x27\0\0AVI LIST"[..],
					b"RIFX\x10\x27\0\0WAVEfmt ",
					b"FORM\0\0\x27\x108SVXVHDR",
					b"OggS\0\x02\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\x01\x1E\x7FFLAC\x01\0\0\x01fL",
					b"OggS\0\x02\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\x01\x1E\x80theora\0\0\0\0",
					b"\0\0\0\x18moov\0\0\0\x10udta",
					b"fLaX\x80\0\0\x22",
					b"wvpx\0\0\0\0",
					b"MPXK",
					b"\x89PNG\r\n\x1a\n",
					b"%PDF-1.7\n",
					b"PK\x03\x04",
					b"GIF89a",
					b"TAG",
					b"<!DOCTYPE html>",
				])
				.to_vec();
			v.extend(junk(s, n));
			v
		},
		2 => {
			// a marker that is cut short
			let m = s.pick(&[&b"RIFF\0\0\0\0WAV"[..], b"FORM\0\0\0\0AIF", b"OggS\0\x02\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\x01\x1E\x01vorbi", b"fLa", b"wvp", b"MA", b"MPC", b"\0\0\0\x18fty", b"ID3\x04\0\0", b"\xFF"]).to_vec();
			m
		},
		3 => {
			// an ID3v2 tag with nothing known behind
			let n2 = s.usize(0, 300);
			let mut v = fmt::tags::id3v24(&[(b"TIT2", fmt::tags::id3_text("x"))], n2);
			v.extend(junk(s, n));
			v
		},
		_ => {
			// a frame sync beyond the junk limit
			let n = 1025 + s.usize(0, 500);
			let mut v = junk(s, n);
			v.extend([0xFF, 0xFB, 0x90, 0x44]);
			v.extend(junk(s, 500));
			v
		},
	};
	// no accidental marker anywhere at the start
	if d.len() >= 8 && &d[4..8] == b"ftyp" {
		d[4] = 0;
	}
	if d.len() >= 4 && matches!(&d[..4], b"fLaC" | b"wvpk" | b"MPCK") || d.starts_with(b"MAC") || d.starts_with(b"MP+") {
		d[0] = 0;
	}
	c.note(|| format!("{} bytes starting with {}", d.len(), crate::util::hex(&d[..d.len().min(16)])));
	if !d.is_empty() {
		c.nontrivial();
	}
	let got = guard(|| rd::detect(Budget::new(&d), ParseOptions::new()))?;
	ensure!(got == Ok(None), format!("unknown data claimed as {got:?}"), "{}", crate::util::hex(&d[..d.len().min(64)]));
	if d.len() > 36 {
		let head = FileType::from_buffer(&d);
		ensure!(head.is_none(), format!("unknown buffer claimed as {head:?}"), "{}", crate::util::hex(&d[..d.len().min(64)]));
	}
	let r = guard(|| lofty::probe::Probe::new(Cursor::new(&d)).guess_file_type().map(|p| p.read().is_ok()))?;
	ensure!(matches!(r, Ok(false)), "data of unknown type was read", "{r:?}");
	Ok(())
}

/// What the documentation and common use assign to each extension.
const EXT: &[(&str, FileType)] = &[
	("aac", FileType::Aac),
	("ape", FileType::Ape),
	("aiff", FileType::Aiff),
	("aif", FileType::Aiff),
	("afc", FileType::Aiff),
	("aifc", FileType::Aiff),
	("mp3", FileType::Mpeg),
	("mp2", FileType::Mpeg),
	("mp1", FileType::Mpeg),
	("wav", FileType::Wav),
	("wave", FileType::Wav),
	("wv", FileType::WavPack),
	("opus", FileType::Opus),
	("flac", FileType::Flac),
	("ogg", FileType::Vorbis),
	("mp4", FileType::Mp4),
	("m4a", FileType::Mp4),
	("m4b", FileType::Mp4),
	("m4p", FileType::Mp4),
	("m4r", FileType::Mp4),
	("m4v", FileType::Mp4),
	("3gp", FileType::Mp4),
	("mpc", FileType::Mpc),
	("mp+", FileType::Mpc),
	("mpp", FileType::Mpc),
	("spx", FileType::Speex),
];

fn random_case(s: &mut Src, t: &str) -> String {
	t.chars().map(|c| if s.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}

fn c26_ext(c: &mut Case) -> R {
	let s = &mut c.src;
	let (e, want) = if s.chance(3, 4) {
		let (e, t) = s.pick(EXT);
		((*e).to_string(), Some(*t))
	} else {
		let e = match s.below(4) {
			0 => lg::short(s).replace(['/', '.', '\0'], ""),
			1 => {
				let mut e = s.pick(EXT).0.to_string();
				e.push(*s.pick(&['x', '1', ' ']));
				e
			},
			2 => {
				let e = s.pick(EXT).0;
				e[..e.len() - 1].to_string()
			},
			_ => (*s.pick(&["", "txt", "oga", "m3u", "mp", "id3", "mka", "wma", "jpg"])).to_string(),
		};
		let t = EXT.iter().find(|(x, _)| x.eq_ignore_ascii_case(&e)).map(|x| x.1);
		(e, t)
	};
	let v = random_case(s, &e);
	let stem = format!("{}.{}", s.pick(&["a", "dir.mp3/x", "..", "file.ogg.bak", "é"]), v);
	c.note(|| format!("extension {v:?} path {stem:?}"));
	if want.is_some() {
		c.nontrivial();
	}
	ensure!(FileType::from_ext(&v) == want, format!("extension {} of {want:?}", e.to_ascii_lowercase()), "{v:?} gives {:?}, expected {want:?}", FileType::from_ext(&v));
	if !v.is_empty() && stem != ".." {
		ensure!(FileType::from_path(&stem) == want, format!("path with extension of {want:?}"), "{stem:?} gives {:?}", FileType::from_path(&stem));
	}
	// (documented as not exhaustive)
	ensure!(
		want.is_some() || !EXTENSIONS.iter().any(|x| *x == e.to_ascii_lowercase()),
		"EXTENSIONS names an unknown extension",
		"{e:?}"
	);
	for x in EXTENSIONS {
		ensure!(FileType::from_ext(x).is_some(), "an extension of EXTENSIONS is not recognised", "{x}");
	}
	Ok(())
}

/// Files on disk, named well or badly: the name decides when asked by path, the contents when asked to look.
fn c26_paths(c: &mut Case) -> R {
	let s = &mut c.src;
	let k = *s.pick(&ALL_KINDS);
	let known = !s.chance(1, 10);
	let data = if known {
		if s.bool() { fmt::gen_plain(s, k) } else { inputs::tagged(s, k) }
	} else {
		let n = s.usize(0, 200);
		vec![b'#'; n]
	};
	let (ext, named) = match s.below(6) {
		0 => {
			let (e, t) = s.pick(EXT);
			(format!(".{}", random_case(s, e)), Some(*t))
		},
		1 => (String::new(), None),
		2 => (".txt".to_string(), None),
		_ => {
			let v: Vec<_> = EXT.iter().filter(|x| x.1 == k.file_type()).collect();
			let (e, t) = **s.pick(&v);
			(format!(".{}", random_case(s, e)), Some(t))
		},
	};
	let o = rd::parse_options(s);
	let f = Scratch::new(&format!("x{ext}"), &data);
	let p = f.0.clone();
	c.note(|| format!("{} ({} bytes) named x{ext}, {o:?}", if known { k.name() } else { "nothing known" }, data.len()));
	c.nontrivial();
	c.class(match named {
		None => "no known extension",
		Some(t) if known && t == k.file_type() => "right extension",
		Some(_) => "wrong extension",
	});
	let io = |e: std::io::Error| e.to_string();
	let all = |r: Result<lofty::file::TaggedFile, String>| r.map(|f| rd::c_tagged(&f));
	// by name
	let probe = guard(|| lofty::probe::Probe::open(&p).map_err(|e| rd::chain(&e)))?;
	let probe = match probe {
		Ok(x) => x,
		Err(e) => return fail("Probe::open fails", e),
	};
	ensure!(probe.file_type() == named, "Probe::open: type by extension", "x{ext}: {:?}, expected {named:?}", probe.file_type());
	let typed = |t: Option<FileType>, o: ParseOptions| {
		guard(|| match t {
			Some(t) => all(lofty::probe::Probe::with_file_type(Cursor::new(&data), t).options(o).read().map_err(|e| rd::chain(&e))),
			None => Err("?".into()),
		})
	};
	let same = |what: &str, got: Result<rd::Out, String>, want: Result<rd::Out, String>| -> R {
		match (got, want) {
			(Ok(a), Ok(b)) => ensure!(a == b, format!("{what} differs"), "x{ext} {}:\n{a:?}\n{b:?}", k.name()),
			(Err(_), Err(_)) => {},
			(a, b) => return fail(format!("{what}: acceptance"), format!("x{ext} {}: {:?} vs {:?}", k.name(), a.err(), b.err())),
		}
		Ok(())
	};
	let got = guard(|| all(probe.options(o).read().map_err(|e| rd::chain(&e))))?;
	same("Probe::open().read()", got, typed(named, o)?)?;
	let got = guard(|| all(lofty::read_from_path(&p).map_err(|e| rd::chain(&e))))?;
	same("read_from_path", got, typed(named, ParseOptions::new())?)?;
	// by contents, keeping the name's type when they say nothing
	let guessed = guard(|| rd::detect(Cursor::new(&data), o))?.unwrap_or(None);
	let re = guard(|| lofty::probe::Probe::open(&p).map_err(|e| rd::chain(&e))?.options(o).guess_file_type().map_err(io))?;
	let re = match re {
		Ok(x) => x,
		Err(e) => return fail("guessing fails", e),
	};
	let want = guessed.or(named);
	ensure!(re.file_type() == want, "guess on an opened path", "{:?}, expected {want:?} (name says {named:?})", re.file_type());
	let got = guard(|| all(re.read().map_err(|e| rd::chain(&e))))?;
	same("Probe::open().guess_file_type().read()", got, typed(want, o)?)?;
	let by_content = guard(|| rd::detect(Cursor::new(&data), ParseOptions::new()))?.unwrap_or(None);
	let got = guard(|| {
		let mut h = std::fs::File::open(&p).map_err(io)?;
		all(lofty::read_from(&mut h).map_err(|e| rd::chain(&e)))
	})?;
	same("read_from", got, typed(by_content, ParseOptions::new())?)?;
	if known {
		ensure!(by_content == Some(k.file_type()), format!("{} from a file", k.name()), "detected {by_content:?}");
	}
	// a probe hands its reader back, at the start of what it looked at
	let r = guard(|| {
		let p = lofty::probe::Probe::new(Cursor::new(&data)).options(o).guess_file_type().map_err(io)?;
		Ok::<_, String>(p.into_inner().position())
	})?;
	ensure!(r == Ok(0), "guessing moves the reader", "left at {r:?}");
	let t = k.file_type();
	let p = lofty::probe::Probe::new(Cursor::new(&data)).set_file_type(t);
	ensure!(p.file_type() == Some(t), "set_file_type", "{:?}", p.file_type());
	let got = guard(|| all(p.options(o).read().map_err(|e| rd::chain(&e))))?;
	same("set_file_type().read()", got, typed(Some(t), o)?)?;
	let missing = f.0.with_extension("missing");
	ensure!(guard(|| lofty::read_from_path(&missing).is_err())?, "reading a missing file succeeds", "{missing:?}");
	Ok(())
}

// ------------------------------------------------------------------ C27

/// A file, tagged in some way, with what its headers state.
pub fn gen_expect(s: &mut Src, k: Kind) -> (Vec<u8>, Expect) {
	let tagged = s.bool();
	match k {
		k if k.is_raw() => {
			let (a, e) = match k {
				Kind::Mp3 => raw::gen_mp3(s),
				Kind::Aac => raw::gen_aac(s),
				Kind::Ape => raw::gen_ape(s),
				Kind::WavPack => raw::gen_wavpack(s),
				_ => raw::gen_mpc(s),
			};
			if tagged { (preserve::gen_parts_with(s, k, a).to_bytes(), e) } else { (a, e) }
		},
		Kind::Wav | Kind::Aiff => {
			let (mut f, e) = if k == Kind::Wav { riff::gen_wav(s) } else { riff::gen_aiff(s) };
			if tagged {
				preserve::add_form_tags(s, k, &mut f);
			}
			(f.to_bytes(), e)
		},
		Kind::Flac => {
			let (mut f, e) = flac::gen_flac(s);
			if tagged {
				preserve::add_flac_tags(s, &mut f);
			}
			(f.to_bytes(), e)
		},
		Kind::Mp4 => {
			let exotic = s.bool();
			mp4::gen_mp4(s, &mp4::Shape { exotic, ..Default::default() })
		},
		_ => {
			if tagged {
				let (o, e) = preserve::gen_ogg_tagged(s, k);
				(o.to_bytes(), e)
			} else {
				let (o, e) = ogg::gen_ogg(s, k);
				(o.to_bytes(), e)
			}
		},
	}
}

fn close(sig: String, got: Option<f64>, want: f64, tol: f64, e: &Expect) -> R {
	let ok = got.is_some_and(|g| (g - want).abs() <= tol);
	ensure!(ok, sig, "reported {got:?}, expected {want:.3} +- {tol:.3} for {}", e.desc);
	Ok(())
}

fn c27_case(c: &mut Case) -> R {
	let k = *c.src.pick(&ALL_KINDS);
	let (data, e) = gen_expect(&mut c.src, k);
	let name = k.name();
	c.note(|| format!("{name}, {} bytes: {}", data.len(), e.desc));
	c.class(name);
	let mode = *c.src.pick(&MODES);
	let mut o = ParseOptions::new().parsing_mode(mode);
	if c.src.chance(1, 6) {
		o = o.read_tags(false);
	}
	let n = match guard(|| rd::read_native(k, &mut Cursor::new(&data), o, true))? {
		Ok(n) => n,
		Err(x) => return fail(format!("{name} unreadable: {}", esig(&x)), format!("{x} for {}", e.desc)),
	};
	let p = n.generic.as_ref().unwrap().properties().clone();
	c.nontrivial();
	if let Some(w) = e.sample_rate {
		ensure!(p.sample_rate() == Some(w), format!("{name}: sample rate"), "reported {:?}, expected {w} for {}", p.sample_rate(), e.desc);
	}
	if let Some(w) = e.channels {
		ensure!(p.channels() == Some(w), format!("{name}: channels"), "reported {:?}, expected {w} for {}", p.channels(), e.desc);
	}
	if let Some(w) = e.bit_depth {
		ensure!(p.bit_depth() == Some(w), format!("{name}: bit depth"), "reported {:?}, expected {w} for {}", p.bit_depth(), e.desc);
	}
	let d = p.duration().as_secs_f64() * 1000.0;
	if let Some(w) = e.duration_ms {
		close(format!("{name}: duration"), Some(d), w, e.duration_tol, &e)?;
	}
	if let Some(w) = e.audio_bitrate {
		// an estimate may be made with the duration in whole milliseconds
		let rounding = match e.duration_ms {
			Some(dur) if e.bitrate_tol >= 1.0 => w / dur * 1.1,
			_ => 0.0,
		};
		close(format!("{name}: audio bitrate"), p.audio_bitrate().map(f64::from), w, e.bitrate_tol + rounding, &e)?;
	}
	if let Some(w) = e.mask {
		let got = p.channel_mask().map(|m| m.bits());
		// by name, too
		use lofty::properties::ChannelMask as M;
		const NAMES: [M; 18] = [
			M::FRONT_LEFT, M::FRONT_RIGHT, M::FRONT_CENTER, M::LOW_FREQUENCY, M::BACK_LEFT, M::BACK_RIGHT, M::FRONT_LEFT_OF_CENTER,
			M::FRONT_RIGHT_OF_CENTER, M::BACK_CENTER, M::SIDE_LEFT, M::SIDE_RIGHT, M::TOP_CENTER, M::TOP_FRONT_LEFT, M::TOP_FRONT_CENTER,
			M::TOP_FRONT_RIGHT, M::TOP_BACK_LEFT, M::TOP_BACK_CENTER, M::TOP_BACK_RIGHT,
		];
		if let (Some(m), Some(Some(w))) = (p.channel_mask(), e.mask) {
			for (i, x) in NAMES.iter().enumerate() {
				let has = m & *x == *x;
				ensure!(has == (w >> i & 1 == 1), format!("{name}: channel {i} of the mask"), "{has} for {w:x}, {}", e.desc);
				ensure!((m | *x).bits() == w | 1 << i, format!("{name}: channel {i} added to the mask"), "{w:x}, {}", e.desc);
			}
		}
		ensure!(got == w, format!("{name}: channel mask"), "reported {got:x?}, expected {w:x?} for {}", e.desc);
	}
	let facts = match guard(|| rd::facts(k, &mut Cursor::new(&data), o))? {
		Ok(f) => f,
		Err(x) => return fail(format!("{name} unreadable: {}", esig(&x)), format!("{x} for {}", e.desc)),
	};
	let of = |n: &str| facts.iter().find(|f| f.0 == n).map(|f| f.1.clone());
	for (n, w) in &e.facts {
		let got = of(n);
		let same = match (w.strip_prefix('~').and_then(|w| w.parse::<f64>().ok()), got.as_ref().and_then(|g| g.parse::<f64>().ok())) {
			(Some(w), Some(g)) => (w - g).abs() < 1.0,
			_ => got.as_ref() == Some(w),
		};
		ensure!(same, format!("{name}: {n}"), "reported {got:?}, expected {w:?} for {}", e.desc);
	}
	// the two ways to ask agree
	let num = |n: Option<u32>| n.map_or("None".to_string(), |n| n.to_string());
	let ch = of("channels").and_then(|c| c.parse::<u16>().ok()).map_or("None".to_string(), |c| (c as u8).to_string());
	for (n, generic, own) in [
		("duration", d.round().to_string(), of("duration")),
		("sample_rate", num(p.sample_rate()), of("sample_rate")),
		("channels", num(p.channels().map(u32::from)), Some(ch)),
		("bit_depth", num(p.bit_depth().map(u32::from)), of("bit_depth").or_else(|| of("sample_size"))),
		("overall_bitrate", num(p.overall_bitrate()), of("overall_bitrate")),
		("audio_bitrate", num(p.audio_bitrate()), of("audio_bitrate")),
	] {
		let Some(own) = own else { continue };
		ensure!(generic == own, format!("{name}: {n} differs from the format's own"), "{generic} vs {own} for {}", e.desc);
	}
	// the whole file over the duration
	if d >= 50.0 && k != Kind::Aac && k != Kind::Mpc {
		let got = p.overall_bitrate().map(f64::from);
		let mut len = data.len();
		if k == Kind::Ape {
			// the bitrate of a file with an ID3v1 tag leaves it out (a test pins that)
			let p = raw::split(k, &data).unwrap_or_default();
			let v1 = p.lyrics3.map_or(0, |x| x.len()) + p.id3v1.map_or(0, |x| x.len());
			if got.is_some_and(|g| (g - len as f64 * 8.0 / d).abs() > 1.0) {
				len -= v1;
			}
		}
		let want = len as f64 * 8.0 / d;
		close(format!("{name}: overall bitrate"), got, want, 1.5 + want / d * 1.5, &e)?;
	}
	Ok(())
}

// ------------------------------------------------------------------ C28

fn props_of(k: Kind, data: &[u8]) -> Result<FileProperties, Fail> {
	match guard(|| rd::read_native(k, &mut Cursor::new(data), ParseOptions::new(), true))? {
		Ok(n) => Ok(n.generic.unwrap().properties().clone()),
		Err(e) => fail(format!("{} unreadable: {}", k.name(), esig(&e)), e),
	}
}

/// What Speex streams without a nominal bitrate report: the file less its two header packets.
fn speex_estimate(data: &[u8], ms: f64) -> Option<u32> {
	let pages = ogg::parse_pages(data).ok()?;
	let serial = pages.first()?.serial;
	let pages: Vec<_> = pages.into_iter().filter(|p| p.serial == serial).collect();
	let pk = ogg::packets(&pages).ok()?;
	let nominal = i32::from_le_bytes(pk[0].data.get(52..56)?.try_into().ok()?);
	let len = (data.len() - pk[0].data.len() - pk[1].data.len()) as u64 * 8;
	let ms = if ms < 0.5 { 1000 } else { ms.round() as u64 };
	(nominal <= 0).then_some(((len + ms / 2) / ms) as u32)
}

fn big_tag(s: &mut Src, ty: TagType) -> NTag {
	let mut t = lofty::tag::Tag::new(ty);
	let n = s.size(120_000, &[1, 126, 127, 128, 254, 255, 256, 1000, 4096, 65_025, 65_535]);
	let v: String = "x".repeat(n);
	t.insert_text(lofty::tag::ItemKey::TrackTitle, v);
	NTag::from_generic(t)
}

fn c28_case(c: &mut Case) -> R {
	let k = *c.src.pick(&ALL_KINDS);
	let (mut data, e) = if c.src.bool() {
		gen_expect(&mut c.src, k)
	} else {
		(inputs::tagged(&mut c.src, k), Expect::default())
	};
	if k == Kind::Mpc && !data.windows(4).any(|w| w == b"MPCK" || &w[..3] == b"MP+") {
		// (a stream without a marker is not recognised when saving)
		data = fmt::gen_plain(&mut c.src, k);
	}
	let name = k.name();
	c.class(name);
	let mut before = props_of(k, &data)?;
	for _ in 0..c.src.usize(1, 3) {
		let op = if c.src.chance(1, 3) {
			let ty = *c.src.pick(lg::writable(k));
			preserve::Op::SaveNative(big_tag(&mut c.src, ty))
		} else {
			gen_op(&mut c.src, k)
		};
		let mut o = lg::write_options(&mut c.src);
		if c.src.chance(1, 6) {
			o = WriteOptions::new().preferred_padding(c.src.size(100_000, &[0, 1, 1024]) as u32);
		}
		data = preserve::do_op(c, k, &op, o, data)?;
		let after = props_of(k, &data)?;
		c.nontrivial();
		let sig = |w: &str| format!("{} {:?} in {name}: {w} changed", op.name(), op.ty());
		let msg = || format!("before {before:?}\nafter {after:?}\n{}", e.desc);
		ensure!(
			(before.sample_rate(), before.channels(), before.bit_depth(), before.channel_mask())
				== (after.sample_rate(), after.channels(), after.bit_depth(), after.channel_mask()),
			sig("format"),
			"{}",
			msg()
		);
		let (d0, d1) = (before.duration().as_secs_f64() * 1000.0, after.duration().as_secs_f64() * 1000.0);
		let tol = if k == Kind::Aac {
			// the stream length there includes part of the tag headers
			2.0 + before.audio_bitrate().map_or(0.0, |b| 20.0 * 8.0 / f64::from(b.max(1)))
		} else {
			0.0
		};
		ensure!((d0 - d1).abs() <= tol, sig("duration"), "{}", msg());
		if k == Kind::Speex && before.audio_bitrate() != after.audio_bitrate() {
			// The estimate made for streams that state no bitrate is known to count the page overhead
			// of the comment packet; anything else is something new.
			if let Some(w) = speex_estimate(&data, d1) {
				if after.audio_bitrate() == Some(w) {
					return fail("Speex: bitrate estimate includes the page overhead of the comments", msg());
				}
			}
		}
		ensure!(before.audio_bitrate() == after.audio_bitrate(), sig("audio bitrate"), "{}", msg());
		before = after;
	}
	Ok(())
}

pub fn props() -> Vec<Property> {
	let _ = Mem::new(vec![]);
	vec![
		Property {
			id: "C25",
			rule: "the file carries at least one non-empty tag, or a damaged file is accepted by some mode",
			assumptions: &["an empty tag and an absent one are the same result", "well-formed files are those of the harness's generators and of earlier saves"],
			suites: vec![
				suite!("options", 80_000, 3_000_000, c25_options),
				suite!("modes", 60_000, 2_000_000, c25_modes),
				suite!("lenient", 200_000, 8_000_000, c25_lenient),
			],
		},
		Property {
			id: "C26",
			rule: "a generated file was probed, non-empty data of no known type was probed, or a known extension was looked up",
			assumptions: &[
				"Musepack streams older than SV7 have no marker and are not detected",
				"only MPEG and ADTS files are searched for behind junk",
			],
			suites: vec![
				suite!("detect", 60_000, 2_000_000, c26_detect),
				suite!("unknown", 100_000, 3_000_000, c26_none),
				suite!("extensions", 50_000, 500_000, c26_ext),
				suite!("paths", 6_000, 200_000, c26_paths),
			],
		},
		Property {
			id: "C27",
			rule: "properties were read from a generated file with known parameters",
			assumptions: &["expected values follow from the generator's parameters by the formats' own definitions", "AAC streams state no duration"],
			suites: vec![suite!("properties", 150_000, 5_000_000, c27_case)],
		},
		Property {
			id: "C28",
			rule: "an operation succeeded and the properties were read again",
			assumptions: &["overall_bitrate includes the tags by definition", "the length of an AAC stream is estimated to within two tag headers"],
			suites: vec![suite!("retag", 50_000, 2_000_000, c28_case)],
		},
	]
}
