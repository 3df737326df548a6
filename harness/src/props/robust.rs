//! C01-C05: arbitrary bytes, bounded memory, stream faults.

use super::preserve::{Op, esig, gen_op};
use crate::engine::{Case, Fail, Property, R, Rng, Src, Suite, fail, guard};
use crate::ensure;
use crate::fmt::{ALL_KINDS, Kind};
use crate::inputs::{self, Input};
use crate::rd;
use crate::util::{BUDGET_MSG, Budget, Mem, first_diff, measure};
use crate::lg;
use lofty::config::{GlobalOptions, ParseOptions, ParsingMode, WriteOptions};
use std::io::{Read, Seek};

macro_rules! suite {
	($name:literal, $q:expr, $t:expr, $f:expr) => {
		Suite { name: $name, quick: $q, thorough: $t, run: $f }
	};
}

fn note_input(c: &mut Case, i: &Input, o: &ParseOptions) {
	c.note(|| format!("{} as {} ({} bytes{}) with {o:?}", i.what, i.kind.name(), i.data.len(), if i.intact { ", unmodified" } else { "" }));
}

pub fn tag_fail(f: Fail, what: &str) -> Fail {
	Fail { sig: format!("{what}: {}", f.sig), msg: f.msg }
}

// ------------------------------------------------------------------ C01

/// nests `depth` levels of one container
fn nested(s: &mut Src, k: Kind) -> Option<(Vec<u8>, &'static str)> {
	let depth = *s.pick(&[3usize, 30, 300, 3000, 12_000]);
	match k {
		Kind::Mp4 => {
			let ids: &[&[u8; 4]] = &[b"moov", b"udta", b"moof", b"trak", b"mdia", b"minf", b"stbl", b"meta", b"ilst", b"traf"];
			let one = if s.bool() { Some(*s.pick(ids)) } else { None };
			let mut picks: Vec<&[u8; 4]> = (0..depth).map(|i| one.unwrap_or(ids[(i * 7 + 3) % ids.len()])).collect();
			if s.bool() {
				picks[0] = b"moov";
			}
			let mut d = vec![];
			for i in 0..depth {
				d.extend(((depth - i) as u32 * 8).to_be_bytes());
				d.extend(picks[i]);
			}
			let mut f = b"\0\0\0\x18ftypM4A \0\0\0\0M4A mp42".to_vec();
			f.extend(d);
			Some((f, "nested atoms"))
		},
		Kind::Mp3 | Kind::Aac | Kind::Ape | Kind::Mpc | Kind::Flac | Kind::Wav | Kind::Aiff => {
			let v = if s.bool() { 3u8 } else { 4 };
			let chap = s.bool();
			let unit = if chap { 10 + 2 + 16 } else { 10 + 2 + 2 };
			let mut t = vec![];
			for i in 0..depth {
				let size = ((depth - i) * unit - 10) as u32;
				t.extend(if chap { b"CHAP" } else { b"CTOC" });
				t.extend(if v == 4 { crate::fmt::tags::ss(size) } else { size.to_be_bytes() });
				t.extend([0, 0, b'a', 0]);
				if chap {
					t.extend([0u8; 16]);
				} else {
					t.extend([0u8; 2]);
				}
			}
			let mut tag = vec![b'I', b'D', b'3', v, 0, 0];
			tag.extend(crate::fmt::tags::ss(t.len() as u32));
			tag.extend(t);
			let plain = crate::fmt::gen_plain(s, k);
			let f = match k {
				Kind::Wav | Kind::Aiff => {
					let mut f = if k == Kind::Wav { crate::fmt::riff::gen_wav(s).0 } else { crate::fmt::riff::gen_aiff(s).0 };
					f.chunks.push(crate::fmt::riff::Chunk::new(b"ID3 ", tag));
					f.to_bytes()
				},
				_ => {
					let mut f = tag;
					f.extend(plain);
					f
				},
			};
			Some((f, "nested chapters"))
		},
		_ => None,
	}
}

fn read_case(c: &mut Case, i: &Input) -> R {
	let o = rd::parse_options(&mut c.src);
	note_input(c, i, &o);
	let mut b = Budget::new(&i.data);
	let r = guard(|| rd::read_native(i.kind, &mut b, o, true)).map_err(|f| tag_fail(f, i.kind.name()))?;
	c.class(i.kind.name());
	match &r {
		Ok(n) => {
			c.class("accepted");
			if !i.intact && b.ops > 25 {
				c.nontrivial();
			}
			// reading what was read must not fail either
			guard(|| n.out()).map_err(|f| tag_fail(f, "inspect"))?;
		},
		Err(_) => {
			c.class("rejected");
			if b.ops > 25 {
				c.nontrivial();
			}
		},
	}
	let mut b = Budget::new(&i.data);
	let d = guard(|| rd::detect(&mut b, o)).map_err(|f| tag_fail(f, "detect"))?;
	if c.src.chance(1, 3) || d.as_ref().is_ok_and(|d| *d != Some(i.kind.file_type())) {
		let mut b = Budget::new(&i.data);
		guard(|| rd::probe_read(&mut b, o)).map_err(|f| tag_fail(f, "probe"))?.ok();
	}
	if c.src.chance(1, 12) {
		let k = *c.src.pick(&ALL_KINDS);
		let mut b = Budget::new(&i.data);
		guard(|| rd::read_native(k, &mut b, o, true)).map_err(|f| tag_fail(f, k.name()))?.ok();
		c.class("other-kind");
	}
	Ok(())
}

fn c01_files(c: &mut Case) -> R {
	let i = inputs::any(&mut c.src);
	read_case(c, &i)
}

fn c01_nesting(c: &mut Case) -> R {
	let k = *c.src.pick(&[Kind::Mp4, Kind::Mp3, Kind::Wav, Kind::Flac, Kind::Aac, Kind::Ape, Kind::Mpc, Kind::Aiff]);
	let Some((d, what)) = nested(&mut c.src, k) else { return Ok(()) };
	c.class(what);
	c.nontrivial();
	let i = Input { kind: k, data: d, what: what.into(), intact: false };
	note_input(c, &i, &ParseOptions::new());
	let o = ParseOptions::new().read_properties(c.src.bool());
	let mut b = Budget::new(&i.data);
	guard(|| rd::read_native(k, &mut b, o, true)).map_err(|f| tag_fail(f, k.name()))?.ok();
	Ok(())
}

/// small pieces parsed on their own
fn c01_parts(c: &mut Case) -> R {
	use lofty::picture::{Picture, PictureInformation};
	let s = &mut c.src;
	let which = s.below(9);
	let mode = *s.pick(&[ParsingMode::BestAttempt, ParsingMode::Strict, ParsingMode::Relaxed]);
	let n_mut = 6;
	c.nontrivial = true;
	match which {
		0 => {
			let p = lg::picture(s, lg::Cs::Any);
			let enc = s.bool();
			let mut d = p.pic.as_flac_bytes(Default::default(), enc);
			inputs::mutate(s, &mut d, n_mut);
			let enc2 = if s.chance(1, 5) { !enc } else { enc };
			c.note(|| format!("flac picture {}", crate::util::hex(&d)));
			guard(|| Picture::from_flac_bytes(&d, enc2, mode)).map_err(|f| tag_fail(f, "from_flac_bytes"))?.ok();
			c.class("flac picture");
		},
		1 => {
			let p = lg::picture(s, lg::Cs::Any);
			let mut d = p.pic.as_ape_bytes();
			inputs::mutate(s, &mut d, n_mut);
			let keys = lofty::picture::APE_PICTURE_TYPES;
			let key = *s.pick(&keys);
			c.note(|| format!("ape picture {key} {}", crate::util::hex(&d)));
			guard(|| Picture::from_ape_bytes(key, &d)).map_err(|f| tag_fail(f, "from_ape_bytes"))?.ok();
			c.class("ape picture");
		},
		2 | 3 => {
			let mut d = lg::image(s).0;
			inputs::mutate(s, &mut d, n_mut);
			c.note(|| format!("image {}", crate::util::hex(&d)));
			guard(|| PictureInformation::from_png(&d)).map_err(|f| tag_fail(f, "from_png"))?.ok();
			guard(|| PictureInformation::from_jpeg(&d)).map_err(|f| tag_fail(f, "from_jpeg"))?.ok();
			let p = guard(|| Picture::from_reader(&mut Budget::new(&d))).map_err(|f| tag_fail(f, "from_reader"))?;
			if let Ok(p) = p {
				guard(|| PictureInformation::from_picture(&p)).map_err(|f| tag_fail(f, "from_picture"))?.ok();
			}
			c.class("image");
		},
		4 => {
			use std::str::FromStr;
			let mut d = b"2024-06-03T14:08:49Z".to_vec();
			let n = s.usize(0, d.len());
			d.truncate(n);
			for _ in 0..s.below(4) {
				if !d.is_empty() {
					let p = s.usize(0, d.len() - 1);
					d[p] = *s.pick(b"0123456789-:T +.Zz\x00\xC3\xA9\xFF /");
				}
			}
			let st = String::from_utf8_lossy(&d).into_owned();
			c.note(|| format!("timestamp {st:?}"));
			use lofty::tag::items::Timestamp;
			guard(|| Timestamp::from_str(&st)).map_err(|f| tag_fail(f, "Timestamp::from_str"))?.ok();
			guard(|| Timestamp::parse(&mut &d[..], mode)).map_err(|f| tag_fail(f, "Timestamp::parse"))?.ok();
			c.class("timestamp");
		},
		5 => {
			let i = inputs::any(s);
			let n = s.usize(0, 40.min(i.data.len()));
			let d = &i.data[..n];
			c.note(|| format!("head {}", crate::util::hex(d)));
			guard(|| lofty::file::FileType::from_buffer(d)).map_err(|f| tag_fail(f, "from_buffer"))?;
			c.class("from_buffer");
		},
		6 => {
			let k = *s.pick(&[Kind::Opus, Kind::Vorbis, Kind::Speex]);
			let i = inputs::any_of(s, k);
			let count = *s.pick(&[-1isize, 0, 1, 2, 3, 5]);
			c.note(|| format!("pages of {} ({} bytes), {count} packets", i.what, i.data.len()));
			guard(|| ogg_pager::Packets::read_count(&mut Budget::new(&i.data), count)).map_err(|f| tag_fail(f, "Packets::read_count"))?.ok();
			guard(|| {
				let mut b = Budget::new(&i.data);
				while let Ok(mut p) = ogg_pager::Page::read(&mut b) {
					let _ = p.as_bytes();
					p.gen_crc();
				}
			})
			.map_err(|f| tag_fail(f, "Page::read"))?;
			c.class("pager");
		},
		7 => {
			use lofty::id3::v2::{FrameFlags, GeneralEncapsulatedObject, SynchronizedTextFrame, AudioTextFrame};
			let n = s.size(300, &[]);
			let mut d = match s.below(4) {
				0 => s.blob(n),
				1 => {
					let mut d = vec![s.below(4) as u8];
					d.extend(b"eng\x02\x01desc\0text\0\0\0\0\x05more\0\0\0\0\x09");
					d
				},
				2 => {
					let mut d = vec![s.below(4) as u8];
					d.extend(b"image/x\0f\0i\0l\0e\0\0\0desc\0\0data");
					d
				},
				_ => {
					let blobs: Vec<_> = inputs::assets().1.iter().filter(|a| a.name.contains("sylt") || a.name.contains("geob") || a.name.contains("aspi")).collect();
					if blobs.is_empty() { s.blob(n) } else { s.pick(&blobs).data.clone() }
				},
			};
			inputs::mutate(s, &mut d, n_mut);
			c.note(|| format!("frame content {}", crate::util::hex(&d)));
			let f = FrameFlags::default();
			guard(|| GeneralEncapsulatedObject::parse(&d, f)).map_err(|e| tag_fail(e, "GEOB"))?.ok();
			guard(|| SynchronizedTextFrame::parse(&d, f)).map_err(|e| tag_fail(e, "SYLT"))?.ok();
			guard(|| AudioTextFrame::parse(&d, f)).map_err(|e| tag_fail(e, "ATXT"))?.ok();
			c.class("frame content");
		},
		_ => {
			let mut d = [0u8; 128];
			let b = s.blob(125);
			d[..3].copy_from_slice(b"TAG");
			d[3..].copy_from_slice(&b);
			c.note(|| format!("id3v1 {}", crate::util::hex(&d)));
			let r = guard(|| lofty::id3::v1::Id3v1Tag::parse(d, mode)).map_err(|f| tag_fail(f, "Id3v1Tag::parse"))?;
			if let Ok(t) = r {
				guard(|| lofty::tag::Tag::from(t)).map_err(|f| tag_fail(f, "Id3v1 to Tag"))?;
			}
			c.class("id3v1");
		},
	}
	Ok(())
}

// ------------------------------------------------------------------ C02

fn c02_files(c: &mut Case) -> R {
	let mut i = inputs::any(&mut c.src);
	// claim sizes that are not there
	if c.src.bool() {
		inputs::mutate(&mut c.src, &mut i.data, 3);
		if i.kind.is_ogg() {
			inputs::fix_ogg(&mut i.data);
		}
	}
	let limit = *c.src.pick(&[16usize << 20, 1 << 20, 100_000, 10_000, 1000, 100, 0]);
	let mut o = rd::parse_options(&mut c.src);
	if c.src.bool() {
		o = ParseOptions::new();
	}
	note_input(c, &i, &o);
	c.note(|| format!("allocation limit {limit}"));
	lofty::config::apply_global_options(GlobalOptions::new().allocation_limit(limit));
	let mut b = Budget::new(&i.data);
	let (r, st) = measure(|| rd::read_native(i.kind, &mut b, o, false).map(|n| std::hint::black_box(n)));
	crate::util::reset_globals();
	if b.ops > 25 {
		c.nontrivial();
	}
	c.class(if r.is_ok() { "accepted" } else { "rejected" });
	check_mem(&i, limit, st)
}

fn check_mem(i: &Input, limit: usize, st: crate::util::AllocStats) -> R {
	let len = i.data.len();
	// one request: never more than the limit, or what the data really held (a growing buffer may hold twice that)
	let max = limit.max(4 * len) + (256 << 10);
	ensure!(
		st.max_request <= max,
		format!("{}: single allocation", i.kind.name()),
		"a {len} byte input made a single allocation of {} bytes (limit {limit})",
		st.max_request
	);
	ensure!(
		st.peak <= 150 * len + 2 * limit + (1 << 20),
		format!("{}: peak memory", i.kind.name()),
		"a {len} byte input needed {} bytes of memory (limit {limit})",
		st.peak
	);
	Ok(())
}

/// a well formed file with one item of a size around the limit
fn c02_items(c: &mut Case) -> R {
	use lofty::tag::TagType;
	let s = &mut c.src;
	let k = *s.pick(&ALL_KINDS);
	let ty = *s.pick(lg::writable(k));
	let limit = *s.pick(&[8000usize, 20_000, 60_000, 200_000]);
	let size = match s.below(3) {
		0 => s.usize(limit, 4 * limit),
		1 => s.usize(limit / 8, limit / 3),
		_ => s.usize(limit / 4, (limit - 2500) / 2),
	};
	// (a FLAC file holds its pictures outside of the tag)
	let binary = s.bool() && k != Kind::Flac;
	let mut t = lg::NTag::empty(ty);
	let text: String = (0..size).map(|i| (b'a' + (i % 26) as u8) as char).collect();
	let pic = lofty::picture::Picture::unchecked(s.blob(size)).pic_type(lofty::picture::PictureType::CoverFront).mime_type(lofty::picture::MimeType::Png).build();
	match &mut t {
		lg::NTag::Id3v2(t) => {
			if binary {
				t.insert_picture(pic);
			} else {
				lofty::tag::Accessor::set_title(t, text);
			}
		},
		lg::NTag::Ape(t) => {
			use lofty::ape::ApeItem;
			use lofty::tag::ItemValue;
			let v = if binary { ItemValue::Binary(pic.data().to_vec()) } else { ItemValue::Text(text) };
			t.insert(ApeItem::new("Some Key".into(), v).unwrap());
		},
		lg::NTag::Vorbis(t) => {
			if binary {
				lofty::ogg::OggPictureStorage::insert_picture(t, pic, Some(Default::default())).ok();
			} else {
				t.push("TITLE".into(), text);
			}
		},
		lg::NTag::Ilst(t) => {
			if binary {
				t.insert_picture(pic);
			} else {
				lofty::tag::Accessor::set_title(t, text);
			}
		},
		lg::NTag::Riff(t) => {
			t.insert("INAM".into(), text);
		},
		lg::NTag::Aiff(t) => t.name = Some(text),
		lg::NTag::Id3v1(_) => return Ok(()),
	}
	let plain = crate::fmt::gen_plain(s, k);
	let mut f = Mem::new(plain);
	if t.save(&mut f, WriteOptions::default()).is_err() {
		return Ok(());
	}
	let i = Input { kind: k, data: f.data, what: format!("item of {size} bytes in {ty:?}"), intact: true };
	let o = ParseOptions::new();
	note_input(c, &i, &o);
	c.note(|| format!("allocation limit {limit}"));
	lofty::config::apply_global_options(GlobalOptions::new().allocation_limit(limit));
	let mut b = Budget::new(&i.data);
	let (r, st) = measure(|| rd::read_native(k, &mut b, o, false));
	crate::util::reset_globals();
	c.nontrivial();
	c.class(if size > limit { "over" } else { "under" });
	let _ = TagType::Ape;
	check_mem(&i, limit, st)?;
	// (FLAC and Ogg packets hold whole tags)
	// (WAV, AIFF, FLAC and Ogg read whole tags with their padding, and pictures there are base64)
	if 2 * size + 2500 <= limit {
		let ok = r.as_ref().is_ok_and(|n| n.get(ty).is_some_and(|x| x.canon() == t.canon()));
		ensure!(
			ok,
			format!("{} {ty:?}: item below the limit", k.name()),
			"an item of {size} bytes could not be read with a limit of {limit}: {:?}",
			r.map(|n| n.get(ty).map(|t| t.describe()))
		);
	}
	Ok(())
}

// ------------------------------------------------------------------ C03

fn c03_case(c: &mut Case) -> R {
	let i = match c.src.chance(1, 25) {
		true => {
			let k = Kind::Mp4;
			let (d, w) = nested(&mut c.src, k).unwrap();
			Input { kind: k, data: d, what: w.into(), intact: false }
		},
		false => inputs::any(&mut c.src),
	};
	let ko = if c.src.chance(1, 10) { *c.src.pick(&ALL_KINDS) } else { i.kind };
	let op = gen_op(&mut c.src, ko);
	let o = lg::write_options(&mut c.src);
	note_input(c, &i, &ParseOptions::new());
	c.note(|| format!("{} with {o:?}", op.describe()));
	let before = guard(|| rd::probe_read(Budget::new(&i.data), ParseOptions::new()));
	let before_ft = match &before {
		Ok(Ok(t)) => Some(lofty::file::TaggedFileExt::file_type(t)),
		_ => None,
	};
	let mut m = Mem::new(i.data.clone());
	let r = guard(|| op.apply(&mut m, o)).map_err(|f| tag_fail(f, &format!("{} {:?} in {}", op.name(), op.ty(), i.kind.name())))?;
	if m.ops > 30 {
		c.nontrivial();
	}
	c.class(op.name());
	match r {
		Err(_) => c.class("refused"),
		Ok(()) => {
			c.class("done");
			ensure!(
				m.data.len() <= i.data.len() + (1 << 20),
				format!("{} {:?} in {}: file grew", op.name(), op.ty(), i.kind.name()),
				"{} -> {} bytes",
				i.data.len(),
				m.data.len()
			);
			// what a damaged file looks like afterwards is up to the damage
			if let Some(ft) = before_ft.filter(|_| i.intact) {
				c.class("readable");
				let after = guard(|| rd::probe_read(Budget::new(&m.data), ParseOptions::new()))
					.map_err(|f| tag_fail(f, "read after"))?;
				let what = format!("{} {:?} in {ft:?}", op.name(), op.ty());
				match after {
					Err(e) => {
						return fail(
							format!("{what}: unreadable after: {}", e.chars().take(70).map(|c| if c.is_ascii_digit() { '#' } else { c }).collect::<String>()),
							format!("the file could be read as {ft:?} before, now: {e}"),
						);
					},
					Ok(t) => {
						let ft2 = lofty::file::TaggedFileExt::file_type(&t);
						ensure!(ft2 == ft, format!("{what}: other type after"), "the file was {ft:?}, now {ft2:?}");
					},
				}
			}
		},
	}
	Ok(())
}

// ------------------------------------------------------------------ C04

#[derive(Clone)]
struct Stream {
	m: std::rc::Rc<std::cell::RefCell<Mem>>,
}
impl Read for Stream {
	fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
		self.m.borrow_mut().read(b)
	}
}
impl Seek for Stream {
	fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
		self.m.borrow_mut().seek(p)
	}
}

fn reference(i: &Input, o: ParseOptions, probe: bool) -> Result<Result<rd::Out, String>, Fail> {
	guard(|| {
		let mut b = Budget::new(&i.data);
		if probe { rd::probe_read(b, o).map(|t| rd::c_tagged(&t)) } else { rd::read_native(i.kind, &mut b, o, false).map(|n| n.out()) }
	})
}

fn via(i: &Input, o: ParseOptions, probe: bool, m: Mem) -> Result<(Result<rd::Out, String>, Mem), Fail> {
	let st = Stream { m: std::rc::Rc::new(std::cell::RefCell::new(m)) };
	let r = guard(|| {
		let mut b = st.clone();
		if probe { rd::probe_read(b, o).map(|t| rd::c_tagged(&t)) } else { rd::read_native(i.kind, &mut b, o, false).map(|n| n.out()) }
	})?;
	let m = std::rc::Rc::try_unwrap(st.m).ok().expect("stream").into_inner();
	Ok((r, m))
}

fn diff(a: &rd::Out, b: &rd::Out) -> &'static str {
	if a.props != b.props {
		"properties"
	} else if a.tags.len() != b.tags.len() {
		"number of tags"
	} else if a.tags != b.tags {
		"tag content"
	} else {
		"pictures or other"
	}
}

fn c04_short(c: &mut Case) -> R {
	let i = inputs::any(&mut c.src);
	let o = rd::parse_options(&mut c.src);
	let probe = c.src.chance(1, 4);
	note_input(c, &i, &o);
	let Ok(a) = reference(&i, o, probe) else { return Ok(()) };
	let mut m = Mem::new(i.data.clone());
	m.budget *= 20;
	let seed = c.src.below(1 << 32);
	m.short = Some(Rng::new(seed));
	let (b, m) = via(&i, o, probe, m).map_err(|f| tag_fail(f, "short reads"))?;
	c.class(if a.is_ok() { "accepted" } else { "rejected" });
	if a.is_ok() && m.ops > 40 {
		c.nontrivial();
	}
	// how much of a corrupt zlib stream can be decompressed is up to the decompressor
	if !i.intact && i.data.windows(2).any(|w| w[0] == 0x78 && [0x01, 0x5E, 0x9C, 0xDA].contains(&w[1])) {
		let text = format!("{a:?} {b:?}");
		if text.contains("deflate") || text.contains("compression: true") || a.is_ok() != b.is_ok() {
			c.class("corrupt deflate");
			return Ok(());
		}
	}
	match (a, b) {
		(Ok(a), Ok(b)) => {
			ensure!(
				a == b,
				format!("{}: short reads change the {}", i.kind.name(), diff(&a, &b)),
				"from memory:\n{a:?}\nwith short reads:\n{b:?}"
			);
		},
		(Err(_), Err(_)) => {},
		(a, b) => {
			return fail(
				format!("{}: short reads change acceptance: {}", i.kind.name(), a.as_ref().err().or(b.as_ref().err()).map(|e| esig(e)).unwrap_or_default()),
				format!("from memory: {:?}\nwith short reads: {:?}", a.map(|_| "accepted"), b.map(|_| "accepted")),
			);
		},
	}
	Ok(())
}

fn c04_fault(c: &mut Case) -> R {
	let i = inputs::any(&mut c.src);
	let o = rd::parse_options(&mut c.src);
	let probe = c.src.chance(1, 4);
	note_input(c, &i, &o);
	let Ok(Ok(a)) = reference(&i, o, probe) else { return Ok(()) };
	let (_, m) = via(&i, o, probe, Mem::new(i.data.clone()))?;
	let ops = m.ops;
	for _ in 0..c.src.usize(1, 12) {
		let at = match c.src.below(3) {
			0 => 1 + c.src.below(ops.min(30).max(1)),
			_ => 1 + c.src.below(ops.max(1)),
		};
		let mut m = Mem::new(i.data.clone());
		m.fail_at = Some(at);
		m.sticky = c.src.chance(1, 4);
		let (b, m) = via(&i, o, probe, m).map_err(|f| tag_fail(f, "failing read"))?;
		if !m.failed {
			continue;
		}
		c.nontrivial();
		c.class(m.failed_op);
		if let Ok(b) = b {
			ensure!(
				a == b,
				format!("{}: I/O error swallowed, {} differ", i.kind.name(), diff(&a, &b)),
				"operation {at} ({}) of {ops} failed, yet reading succeeded with a different result\nwithout:\n{a:?}\nwith:\n{b:?}",
				m.failed_op
			);
			c.class("unaffected");
		}
	}
	Ok(())
}

// ------------------------------------------------------------------ C05

fn gen_op_input(c: &mut Case) -> (Input, Op, WriteOptions) {
	let k = *c.src.pick(&ALL_KINDS);
	let d = inputs::tagged(&mut c.src, k);
	let op = gen_op(&mut c.src, k);
	let o = lg::write_options(&mut c.src);
	c.note(|| format!("{} in {} ({} bytes) with {o:?}", op.describe(), k.name(), d.len()));
	(Input { kind: k, data: d, what: "tagged".into(), intact: true }, op, o)
}

fn c05_fault(c: &mut Case) -> R {
	let (i, op, o) = gen_op_input(c);
	let mut m = Mem::new(i.data.clone());
	let Ok(Ok(())) = guard(|| op.apply(&mut m, o)) else { return Ok(()) };
	let want = m.data;
	let ops = m.ops;
	c.class(op.name());
	let n = c.src.usize(4, 24) as u64;
	let all = ops <= n * 2;
	for j in 0..if all { ops } else { n } {
		let at = if all {
			j + 1
		} else if c.src.bool() {
			// the end holds the writes
			ops - c.src.below(ops.min(12))
		} else {
			1 + c.src.below(ops)
		};
		let mut m = Mem::new(i.data.clone());
		m.fail_at = Some(at);
		m.sticky = c.src.chance(1, 3);
		let label = format!("{} {:?} in {}", op.name(), op.ty(), i.kind.name());
		let r = guard(|| op.apply(&mut m, o)).map_err(|f| tag_fail(f, &label))?;
		if !m.failed {
			continue;
		}
		c.nontrivial();
		c.class(m.failed_op);
		ensure!(
			r.is_err(),
			format!("{label}: failed {} reported as success{}", m.failed_op, if m.data == want { " (same file)" } else { "" }),
			"operation {at} of {ops} ({}) failed, but the result is Ok; file {}",
			m.failed_op,
			if m.data == want { "as without failure".to_string() } else { first_diff(&want, &m.data) }
		);
	}
	Ok(())
}

fn sorted(k: Kind, d: &[u8]) -> Option<rd::Out> {
	let mut o = rd::read_native(k, &mut Budget::new(d), ParseOptions::new(), false).ok()?.out();
	o.tags.iter_mut().for_each(|t| t.sort());
	Some(o)
}

fn c05_short(c: &mut Case) -> R {
	let (i, op, o) = gen_op_input(c);
	let mut m = Mem::new(i.data.clone());
	let Ok(r) = guard(|| op.apply(&mut m, o)) else { return Ok(()) };
	let want = m.data;
	let mut m = Mem::new(i.data.clone());
	m.budget *= 20;
	m.short = Some(Rng::new(c.src.below(1 << 32)));
	let label = format!("{} {:?} in {}", op.name(), op.ty(), i.kind.name());
	let r2 = guard(|| op.apply(&mut m, o)).map_err(|f| tag_fail(f, &format!("{label} short")))?;
	c.class(op.name());
	c.nontrivial();
	match (r, r2) {
		(Ok(()), Ok(())) if m.data == want => {},
		// (a generic tag becomes ID3v2 frames in no particular order)
		(Ok(()), Ok(())) => ensure!(
			op.name() == "save-generic" && m.data.len() == want.len() && sorted(i.kind, &m.data) == sorted(i.kind, &want),
			format!("{label}: short transfers change the file"),
			"{}",
			first_diff(&want, &m.data)
		),
		(Ok(()), Err(e)) => {
			return fail(format!("{label}: short transfers make it fail: {}", esig(&e)), format!("{e:?}"));
		},
		(Err(_), Ok(())) => return fail(format!("{label}: short transfers make it succeed"), String::new()),
		_ => {},
	}
	Ok(())
}

pub fn props() -> Vec<Property> {
	let _ = BUDGET_MSG;
	vec![
		Property {
			id: "C01",
			rule: "the reader made more than 25 stream operations on an input that is not a plain well-formed file, or a nested or partial structure was parsed",
			assumptions: &["inputs up to 1 MiB", "32-bit arithmetic overflow checked by building with overflow checks and debug assertions", "a stream operation budget of 20000 + 200 per input byte stands for bounded work"],
			suites: vec![
				suite!("files", 400_000, 15_000_000, c01_files),
				suite!("nesting", 400, 6_000, c01_nesting),
				suite!("parts", 300_000, 8_000_000, c01_parts),
			],
		},
		Property {
			id: "C02",
			rule: "the reader made more than 25 stream operations, or a file with one item around the limit was read",
			assumptions: &["memory is what passes through the Rust global allocator on the reading thread"],
			suites: vec![suite!("files", 250_000, 8_000_000, c02_files), suite!("items", 20_000, 600_000, c02_items)],
		},
		Property {
			id: "C03",
			rule: "the operation made more than 30 stream operations",
			assumptions: &["inputs up to 1 MiB"],
			suites: vec![suite!("files", 400_000, 15_000_000, c03_case)],
		},
		Property {
			id: "C04",
			rule: "an accepted file was read in over 40 short reads, or an injected error was hit",
			assumptions: &["a transient interruption is ErrorKind::Interrupted, any other error is genuine", "damaged zlib streams are exempt: how much of one is decompressed depends on the decompressor"],
			suites: vec![suite!("short", 150_000, 6_000_000, c04_short), suite!("fault", 120_000, 5_000_000, c04_fault)],
		},
		Property {
			id: "C05",
			rule: "an injected failure was hit during a save or removal that succeeds without it, or the operation ran over short transfers",
			assumptions: &["the file is a single in-memory object; only its own operations fail"],
			suites: vec![suite!("fault", 80_000, 3_000_000, c05_fault), suite!("short", 50_000, 2_000_000, c05_short)],
		},
	]
}
