//! MP4 atom trees.

use super::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Atom {
	pub id: [u8; 4],
	/// leading bytes before children (full atom version/flags), or the whole payload of a leaf
	pub head: Vec<u8>,
	pub kids: Vec<Atom>,
	/// use the 64 bit size form
	pub wide: bool,
	/// size field 0 (extends to the end of the file)
	pub to_eof: bool,
}

impl Atom {
	pub fn leaf(id: &[u8; 4], data: Vec<u8>) -> Self {
		Atom { id: *id, head: data, kids: vec![], wide: false, to_eof: false }
	}
	pub fn node(id: &[u8; 4], kids: Vec<Atom>) -> Self {
		Atom { id: *id, head: vec![], kids, wide: false, to_eof: false }
	}
	pub fn len(&self) -> usize {
		let k: usize = self.kids.iter().map(Atom::len).sum();
		8 + if self.wide { 8 } else { 0 } + self.head.len() + k
	}
	pub fn write(&self, out: &mut Vec<u8>) {
		let n = self.len();
		if self.wide {
			out.extend(be32(1));
			out.extend(self.id);
			out.extend((n as u64).to_be_bytes());
		} else {
			out.extend(be32(if self.to_eof { 0 } else { n as u32 }));
			out.extend(self.id);
		}
		out.extend(&self.head);
		for k in &self.kids {
			k.write(out);
		}
	}
}

#[derive(Clone, Debug)]
pub struct PAtom {
	pub id: [u8; 4],
	pub start: usize,
	pub hdr: usize,
	pub len: usize,
	pub head: Vec<u8>,
	pub kids: Vec<PAtom>,
}

const CONTAINERS: [&[u8; 4]; 12] = [
	b"moov", b"trak", b"mdia", b"minf", b"stbl", b"udta", b"meta", b"edts", b"moof", b"traf", b"mvex", b"ilst",
];

/// Strict parse of consecutive atoms covering `data[start..end]` exactly.
pub fn parse_range(data: &[u8], start: usize, end: usize, path: &str) -> Result<Vec<PAtom>, String> {
	let mut v = vec![];
	let mut p = start;
	while p < end {
		if end - p < 8 {
			// QuickTime allows a user data list to end in a 32 bit zero
			if path == "/moov/udta" && end - p == 4 && data[p..end] == [0; 4] {
				break;
			}
			return Err(format!("{} stray bytes at the end of {path}", end - p));
		}
		let mut n = rd_be32(&data[p..]) as u64;
		let id: [u8; 4] = data[p + 4..p + 8].try_into().unwrap();
		let mut hdr = 8;
		if n == 1 {
			if end - p < 16 {
				return Err("64 bit size cut".into());
			}
			n = rd_be64(&data[p + 8..]);
			hdr = 16;
		} else if n == 0 {
			if !path.is_empty() {
				return Err(format!("size 0 atom {:?} inside {path}", String::from_utf8_lossy(&id)));
			}
			n = (end - p) as u64;
		}
		if n < hdr as u64 || n > (end - p) as u64 {
			return Err(format!(
				"atom {path}/{} at {p} claims {n} bytes, {} remain in its parent",
				String::from_utf8_lossy(&id),
				end - p
			));
		}
		let n = n as usize;
		let body = p + hdr;
		let mut a = PAtom { id, start: p, hdr, len: n, head: vec![], kids: vec![] };
		let name = format!("{path}/{}", id.escape_ascii());
		let in_ilst = path.ends_with("/ilst");
		if CONTAINERS.contains(&&id) || in_ilst {
			let mut skip = 0;
			if &id == b"meta" {
				// full atom unless a child identifier follows directly
				let b = &data[body..p + n];
				if b.is_empty() || b.len() >= 8 && (&b[4..8] == b"hdlr" || &b[4..8] == b"ilst" || &b[4..8] == b"free") {
					skip = 0;
				} else {
					skip = 4;
				}
				if b.len() < skip {
					return Err("meta shorter than its version".into());
				}
			}
			a.head = data[body..body + skip].to_vec();
			a.kids = parse_range(data, body + skip, p + n, &name)?;
		} else {
			a.head = data[body..p + n].to_vec();
		}
		v.push(a);
		p += n;
	}
	Ok(v)
}

pub fn parse(data: &[u8]) -> Result<Vec<PAtom>, String> {
	parse_range(data, 0, data.len(), "")
}

pub fn find<'a>(atoms: &'a [PAtom], path: &[&[u8; 4]]) -> Option<&'a PAtom> {
	let a = atoms.iter().find(|a| &a.id == path[0])?;
	if path.len() == 1 { Some(a) } else { find(&a.kids, &path[1..]) }
}

fn flatten(data: &[u8], atoms: &[PAtom], all: &[PAtom], path: &str, out: &mut Vec<(String, Vec<u8>)>) -> Result<(), String> {
	for a in atoms {
		let name = format!("{path}/{}", a.id.escape_ascii());
		if name == "/moov/udta/meta/ilst" || name == "/moov/udta/meta/free" {
			continue;
		}
		if !a.kids.is_empty() || (CONTAINERS.contains(&&a.id)) {
			if &a.id != b"meta" && !a.head.is_empty() {
				out.push((format!("{name}#head"), a.head.clone()));
			}
			flatten(data, &a.kids, all, &name, out)?;
			continue;
		}
		let target = |off: u64| -> Result<String, String> {
			let off = usize::try_from(off).map_err(|_| "offset too large".to_string())?;
			for (i, m) in all.iter().enumerate() {
				if &m.id == b"mdat" && off >= m.start + m.hdr && off < m.start + m.len {
					let nth = all[..i].iter().filter(|x| &x.id == b"mdat").count();
					return Ok(format!("mdat{nth}+{}", off - m.start - m.hdr));
				}
			}
			Ok(format!("outside:{off}"))
		};
		match &a.id {
			b"stco" | b"co64" => {
				let w = if &a.id == b"stco" { 4 } else { 8 };
				if a.head.len() < 8 {
					return Err(format!("{name} cut"));
				}
				let n = rd_be32(&a.head[4..]) as usize;
				if a.head.len() != 8 + n * w {
					return Err(format!("{name}: {n} entries in {} bytes", a.head.len()));
				}
				let mut d = format!("{:?} n={n}", &a.head[..4]);
				for i in 0..n {
					let b = &a.head[8 + i * w..];
					let o = if w == 4 { u64::from(rd_be32(b)) } else { rd_be64(b) };
					d.push_str(&format!(" {}", target(o)?));
				}
				out.push((name, d.into_bytes()));
			},
			b"tfhd" => {
				let flags = rd_be32(&a.head) & 0xFF_FFFF;
				if flags & 1 != 0 {
					let o = rd_be64(&a.head[8..]);
					let mut d = format!("{:?} base={} ", &a.head[..8], target(o)?).into_bytes();
					d.extend(&a.head[16..]);
					out.push((name, d));
				} else {
					out.push((name, a.head.clone()));
				}
			},
			_ => out.push((name, a.head.clone())),
		}
	}
	Ok(())
}

/// Leaves outside the item list in order, with chunk offsets resolved to positions in media data.
pub fn essence(data: &[u8]) -> Result<Vec<(String, Vec<u8>)>, String> {
	let atoms = parse(data)?;
	let mut out = vec![];
	flatten(data, &atoms, &atoms, "", &mut out)?;
	Ok(out)
}

/// Compares two essences; `after` may additionally hold a fresh metadata handler.
pub fn same(before: &[(String, Vec<u8>)], after: &[(String, Vec<u8>)]) -> Result<(), String> {
	const H: &str = "/moov/udta/meta/hdlr";
	let had = before.iter().any(|x| x.0 == H);
	let b: Vec<_> = before.iter().collect();
	let a: Vec<_> = after.iter().filter(|x| had || x.0 != H).collect();
	let extra = after.iter().filter(|x| x.0 == H).count();
	if !had && extra > 1 {
		return Err("several metadata handlers created".into());
	}
	compare(&b, &a)
}

pub fn compare(b: &[&(String, Vec<u8>)], a: &[&(String, Vec<u8>)]) -> Result<(), String> {
	for (i, (x, y)) in b.iter().zip(a).enumerate() {
		if x.0 != y.0 {
			return Err(format!("element {i}: expected {}, found {}", x.0, y.0));
		}
		if x.1 != y.1 {
			if x.0.ends_with("stco") || x.0.ends_with("co64") || x.0.ends_with("tfhd") {
				return Err(format!(
					"{}: {} became {}",
					x.0,
					String::from_utf8_lossy(&x.1),
					String::from_utf8_lossy(&y.1)
				));
			}
			return Err(format!("{} changed: {}", x.0, crate::util::first_diff(&x.1, &y.1)));
		}
	}
	if b.len() != a.len() {
		let f = |v: &[&(String, Vec<u8>)]| v.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
		return Err(format!("elements {:?} became {:?}", f(b), f(a)));
	}
	Ok(())
}

pub fn data_atom(ty: u32, data: &[u8]) -> Atom {
	let mut v = be32(ty).to_vec();
	v.extend([0; 4]);
	v.extend(data);
	Atom::leaf(b"data", v)
}

/// Constraints for the generator.
#[derive(Clone, Debug, Default)]
pub struct Shape {
	/// an item list to include (children of ilst)
	pub ilst: Option<Vec<Atom>>,
	/// raw content of the item list instead
	pub raw_ilst: Option<Vec<u8>>,
	/// exotic layouts: 64 bit sizes, fragments, co64
	pub exotic: bool,
	/// force every layout choice to the plain one
	pub plain: bool,
}

fn full(mut d: Vec<u8>) -> Vec<u8> {
	let mut v = vec![0; 4];
	v.append(&mut d);
	v
}

pub fn meta_hdlr() -> Atom {
	let mut d = vec![0u8; 4];
	d.extend([0; 4]);
	d.extend(b"mdirappl");
	d.extend([0; 9]);
	Atom::leaf(b"hdlr", d)
}

fn descriptor(tag: u8, body: Vec<u8>, long: bool) -> Vec<u8> {
	let mut v = vec![tag];
	if long {
		v.extend([0x80, 0x80, 0x80]);
	}
	v.push(body.len() as u8);
	v.extend(body);
	v
}

/// the audio object types of MPEG-4
pub const OBJECT_TYPES: &[(u32, &str)] = &[
	(1, "AacMain"),
	(2, "AacLowComplexity"),
	(3, "AacScalableSampleRate"),
	(4, "AacLongTermPrediction"),
	(5, "SpectralBandReplication"),
	(6, "AACScalable"),
	(7, "TwinVQ"),
	(8, "CodeExcitedLinearPrediction"),
	(9, "HarmonicVectorExcitationCoding"),
	(12, "TextToSpeechtInterface"),
	(13, "MainSynthetic"),
	(14, "WavetableSynthesis"),
	(15, "GeneralMIDI"),
	(16, "AlgorithmicSynthesis"),
	(17, "ErrorResilientAacLowComplexity"),
	(19, "ErrorResilientAacLongTermPrediction"),
	(20, "ErrorResilientAacScalable"),
	(21, "ErrorResilientAacTwinVQ"),
	(22, "ErrorResilientAacBitSlicedArithmeticCoding"),
	(23, "ErrorResilientAacLowDelay"),
	(24, "ErrorResilientCodeExcitedLinearPrediction"),
	(25, "ErrorResilientHarmonicVectorExcitationCoding"),
	(26, "ErrorResilientHarmonicIndividualLinesNoise"),
	(27, "ErrorResilientParametric"),
	(28, "SinuSoidalCoding"),
	(29, "ParametricStereo"),
	(30, "MpegSurround"),
	(32, "MpegLayer1"),
	(33, "MpegLayer2"),
	(34, "MpegLayer3"),
	(35, "DirectStreamTransfer"),
	(36, "AudioLosslessCoding"),
	(37, "ScalableLosslessCoding"),
	(38, "ScalableLosslessCodingNoneCore"),
	(39, "ErrorResilientAacEnhancedLowDelay"),
	(40, "SymbolicMusicRepresentationSimple"),
	(41, "SymbolicMusicRepresentationMain"),
	(42, "UnifiedSpeechAudioCoding"),
	(43, "SpatialAudioObjectCoding"),
	(44, "LowDelayMpegSurround"),
	(45, "SpatialAudioObjectCodingDialogueEnhancement"),
	(46, "AudioSync"),
];

pub fn gen_mp4(s: &mut Src, sh: &Shape) -> (Vec<u8>, Expect) {
	let codec = s.below(3);
	let rate = match codec {
		0 if s.chance(1, 3) => *s.pick(&raw::AAC_RATES[..13]),
		0 if s.chance(1, 6) => s.range(1, 0xFF_FFFF) as u32,
		1 if s.chance(1, 4) => *s.pick(&[88_200u32, 96_000, 192_000, 384_000]),
		2 if s.chance(1, 4) => *s.pick(&[88_200u32, 96_000, 192_000, 655_350]),
		_ => *s.pick(&[44100u32, 48000, 22050, 8000]),
	};
	let ch = if s.chance(1, 4) { s.range(1, 8) as u16 } else { s.range(1, 2) as u16 };
	let mut e = Expect { sample_rate: Some(rate), channels: Some(ch as u8), ..Expect::default() };

	// --- media
	let nmdat = if sh.plain { 1 } else { [1usize, 1, 2][s.below(3) as usize] };
	let mut mdats = vec![];
	for _ in 0..nmdat {
		let n = s.size(4000, &[1, 8, 16]) + 16;
		mdats.push(s.blob(n));
	}
	let chunks = s.usize(1, 6);
	let mut targets = vec![];
	for _ in 0..chunks {
		let m = s.usize(0, nmdat - 1);
		targets.push((m, s.usize(0, mdats[m].len() - 1)));
	}
	if !s.chance(1, 4) {
		targets.sort_unstable();
	}
	let ntrak = if sh.plain { 1 } else { [1usize, 1, 2][s.below(3) as usize] };
	let co64 = if sh.plain { false } else { s.chance(1, 3) };
	let order = if sh.plain { s.below(2) } else { s.below(4) };
	let frag = sh.exotic && s.chance(1, 2);
	// Base data offset (1), sample description (2), defaults (8, 0x10, 0x20), others
	let mut tfhd_flags = |first: u32| {
		if !frag {
			return first;
		}
		let mut f = if s.chance(1, 3) { 1 - (first & 1) } else { first };
		for bit in [2, 8, 0x10, 0x20, 0x1_0000] {
			if s.chance(1, 3) {
				f |= bit;
			}
		}
		f
	};
	let frag_flags = (tfhd_flags(1), tfhd_flags(0x2_0000));
	let wide_mdat = !sh.plain && s.chance(1, 6);
	let wide_moov = sh.exotic && s.chance(1, 4);
	let wide_udta = sh.exotic && s.chance(1, 6);
	let udta = if sh.ilst.is_some() || sh.raw_ilst.is_some() { 2 } else { s.below(4) };
	let full_meta = !s.chance(1, 5);
	let hdlr_in_meta = s.chance(9, 10);
	let pad_after = if s.bool() { Some(s.size(3000, &[0, 8, 1024, 2048])) } else { None };
	let pad_before = if s.chance(1, 8) { Some(s.size(300, &[0, 8])) } else { None };
	let other_udta_before = s.chance(1, 4);
	let other_udta_after = s.chance(1, 4);
	let free_top = s.chance(1, 3);
	let free_len = s.size(500, &[0, 8]);
	let eof_mdat = !sh.plain && s.chance(1, 8);

	let timescale = if rate > 48_000 { 1000 } else if s.chance(1, 4) { *s.pick(&[600, 1000, 8000]) } else { rate };
	// (only the wide header can state more than 32 bits)
	let huge = !sh.plain && s.chance(1, 10);
	let samples = if huge {
		(1 << 32) + s.below(1 << 34)
	} else if s.chance(1, 10) {
		s.range(1, 1024)
	} else {
		s.range(1024, 4_000_000)
	};
	e.duration_ms = Some(samples as f64 * 1000.0 / f64::from(timescale));
	e.duration_tol = 1.0;
	let dur = if !huge && (sh.plain || s.bool()) { None } else { Some(samples) };

	// --- sample description
	// (the layout of version 1 and 2 entries is QuickTime's)
	let version = if codec == 1 || sh.plain { 0u16 } else { *s.pick(&[0u16, 0, 0, 1, 2]) };
	let mut entry = vec![0u8; 6];
	entry.extend(1u16.to_be_bytes());
	entry.extend(version.to_be_bytes());
	entry.extend([0; 6]);
	if version == 2 {
		entry.extend(3u16.to_be_bytes());
		entry.extend(16u16.to_be_bytes());
		entry.extend([0xFF, 0xFE, 0, 0]);
		entry.extend(be32(65_536));
		let extra = if s.chance(1, 4) { s.usize(1, 40) } else { 0 };
		entry.extend(be32(72 + extra as u32));
		entry.extend(f64::from(rate).to_be_bytes());
		entry.extend(be32(u32::from(ch)));
		entry.extend(be32(0x7F00_0000));
		entry.extend(be32(16));
		entry.extend([0; 12]);
		entry.extend(vec![0xEE; extra]);
	} else {
		entry.extend(ch.to_be_bytes());
		entry.extend(16u16.to_be_bytes());
		entry.extend([0; 4]);
		// (16.16 fixed point can't hold higher rates)
		entry.extend((if rate > 0xFFFF { 0 } else { rate << 16 }).to_be_bytes());
		if version == 1 {
			entry.extend([0xAA; 16]);
		}
	}
	let mut object_type = 0;
	let mut stated_bitrate = 0;
	let mut codec_name = ["Some(AAC)", "Some(ALAC)", "Some(FLAC)"][codec as usize];
	let fourcc: &[u8; 4] = match codec {
		0 => b"mp4a",
		1 => b"alac",
		_ => b"fLaC",
	};
	match codec {
		0 => {
			let long = s.bool();
			let idx = raw::AAC_RATES[..13].iter().position(|r| *r == rate);
			object_type = if sh.plain { 2u32 } else { if s.bool() { *s.pick(&[2u32, 2, 5, 36]) } else { s.pick(OBJECT_TYPES).0 } };
			let mut bits: Vec<bool> = vec![];
			let put = |v: u32, n: u32, bits: &mut Vec<bool>| {
				for i in (0..n).rev() {
					bits.push(v >> i & 1 == 1);
				}
			};
			if object_type > 31 {
				put(31, 5, &mut bits);
				put(object_type - 32, 6, &mut bits);
			} else {
				put(object_type, 5, &mut bits);
			}
			match idx {
				Some(i) if !s.chance(1, 8) => put(i as u32, 4, &mut bits),
				_ => {
					put(15, 4, &mut bits);
					put(rate, 24, &mut bits);
				},
			}
			// channel configuration: 0 leaves it to the sample entry
			let conf = match ch {
				_ if s.chance(1, 6) => 0,
				7 => 11,
				8 => *s.pick(&[7, 12, 14]),
				n => u32::from(n),
			};
			put(conf, 4, &mut bits);
			while bits.len() % 8 != 0 {
				bits.push(false);
			}
			let mut asc: Vec<u8> =
				bits.chunks(8).map(|b| b.iter().fold(0u8, |a, x| a << 1 | u8::from(*x))).collect();
			if object_type == 36 {
				// an ALS configuration states both values again
				asc.extend(b"ALS\0");
				asc.extend(be32(rate));
				asc.extend(be32(samples as u32));
				// (it has room for more channels than the others)
				let ch = if s.chance(1, 4) { *s.pick(&[255u16, 256, 300, 9]) } else { ch };
				e.channels = Some(ch.min(255) as u8);
				asc.extend((ch - 1).to_be_bytes());
			}
			stated_bitrate = if s.chance(1, 3) { 0 } else { 128 };
			let dsi = descriptor(5, asc, long);
			// (what the descriptor holds, and what the entry says otherwise)
			let what = if sh.plain || rate > 0xFFFF && version < 2 { 0 } else { s.weighted(&[16, 2, 1]) };
			if what != 0 {
				e.channels = Some(ch as u8);
			}
			let mut dc = vec![if what == 1 { *s.pick(&[0x69, 0x6B]) } else { *s.pick(&[0x40, 0x40, 0x66, 0x67, 0x68]) }, 0x15, 0, 0, 0];
			dc.extend(be32(320_000));
			dc.extend(be32(stated_bitrate * 1000));
			match what {
				0 => dc.extend(dsi),
				1 => {
					// MP3, which needs no configuration
					codec_name = "Some(MP3)";
					object_type = 0;
					dc.extend(descriptor(6, vec![2], long));
				},
				_ => {
					object_type = 0;
					stated_bitrate = 0;
				},
			}
			let dcd = descriptor(4, dc, long);
			let mut es = vec![0, 1, 0];
			es.extend(dcd);
			es.extend([6, 1, 2]);
			let esd = descriptor(3, es, long);
			if what < 2 {
				Atom::leaf(b"esds", full(esd)).write(&mut entry);
			}
		},
		1 => {
			let mut a = vec![0u8; 4];
			a.extend(be32(4096));
			a.push(0);
			a.push(16);
			a.extend([40, 10, 14]);
			a.push(ch as u8);
			a.extend(255u16.to_be_bytes());
			a.extend(be32(0));
			a.extend(be32(700_000));
			a.extend(be32(rate));
			if !sh.plain && s.chance(1, 3) {
				// the layout of the channels
				a.extend(be32(24));
				a.extend(b"chan");
				a.extend([0; 16]);
			}
			Atom::leaf(b"alac", a).write(&mut entry);
			e.bit_depth = Some(16);
			stated_bitrate = 700;
		},
		_ => {
			let mut a = vec![0u8; 4];
			a.push(0x80);
			a.extend([0, 0, 34]);
			a.extend(flac::streaminfo(rate, ch as u8, 16, samples, [9; 16]));
			Atom::leaf(b"dfLa", a).write(&mut entry);
			e.bit_depth = Some(16);
		},
	}
	let unknown_entry = !sh.plain && s.chance(1, 8);
	let drm = unknown_entry && s.bool();
	let mut stsd = vec![0, 0, 0, 0, 0, 0, 0, 1 + u8::from(unknown_entry)];
	if unknown_entry {
		let mut u = vec![0u8; 28];
		u[17] = 9;
		u[24] = 9;
		u.extend(vec![0x77; s.usize(0, 30)]);
		Atom::leaf(if drm { b"drms" } else { b"abcd" }, u).write(&mut stsd);
	}
	let brand = if sh.plain { *b"M4A " } else { **s.pick(&[b"M4A ", b"M4A ", b"mp42", b"M4B ", b"isom", b"qt  "]) };
	e.mask = Some(None);
	e.facts = vec![
		("codec", codec_name.into()),
		(
			"audio_object_type",
			OBJECT_TYPES.iter().find(|t| t.0 == object_type).map_or("None".into(), |t| format!("Some({})", t.1)),
		),
		("drm", drm.to_string()),
		("ftyp", String::from_utf8_lossy(&brand).into_owned()),
		("file_ftyp", String::from_utf8_lossy(&brand).into_owned()),
	];
	let unit = if huge { 1024 } else { *s.pick(&[1024u32, 1024, 1024, 1]) };
	let total: usize = mdats.iter().map(Vec::len).sum();
	let exact_bitrate = total as f64 * 8.0 / e.duration_ms.unwrap();
	let ms = e.duration_ms.unwrap().round();
	if unit != 1 && exact_bitrate >= 1.0 {
		e.audio_bitrate = Some(exact_bitrate);
		e.bitrate_tol = 1.0;
	} else if unit == 1 && stated_bitrate > 0 {
		e.audio_bitrate = Some(f64::from(stated_bitrate));
		e.bitrate_tol = 0.0;
	} else if unit == 1 && ms > 0.0 {
		e.audio_bitrate = Some(total as f64 * 8.0 / ms);
		e.bitrate_tol = 1.0;
	}
	Atom::leaf(fourcc, entry).write(&mut stsd);

	let mk_trak = |offsets: &[u64], sound: bool| -> Atom {
		let mut co = vec![0; 4];
		co.extend(be32(offsets.len() as u32));
		for o in offsets {
			if co64 {
				co.extend(o.to_be_bytes());
			} else {
				co.extend(be32(*o as u32));
			}
		}
		let mut stts = vec![0; 4];
		stts.extend(be32(1));
		stts.extend(be32((samples / u64::from(unit)) as u32));
		stts.extend(be32(unit));
		let mut stsz = vec![0; 4];
		stsz.extend(be32(100));
		stsz.extend(be32(5));
		let mdhd = if let Some(d) = dur {
			let mut v = vec![1, 0, 0, 0];
			v.extend([0; 16]);
			v.extend(be32(timescale));
			v.extend(d.to_be_bytes());
			v.extend([0x55, 0xC4, 0, 0]);
			v
		} else {
			let mut v = vec![0; 12];
			v.extend(be32(timescale));
			v.extend(be32(samples as u32));
			v.extend([0x55, 0xC4, 0, 0]);
			v
		};
		let mut h = vec![0u8; 8];
		h.extend(if sound { b"soun" } else { b"text" });
		h.extend([0; 13]);
		Atom::node(
			b"trak",
			vec![
				Atom::leaf(b"tkhd", vec![0; 84]),
				Atom::node(
					b"mdia",
					vec![
						Atom::leaf(b"mdhd", mdhd),
						Atom::leaf(b"hdlr", h),
						Atom::node(
							b"minf",
							vec![
								Atom::leaf(b"smhd", vec![0; 8]),
								Atom::node(
									b"stbl",
									vec![
										Atom::leaf(b"stsd", stsd.clone()),
										Atom::leaf(b"stts", stts),
										Atom::leaf(b"stsz", stsz),
										Atom::leaf(if co64 { b"co64" } else { b"stco" }, co),
									],
								),
							],
						),
					],
				),
			],
		)
	};

	// --- metadata
	let udta_atom: Option<Atom> = if udta == 0 {
		None
	} else {
		let mut kids = vec![];
		if other_udta_before {
			kids.push(Atom::leaf(b"\xA9cpy", b"\0\x05\0\0hello".to_vec()));
		}
		if udta >= 2 {
			let mut mk = vec![];
			if hdlr_in_meta {
				mk.push(meta_hdlr());
			}
			if let Some(n) = pad_before {
				mk.push(Atom::leaf(b"free", vec![0; n]));
			}
			if let Some(raw) = &sh.raw_ilst {
				mk.push(Atom::leaf(b"ilst", raw.clone()));
			} else if let Some(il) = &sh.ilst {
				mk.push(Atom::node(b"ilst", il.clone()));
			} else if udta == 3 {
				mk.push(Atom::node(
					b"ilst",
					vec![Atom::node(b"\xA9too", vec![data_atom(1, b"enc")])],
				));
			}
			if let Some(n) = pad_after {
				mk.push(Atom::leaf(b"free", vec![0; n]));
			}
			let is_full = full_meta || mk.is_empty();
			kids.push(Atom {
				id: *b"meta",
				head: if is_full { vec![0; 4] } else { vec![] },
				kids: mk,
				wide: false,
				to_eof: false,
			});
		}
		if other_udta_after {
			kids.push(Atom::leaf(b"Xtra", vec![1, 2, 3, 4, 5]));
		}
		let mut u = Atom::node(b"udta", kids);
		u.wide = wide_udta;
		Some(u)
	};

	let build = |mdat_pos: &[u64]| -> (Vec<Atom>, Vec<usize>) {
		let offs: Vec<u64> = targets.iter().map(|(m, o)| mdat_pos[*m] + *o as u64).collect();
		let mut kids = vec![Atom::leaf(b"mvhd", vec![0; 100])];
		for i in 0..ntrak {
			kids.push(mk_trak(&offs, i == 0));
		}
		if frag {
			kids.push(Atom::node(b"mvex", vec![Atom::leaf(b"trex", vec![0; 24])]));
		}
		if let Some(u) = &udta_atom {
			kids.push(u.clone());
		}
		let mut moov = Atom::node(b"moov", kids);
		moov.wide = wide_moov;
		let mdat = |i: usize, last: bool| {
			let mut a = Atom::leaf(b"mdat", mdats[i].clone());
			a.wide = wide_mdat && !last;
			a.to_eof = last && eof_mdat;
			a
		};
		let ftyp = Atom::leaf(b"ftyp", [&brand[..], b"\0\0\0\0M4A mp42isom"].concat());
		let mut v = vec![ftyp];
		let free = Atom::leaf(b"free", vec![0; free_len]);
		let moof = |pos: u64| {
			let mk_tfhd = |flags: u32| {
				let mut t = be32(flags).to_vec();
				t.extend(be32(1));
				if flags & 1 != 0 {
					t.extend(pos.to_be_bytes());
				}
				for bit in [2, 8, 0x10, 0x20] {
					if flags & bit != 0 {
						t.extend(be32(bit + 5));
					}
				}
				t
			};
			let (tfhd, tfhd2) = (mk_tfhd(frag_flags.0), mk_tfhd(frag_flags.1));
			Atom::node(
				b"moof",
				vec![
					Atom::leaf(b"mfhd", vec![0; 8]),
					Atom::node(b"traf", vec![Atom::leaf(b"tfhd", tfhd), Atom::leaf(b"trun", vec![0; 8])]),
					Atom::node(b"traf", vec![Atom::leaf(b"tfhd", tfhd2), Atom::leaf(b"trun", vec![0; 8])]),
				],
			)
		};
		match order {
			// moov first
			0 | 2 => {
				v.push(moov);
				if free_top {
					v.push(free);
				}
				for i in 0..nmdat {
					if frag {
						v.push(moof(mdat_pos[i]));
					}
					v.push(mdat(i, i + 1 == nmdat));
				}
			},
			// mdat first
			1 => {
				if free_top {
					v.push(free);
				}
				for i in 0..nmdat {
					v.push(mdat(i, false));
				}
				v.push(moov);
			},
			// moov between
			_ => {
				v.push(mdat(0, false));
				v.push(moov);
				for i in 1..nmdat {
					if frag {
						v.push(moof(mdat_pos[i]));
					}
					v.push(mdat(i, i + 1 == nmdat));
				}
				if free_top && !(eof_mdat && nmdat > 1) {
					v.push(free);
				}
			},
		}
		let mut pos = vec![];
		let mut p = 0;
		for a in &v {
			if &a.id == b"mdat" {
				pos.push(p + 8 + if a.wide { 8 } else { 0 });
			}
			p += a.len();
		}
		(v, pos)
	};
	let zero = vec![0u64; nmdat];
	let (_, pos) = build(&zero);
	let pos: Vec<u64> = pos.into_iter().map(|x| x as u64).collect();
	let (atoms, _) = build(&pos);
	let mut out = vec![];
	for a in &atoms {
		a.write(&mut out);
	}
	e.desc = format!(
		"mp4 codec={} object={object_type} entry=v{version} unit={unit} timescale={timescale} samples={samples} stated={stated_bitrate} unknown_entry={unknown_entry} rate={rate} ch={ch} order={} traks={ntrak} mdats={:?} co64={co64} udta={udta} full_meta={full_meta} hdlr={hdlr_in_meta} pad=({pad_before:?},{pad_after:?}) frag={frag} wide=(mdat {wide_mdat}, moov {wide_moov}, udta {wide_udta}) eof_mdat={eof_mdat} free_top={free_top} ilst={}",
		String::from_utf8_lossy(fourcc),
		["moov-first", "mdat-first", "moov-first", "moov-between"][order as usize],
		mdats.iter().map(Vec::len).collect::<Vec<_>>(),
		sh.ilst.as_ref().map_or(-1, |x| x.len() as i64)
	);
	(out, e)
}
