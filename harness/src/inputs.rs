//! Arbitrary and damaged files: generated or real ones, mutated.

use crate::engine::Src;
use crate::fmt::{self, ALL_KINDS, Kind, flac, mp4, raw, riff, tags};
use crate::lg;
use crate::props::preserve;
use crate::util::Mem;
use std::sync::OnceLock;

pub struct Asset {
	pub name: String,
	pub kind: Option<Kind>,
	pub data: Vec<u8>,
}

pub fn assets() -> &'static (Vec<Asset>, Vec<Asset>) {
	static A: OnceLock<(Vec<Asset>, Vec<Asset>)> = OnceLock::new();
	A.get_or_init(|| {
		let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
		let load = |d: &str| {
			let mut v: Vec<Asset> = std::fs::read_dir(format!("{root}/assets/{d}"))
				.expect("assets")
				.map(|e| {
					let e = e.unwrap();
					let name = e.file_name().into_string().unwrap();
					let data = std::fs::read(e.path()).unwrap();
					Asset { kind: kind_of(&data), name, data }
				})
				.collect();
			v.sort_by(|a, b| a.name.cmp(&b.name));
			v
		};
		(load("files"), load("tags"))
	})
}

/// the kind by magic, without the library
fn kind_of(d: &[u8]) -> Option<Kind> {
	let mut d = d;
	while d.len() > 10 && &d[..3] == b"ID3" {
		let n = 10 + raw::synchsafe(&d[6..10]) as usize;
		if n > d.len() {
			return Some(Kind::Mp3);
		}
		d = &d[n..];
	}
	if d.len() < 40 {
		return None;
	}
	Some(match &d[..4] {
		b"MAC " => Kind::Ape,
		b"fLaC" => Kind::Flac,
		b"wvpk" => Kind::WavPack,
		b"RIFF" => Kind::Wav,
		b"FORM" => Kind::Aiff,
		b"OggS" => match d[28] {
			1 => Kind::Vorbis,
			b'O' => Kind::Opus,
			_ => Kind::Speex,
		},
		b"MPCK" => Kind::Mpc,
		[b'M', b'P', b'+', _] => Kind::Mpc,
		[0xFF, b, _, _] if b & 0xF6 == 0xF0 => Kind::Aac,
		[0xFF, b, _, _] if b & 0xE0 == 0xE0 => Kind::Mp3,
		_ if &d[4..8] == b"ftyp" => Kind::Mp4,
		_ => return None,
	})
}

/// A well-formed tagged file of the kind, with tags by the harness's own encoders and sometimes by the library.
pub fn tagged(s: &mut Src, k: Kind) -> Vec<u8> {
	let mut d = match k {
		k if k.is_raw() => preserve::gen_parts(s, k).to_bytes(),
		Kind::Wav | Kind::Aiff => preserve::gen_form(s, k).to_bytes(),
		Kind::Flac => {
			let (mut f, _) = flac::gen_flac(s);
			preserve::add_flac_tags(s, &mut f);
			f.to_bytes()
		},
		Kind::Opus | Kind::Vorbis | Kind::Speex => preserve::gen_ogg_tagged(s, k).0.to_bytes(),
		_ => {
			let exotic = s.bool();
			mp4::gen_mp4(s, &mp4::Shape { exotic, ..Default::default() }).0
		},
	};
	for _ in 0..[0u64, 1, 2][s.below(3) as usize] {
		let op = preserve::gen_op(s, k);
		let o = lg::write_options(s);
		let mut m = Mem::new(d.clone());
		if let Ok(Ok(())) = crate::engine::guard(|| op.apply(&mut m, o)) {
			d = m.data;
		}
	}
	d
}

/// A tag blob placed into a file of a kind that can carry it.
fn with_tag_blob(s: &mut Src, k: Kind) -> Option<Vec<u8>> {
	let a = s.pick(&assets().1);
	let ext = a.name.rsplit('.').next().unwrap_or("");
	let mut blob = a.data.clone();
	if s.bool() {
		mutate(s, &mut blob, 3);
	}
	match ext {
		"id3v24" | "id3v2" | "sylt" | "tipl" | "ctoc" | "owne" | "etco" | "priv" | "geob" | "rva2" | "chap" => {
			if blob.len() < 10 || &blob[..3] != b"ID3" {
				// a bare frame content: wrap it
				let id: [u8; 4] = match ext {
					"sylt" => *b"SYLT",
					"tipl" => *b"TIPL",
					"ctoc" => *b"CTOC",
					"owne" => *b"OWNE",
					"etco" => *b"ETCO",
					"priv" => *b"PRIV",
					"geob" => *b"GEOB",
					"rva2" => *b"RVA2",
					"chap" => *b"CHAP",
					_ => *b"TIT2",
				};
				blob = tags::id3v24(&[(&id, blob)], 0);
			}
			match k {
				Kind::Mp3 | Kind::Aac | Kind::Ape | Kind::Mpc | Kind::Flac => {
					let mut v = blob;
					v.extend(fmt::gen_plain(s, k));
					Some(v)
				},
				Kind::Wav | Kind::Aiff => {
					let mut f = if k == Kind::Wav { riff::gen_wav(s).0 } else { riff::gen_aiff(s).0 };
					f.chunks.push(riff::Chunk::new(b"ID3 ", blob));
					Some(f.to_bytes())
				},
				_ => None,
			}
		},
		"apev2" if k.is_raw() => {
			let mut v = fmt::gen_plain(s, k);
			v.extend(blob);
			Some(v)
		},
		"id3v1" if k.is_raw() => {
			let mut v = fmt::gen_plain(s, k);
			v.extend(blob);
			Some(v)
		},
		"ilst" if k == Kind::Mp4 => Some(mp4_with_ilst(s, &blob)),
		"vorbis" if k == Kind::Flac => {
			let (mut f, _) = flac::gen_flac(s);
			f.blocks.push(flac::Block { ty: 4, data: blob });
			Some(f.to_bytes())
		},
		"vorbis" if k.is_ogg() => Some(crate::fmt::ogg::gen_ogg_with(s, k, &blob, &[]).0.to_bytes()),
		"riff" if k == Kind::Wav => {
			let mut f = riff::gen_wav(s).0;
			let mut d = b"INFO".to_vec();
			d.extend(blob);
			f.chunks.push(riff::Chunk::new(b"LIST", d));
			Some(f.to_bytes())
		},
		"aiff_text" | "atxt" if k == Kind::Aiff => {
			let mut v = riff::gen_aiff(s).0.to_bytes();
			v.extend(blob);
			let n = (v.len() - 8) as u32;
			v[4..8].copy_from_slice(&n.to_be_bytes());
			Some(v)
		},
		_ => None,
	}
}

pub fn mp4_with_ilst(s: &mut Src, ilst_content: &[u8]) -> Vec<u8> {
	let ilst = if ilst_content.len() > 8 && &ilst_content[4..8] == b"ilst" { ilst_content[8..].to_vec() } else { ilst_content.to_vec() };
	mp4::gen_mp4(s, &mp4::Shape { raw_ilst: Some(ilst), ..Default::default() }).0
}

const FOURS: &[&[u8; 4]] = &[
	b"RIFF", b"FORM", b"WAVE", b"AIFC", b"fmt ", b"data", b"LIST", b"INFO", b"ID3 ", b"id3 ", b"COMM", b"SSND", b"COMT", b"NAME",
	b"ANNO", b"fLaC", b"OggS", b"wvpk", b"MAC ", b"MPCK", b"MP+\x07", b"moov", b"trak", b"mdia", b"minf", b"stbl", b"stsd", b"mp4a",
	b"alac", b"esds", b"udta", b"meta", b"ilst", b"data", b"----", b"free", b"mdat", b"moof", b"traf", b"tfhd", b"stco", b"co64",
	b"fLaC", b"dfLa", b"hdlr", b"mdhd", b"APIC", b"TIT2", b"CHAP", b"CTOC", b"SYLT", b"Xing", b"Info", b"VBRI", b"TAG\0", b"\xFF\xFB\x90\x44",
	b"3DI\x04", b"ID3\x03", b"ID3\x02", b"ID3\x04", b"covr", b"gnre", b"trkn",
];

const SMALL: &[u64] = &[0, 1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 15, 16, 20, 27, 31, 32, 33, 63, 64, 100, 127, 128, 255, 256, 1000, 0x7FFF, 0x8000, 0xFFFF, 0x10000];

fn int(s: &mut Src, bits: u32) -> u64 {
	let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
	let v = match s.below(4) {
		0 => *s.pick(SMALL),
		1 => *s.pick(&[m, m - 1, m >> 1, (m >> 1) + 1, m - 7, m - 8, m - 9]),
		2 => s.below(m),
		_ => s.below(2000),
	};
	v & m
}

fn put(d: &mut [u8], at: usize, v: &[u8]) {
	for (i, b) in v.iter().enumerate() {
		if at + i < d.len() {
			d[at + i] = *b;
		}
	}
}

/// positions right after something that looks like an identifier
fn after_id(s: &mut Src, d: &[u8]) -> Option<usize> {
	let from = s.usize(0, d.len().saturating_sub(5));
	let n = d.len().min(from + 3000);
	let isid = |w: &[u8]| w.iter().all(|c| c.is_ascii_alphanumeric() || *c == b' ' || *c == 0xA9);
	(from..n.saturating_sub(4)).find(|&i| isid(&d[i..i + 4]))
}

pub fn position(s: &mut Src, d: &[u8]) -> usize {
	if d.is_empty() {
		return 0;
	}
	let n = d.len() - 1;
	match s.below(8) {
		0 | 1 => s.usize(0, n.min(64)),
		2 => s.usize(0, n.min(400)),
		3 => n - s.usize(0, n.min(200)),
		4 | 5 => match after_id(s, d) {
			Some(p) => {
				let k = s.usize(0, 3);
				match s.below(3) {
					0 => (p + 4 + k).min(n),
					1 => p.saturating_sub(4) + k,
					_ => (p + 8 + s.usize(0, 24)).min(n),
				}
			},
			None => s.usize(0, n),
		},
		_ => s.usize(0, n),
	}
}

pub fn mutate(s: &mut Src, d: &mut Vec<u8>, max: u64) {
	for _ in 0..s.below(max + 1) {
		if d.is_empty() {
			return;
		}
		let p = position(s, d);
		match s.weighted(&[4, 4, 3, 4, 2, 2, 2, 2, 1, 2, 2]) {
			0 => d[p] ^= 1 << s.below(8),
			1 => d[p] = *s.pick(&[0u8, 1, 2, 0x7F, 0x80, 0xFF, 0x40, 0x20, 0x10, 0x08, 0x04, 0xFE]),
			2 => {
				let v = int(s, 16) as u16;
				let v = if s.bool() { v.to_be_bytes() } else { v.to_le_bytes() };
				put(d, p, &v);
			},
			3 => {
				let v = int(s, 32) as u32;
				let v = if s.bool() { v.to_be_bytes() } else { v.to_le_bytes() };
				put(d, p, &v);
			},
			4 => {
				let v = int(s, 64);
				let v = if s.bool() { v.to_be_bytes() } else { v.to_le_bytes() };
				put(d, p, &v);
			},
			5 => {
				// a 28 bit size
				let v = int(s, 28) as u32;
				put(d, p, &tags::ss(v));
			},
			6 => {
				let q = if s.bool() { p } else { d.len() - s.usize(0, d.len().min(40)) };
				d.truncate(q);
			},
			7 => {
				let n = s.size(200, &[1, 2, 4, 8]).min(d.len() - p);
				d.drain(p..p + n);
			},
			8 => {
				let n = s.size(600, &[1, 2, 4, 8]).min(d.len() - p);
				let x = d[p..p + n].to_vec();
				let q = position(s, d);
				d.splice(q..q, x);
			},
			9 => {
				let n = s.size(40, &[1, 2, 4, 8]);
				let x = s.blob(n);
				if s.bool() {
					d.splice(p..p, x);
				} else {
					put(d, p, &x);
				}
			},
			_ => {
				let f = *s.pick(FOURS);
				put(d, p, f);
			},
		}
	}
	d.truncate(1 << 20);
}

/// recompute Ogg page checksums so that damage inside pages is reached
pub fn fix_ogg(d: &mut [u8]) {
	let mut i = 0;
	while i + 27 <= d.len() {
		if &d[i..i + 4] == b"OggS" {
			let n = d[i + 26] as usize;
			if i + 27 + n > d.len() {
				return;
			}
			let body: usize = d[i + 27..i + 27 + n].iter().map(|b| *b as usize).sum();
			let end = i + 27 + n + body;
			if end > d.len() {
				return;
			}
			d[i + 22..i + 26].fill(0);
			let c = crate::fmt::ogg::crc(&d[i..end]);
			d[i + 22..i + 26].copy_from_slice(&c.to_le_bytes());
			i = end;
		} else {
			i += 1;
		}
	}
}

pub struct Input {
	pub kind: Kind,
	pub data: Vec<u8>,
	pub what: String,
	/// unmodified well-formed input
	pub intact: bool,
}

/// Any input offered as `kind`.
pub fn any(s: &mut Src) -> Input {
	let k = *s.pick(&ALL_KINDS);
	any_of(s, k)
}

pub fn any_of(s: &mut Src, mut k: Kind) -> Input {
	let (mut d, what, base_ok) = match s.weighted(&[6, 4, 5, 2, 1]) {
		0 => (tagged(s, k), "generated".to_string(), true),
		1 => match with_tag_blob(s, k) {
			Some(d) => (d, "with tag blob".to_string(), false),
			None => (tagged(s, k), "generated".to_string(), true),
		},
		2 => {
			let a = s.pick(&assets().0);
			if let Some(ak) = a.kind {
				k = ak;
			}
			(a.data.clone(), format!("asset {}", a.name), false)
		},
		3 => (crate::fmt::id3::any_in(s, k), "with generated ID3v2".to_string(), false),
		_ => {
			let n = s.size(3000, &[]);
			let mut d: Vec<u8> = vec![];
			match k {
				Kind::Mp3 => d.extend([0xFF, 0xFB, 0x90, 0x44]),
				Kind::Aac => d.extend([0xFF, 0xF1, 0x50, 0x80]),
				Kind::Ape => d.extend(b"MAC \x96\x0F"),
				Kind::Mpc => d.extend(if s.bool() { b"MPCK" } else { b"MP+\x07" }),
				Kind::WavPack => d.extend(b"wvpk"),
				Kind::Wav => d.extend(b"RIFF\x00\x10\x00\x00WAVE"),
				Kind::Aiff => d.extend(b"FORM\x00\x00\x10\x00AIFF"),
				Kind::Mp4 => d.extend(b"\0\0\0\x18ftypM4A \0\0\0\0M4A mp42"),
				Kind::Flac => d.extend(b"fLaC\x80\0\0\x22"),
				_ => d.extend(b"OggS\0\x02"),
			}
			d.extend(s.blob(n));
			(d, "random".to_string(), false)
		},
	};
	let before = d.clone();
	if !base_ok || s.chance(7, 8) {
		mutate(s, &mut d, 6);
	}
	if k.is_ogg() && s.chance(3, 4) {
		fix_ogg(&mut d);
	}
	let intact = base_ok && d == before;
	Input { kind: k, data: d, what, intact }
}
