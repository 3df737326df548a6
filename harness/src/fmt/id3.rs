//! An ID3v2 model: abstract frames, encoders for 2.2, 2.3 and 2.4 in every layout the
//! specifications allow, and a strict decoder. Written from the specifications.

use super::*;
use super::{raw, tags};
use crate::engine::Src;
use crate::lg::{self, Cs};
use std::io::Write;

/// A frame, without text encoding and flags. Identifiers are those of ID3v2.4.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Af {
	Text { id: String, vals: Vec<String> },
	User { desc: String, vals: Vec<String> },
	Url { id: String, url: String },
	UserUrl { desc: String, url: String },
	/// COMM, USLT
	Lang { id: String, lang: [u8; 3], desc: String, text: String },
	Pic { mime: String, ty: u8, desc: String, data: Vec<u8> },
	Popm { email: String, rating: u8, counter: u64 },
	Priv { owner: String, data: Vec<u8> },
	Ufid { owner: String, data: Vec<u8> },
	/// TIPL, TMCL
	Pairs { id: String, pairs: Vec<(String, String)> },
	Time { id: String, ts: String },
	Owne { price: String, date: String, seller: String },
	Etco { fmt: u8, ev: Vec<(u8, u32)> },
	/// channels in order of their number
	Rva2 { ident: String, ch: Vec<(u8, i16, u8, Vec<u8>)> },
	Chap { id: String, at: [u32; 4], kids: Vec<Af> },
	Ctoc { id: String, flags: u8, entries: Vec<String>, kids: Vec<Af> },
	Bin { id: String, data: Vec<u8> },
}

impl Af {
	pub fn id(&self) -> &str {
		match self {
			Af::Text { id, .. } | Af::Url { id, .. } | Af::Lang { id, .. } | Af::Pairs { id, .. } | Af::Time { id, .. } | Af::Bin { id, .. } => id,
			Af::User { .. } => "TXXX",
			Af::UserUrl { .. } => "WXXX",
			Af::Pic { .. } => "APIC",
			Af::Popm { .. } => "POPM",
			Af::Priv { .. } => "PRIV",
			Af::Ufid { .. } => "UFID",
			Af::Owne { .. } => "OWNE",
			Af::Etco { .. } => "ETCO",
			Af::Rva2 { .. } => "RVA2",
			Af::Chap { .. } => "CHAP",
			Af::Ctoc { .. } => "CTOC",
		}
	}
	/// frames with equal keys may not both be in a tag
	pub fn key(&self) -> String {
		match self {
			Af::User { desc, .. } => format!("TXXX {desc}"),
			Af::UserUrl { desc, .. } => format!("WXXX {desc}"),
			Af::Lang { id, lang, desc, .. } => format!("{id} {lang:?} {desc}"),
			Af::Pic { ty: ty @ (1 | 2), .. } => format!("APIC {ty}"),
			Af::Pic { desc, data, ty, .. } => format!("APIC {ty} {desc} {}", crate::engine::fnv(data)),
			Af::Popm { email, .. } => format!("POPM {email}"),
			Af::Priv { owner, data } => format!("PRIV {owner} {}", crate::engine::fnv(data)),
			Af::Ufid { owner, .. } => format!("UFID {owner}"),
			Af::Rva2 { ident, .. } => format!("RVA2 {ident}"),
			Af::Chap { id, .. } => format!("CHAP {id}"),
			Af::Ctoc { id, .. } => format!("CTOC {id}"),
			// at most one of these is allowed in a tag
			Af::Bin { id, .. } if ["MCDI", "MLLT", "SYTC", "RVRB", "PCNT", "RBUF", "POSS", "SEEK", "ASPI"].contains(&&**id) => id.clone(),
			Af::Bin { id, data } => format!("{id} {}", crate::engine::fnv(data)),
			_ => self.id().to_string(),
		}
	}
	pub fn brief(&self) -> String {
		let s = format!("{self:?}");
		if s.chars().count() > 160 {
			let c: String = s.chars().take(160).collect();
			format!("{c}~[{}]", s.len())
		} else {
			s
		}
	}
}

pub fn brief(v: &[Af]) -> String {
	v.iter().map(Af::brief).collect::<Vec<_>>().join("; ")
}

// ------------------------------------------------------------ text

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Enc {
	/// 0..=3
	pub byte: u8,
	pub be: bool,
	/// each string of a frame has its own byte order mark
	pub bom_each: bool,
}

fn put_str(out: &mut Vec<u8>, s: &str, e: Enc, bom: bool, term: bool) {
	match e.byte {
		0 => {
			out.extend(s.chars().map(|c| {
				assert!((c as u32) < 256, "{c:?} is not Latin-1");
				c as u32 as u8
			}));
			if term {
				out.push(0);
			}
		},
		3 => {
			out.extend(s.as_bytes());
			if term {
				out.push(0);
			}
		},
		_ => {
			let be = e.byte == 2 || e.be;
			let mut w = |u: u16| out.extend(if be { u.to_be_bytes() } else { u.to_le_bytes() });
			if e.byte == 1 && bom {
				w(0xFEFF);
			}
			for u in s.encode_utf16() {
				w(u);
			}
			if term {
				w(0);
			}
		},
	}
}

fn latin(out: &mut Vec<u8>, s: &str, term: bool) {
	put_str(out, s, Enc { byte: 0, be: false, bom_each: true }, false, term);
}

/// Splits off one terminated string (or the rest). Returns the raw bytes.
fn cut<'a>(d: &mut &'a [u8], enc: u8) -> Result<&'a [u8], String> {
	let cur: &'a [u8] = d;
	if enc == 1 || enc == 2 {
		let mut i = 0;
		while i + 1 < cur.len() {
			if cur[i] == 0 && cur[i + 1] == 0 {
				*d = &cur[i + 2..];
				return Ok(&cur[..i]);
			}
			i += 2;
		}
		Err("UTF-16 string not terminated".into())
	} else {
		let i = cur.iter().position(|b| *b == 0).ok_or("string not terminated")?;
		*d = &cur[i + 1..];
		Ok(&cur[..i])
	}
}

fn dec(b: &[u8], enc: u8, bom: &mut Option<bool>) -> Result<String, String> {
	Ok(match enc {
		0 => b.iter().map(|c| *c as char).collect(),
		3 => String::from_utf8(b.to_vec()).map_err(|_| "not UTF-8")?,
		_ => {
			if b.len() % 2 != 0 {
				return Err("odd UTF-16 length".into());
			}
			let mut b = b;
			let be = if enc == 2 {
				true
			} else if b.starts_with(&[0xFF, 0xFE]) {
				b = &b[2..];
				*bom = Some(false);
				false
			} else if b.starts_with(&[0xFE, 0xFF]) {
				b = &b[2..];
				*bom = Some(true);
				true
			} else if b.is_empty() {
				return Ok(String::new());
			} else {
				bom.ok_or("UTF-16 without byte order mark")?
			};
			let u: Vec<u16> = b
				.chunks(2)
				.map(|c| if be { u16::from_be_bytes([c[0], c[1]]) } else { u16::from_le_bytes([c[0], c[1]]) })
				.collect();
			String::from_utf16(&u).map_err(|_| "bad UTF-16")?
		},
	})
}

/// All remaining text, split at terminators; a final empty value is dropped.
fn rest(d: &[u8], enc: u8, bom: &mut Option<bool>) -> Result<Vec<String>, String> {
	let mut d = d;
	let mut v = vec![];
	loop {
		match cut(&mut d, enc) {
			Ok(b) => v.push(dec(b, enc, bom)?),
			Err(_) => {
				v.push(dec(d, enc, bom)?);
				break;
			},
		}
	}
	while v.len() > 1 && v.last().is_some_and(String::is_empty) {
		v.pop();
	}
	Ok(v)
}

// ------------------------------------------------------------ frame encoding

/// the names of frames in 2.2
const V22: &[(&str, &str)] = &[
	("TT2", "TIT2"),
	("TP1", "TPE1"),
	("TP2", "TPE2"),
	("TP3", "TPE3"),
	("TP4", "TPE4"),
	("TAL", "TALB"),
	("TCM", "TCOM"),
	("TCO", "TCON"),
	("TT1", "TIT1"),
	("TT3", "TIT3"),
	("TPB", "TPUB"),
	("TCR", "TCOP"),
	("TRK", "TRCK"),
	("TPA", "TPOS"),
	("TBP", "TBPM"),
	("TKE", "TKEY"),
	("TLA", "TLAN"),
	("TLE", "TLEN"),
	("TMT", "TMED"),
	("TEN", "TENC"),
	("TXT", "TEXT"),
	("TOT", "TOAL"),
	("TOA", "TOPE"),
	("TOL", "TOLY"),
	("TOF", "TOFN"),
	("TRC", "TSRC"),
	("TSS", "TSSE"),
	("TFT", "TFLT"),
	("TDY", "TDLY"),
	("TXX", "TXXX"),
	("WXX", "WXXX"),
	("WAF", "WOAF"),
	("WAR", "WOAR"),
	("WAS", "WOAS"),
	("WCM", "WCOM"),
	("WCP", "WCOP"),
	("WPB", "WPUB"),
	("COM", "COMM"),
	("ULT", "USLT"),
	("UFI", "UFID"),
	("PIC", "APIC"),
	("POP", "POPM"),
	("IPL", "TIPL"),
	("ETC", "ETCO"),
	("MCI", "MCDI"),
	("CNT", "PCNT"),
	("GEO", "GEOB"),
	("TYE", "TDRC"),
	("TOR", "TDOR"),
	("BUF", "RBUF"),
	("CRA", "AENC"),
	("MLL", "MLLT"),
	("REV", "RVRB"),
	("SLT", "SYLT"),
	("STC", "SYTC"),
	("TCP", "TCMP"),
	("TS2", "TSO2"),
	("TSA", "TSOA"),
	("TSC", "TSOC"),
	("TSP", "TSOP"),
	("TST", "TSOT"),
	("PCS", "PCST"),
	("TCT", "TCAT"),
	("TDS", "TDES"),
	("TID", "TGID"),
	("WFD", "WFED"),
	("MVI", "MVIN"),
	("MVN", "MVNM"),
	("GP1", "GRP1"),
	("TDR", "TDRL"),
];

fn v22_id(id: &str) -> Option<&'static str> {
	V22.iter().find(|(_, new)| *new == id).map(|(old, _)| *old)
}

/// (2.2, since) of every frame that has a name of 2.2
pub fn v22_ids() -> Vec<(&'static str, &'static str)> {
	let mut v = V22.to_vec();
	v.push(("TRD", "TDRC"));
	v
}

/// The payloads of a frame for a tag version: usually one, more where older versions split it.
/// `None` if the version cannot express the frame.
pub fn encode(f: &Af, ver: u8, e: Enc) -> Option<Vec<(String, Vec<u8>)>> {
	if ver < 4 && e.byte > 1 {
		return None;
	}
	let mut o = vec![];
	let mut id = f.id().to_string();
	match f {
		Af::Text { vals, .. } => {
			if ver < 4 && vals.len() > 1 {
				return None;
			}
			o.push(e.byte);
			for (i, v) in vals.iter().enumerate() {
				put_str(&mut o, v, e, i == 0 || e.bom_each, i + 1 < vals.len());
			}
		},
		Af::User { desc, vals } => {
			if ver < 4 && vals.len() > 1 {
				return None;
			}
			o.push(e.byte);
			put_str(&mut o, desc, e, true, true);
			for (i, v) in vals.iter().enumerate() {
				put_str(&mut o, v, e, e.bom_each, i + 1 < vals.len());
			}
		},
		Af::Url { url, .. } => latin(&mut o, url, false),
		Af::UserUrl { desc, url } => {
			o.push(e.byte);
			put_str(&mut o, desc, e, true, true);
			latin(&mut o, url, false);
		},
		Af::Lang { lang, desc, text, .. } => {
			o.push(e.byte);
			o.extend(lang);
			put_str(&mut o, desc, e, true, true);
			put_str(&mut o, text, e, e.bom_each, false);
		},
		Af::Pic { mime, ty, desc, data } => {
			o.push(e.byte);
			if ver == 2 {
				o.extend(match &**mime {
					"image/png" => b"PNG",
					"image/jpeg" => b"JPG",
					_ => return None,
				});
			} else {
				latin(&mut o, mime, true);
			}
			o.push(*ty);
			put_str(&mut o, desc, e, true, true);
			o.extend(data);
		},
		Af::Popm { email, rating, counter } => {
			latin(&mut o, email, true);
			o.push(*rating);
			if *counter > u64::from(u32::MAX) {
				let b = counter.to_be_bytes();
				let z = b.iter().position(|x| *x != 0).unwrap();
				o.extend(&b[z..]);
			} else {
				o.extend(be32(*counter as u32));
			}
		},
		Af::Priv { owner, data } | Af::Ufid { owner, data } => {
			if ver == 2 && id == "PRIV" {
				return None;
			}
			latin(&mut o, owner, true);
			o.extend(data);
		},
		Af::Pairs { id: pid, pairs } => {
			if ver < 4 {
				if pid != "TIPL" {
					return None;
				}
				if ver == 3 {
					id = "IPLS".into();
				}
			}
			o.push(e.byte);
			for (i, (k, v)) in pairs.iter().enumerate() {
				put_str(&mut o, k, e, i == 0 || e.bom_each, true);
				put_str(&mut o, v, e, e.bom_each, true);
			}
		},
		Af::Time { id: tid, ts } => {
			let text = |t: &str| {
				let mut o = vec![e.byte];
				put_str(&mut o, t, e, true, false);
				o
			};
			if ver == 4 {
				return Some(vec![(id, text(ts))]);
			}
			if tid == "TDOR" && ts.len() == 4 {
				return Some(vec![(if ver == 2 { "TOR" } else { "TORY" }.into(), text(ts))]);
			}
			if tid != "TDRC" || ![4, 10, 16].contains(&ts.len()) || (ver == 2 && ts.len() != 4) {
				return None;
			}
			let mut v = vec![(if ver == 2 { "TYE" } else { "TYER" }.to_string(), text(&ts[..4]))];
			if ts.len() >= 10 {
				v.push(("TDAT".into(), text(&format!("{}{}", &ts[8..10], &ts[5..7]))));
			}
			if ts.len() >= 16 {
				v.push(("TIME".into(), text(&format!("{}{}", &ts[11..13], &ts[14..16]))));
			}
			return Some(v);
		},
		Af::Owne { price, date, seller } => {
			if ver == 2 {
				return None;
			}
			o.push(e.byte);
			latin(&mut o, price, true);
			o.extend(date.as_bytes());
			put_str(&mut o, seller, e, true, false);
		},
		Af::Etco { fmt, ev } => {
			o.push(*fmt);
			for (t, at) in ev {
				o.push(*t);
				o.extend(be32(*at));
			}
		},
		Af::Rva2 { ident, ch } => {
			if ver < 4 {
				return None;
			}
			latin(&mut o, ident, true);
			for (ty, vol, bits, peak) in ch {
				o.push(*ty);
				o.extend(vol.to_be_bytes());
				o.push(*bits);
				o.extend(peak);
			}
		},
		Af::Chap { id: cid, at, kids } => {
			if ver == 2 {
				return None;
			}
			latin(&mut o, cid, true);
			for a in at {
				o.extend(be32(*a));
			}
			o.extend(encode_kids(kids, ver, e)?);
		},
		Af::Ctoc { id: cid, flags, entries, kids } => {
			if ver == 2 {
				return None;
			}
			latin(&mut o, cid, true);
			o.push(*flags);
			o.push(entries.len() as u8);
			for x in entries {
				latin(&mut o, x, true);
			}
			o.extend(encode_kids(kids, ver, e)?);
		},
		Af::Bin { data, .. } => o.extend(data),
	}
	if ver == 2 {
		id = v22_id(&id)?.to_string();
	}
	Some(vec![(id, o)])
}

fn encode_kids(kids: &[Af], ver: u8, e: Enc) -> Option<Vec<u8>> {
	let mut o = vec![];
	for k in kids {
		// only at the top level are the parts of an older date put together
		if matches!(k, Af::Time { ts, .. } if ver < 4 && ts.len() > 4) {
			return None;
		}
		for (id, d) in encode(k, ver, e)? {
			o.extend(id.as_bytes());
			o.extend(if ver == 4 { tags::ss(d.len() as u32) } else { be32(d.len() as u32) });
			o.extend([0, 0]);
			o.extend(d);
		}
	}
	Some(o)
}

// ------------------------------------------------------------ frame decoding

/// Strict decoding of a payload of a 2.3 or 2.4 tag.
pub fn decode(id: &str, ver: u8, data: &[u8]) -> Result<Af, String> {
	let mut d = data;
	let sid = id.to_string();
	let byte = |d: &mut &[u8]| -> Result<u8, String> {
		let (b, r) = d.split_first().ok_or("frame too short")?;
		*d = r;
		Ok(*b)
	};
	let enc = |b: u8| -> Result<u8, String> {
		if b > 3 || (ver == 3 && b > 1) { Err(format!("text encoding {b} in version 2.{ver}")) } else { Ok(b) }
	};
	let lat = |d: &mut &[u8]| -> Result<String, String> { dec(cut(d, 0)?, 0, &mut None) };
	let mut bom = None;
	Ok(match id {
		"TXXX" => {
			let e = enc(byte(&mut d)?)?;
			let desc = dec(cut(&mut d, e)?, e, &mut bom)?;
			Af::User { desc, vals: rest(d, e, &mut bom)? }
		},
		"WXXX" => {
			let e = enc(byte(&mut d)?)?;
			let desc = dec(cut(&mut d, e)?, e, &mut bom)?;
			Af::UserUrl { desc, url: dec(d, 0, &mut None)? }
		},
		"COMM" | "USLT" => {
			let e = enc(byte(&mut d)?)?;
			if d.len() < 3 {
				return Err("no language".into());
			}
			let lang = [d[0], d[1], d[2]];
			d = &d[3..];
			let desc = dec(cut(&mut d, e)?, e, &mut bom)?;
			Af::Lang { id: sid, lang, desc, text: rest(d, e, &mut bom)?.join("\0") }
		},
		"APIC" => {
			let e = enc(byte(&mut d)?)?;
			let mime = lat(&mut d)?;
			let ty = byte(&mut d)?;
			let desc = dec(cut(&mut d, e)?, e, &mut bom)?;
			Af::Pic { mime, ty, desc, data: d.to_vec() }
		},
		"POPM" => {
			let email = lat(&mut d)?;
			let rating = byte(&mut d)?;
			if d.len() < 4 || d.len() > 8 {
				return Err(format!("play counter of {} bytes", d.len()));
			}
			let counter = d.iter().fold(0, |a, b| (a << 8) | u64::from(*b));
			Af::Popm { email, rating, counter }
		},
		"PRIV" => Af::Priv { owner: lat(&mut d)?, data: d.to_vec() },
		"UFID" => Af::Ufid { owner: lat(&mut d)?, data: d.to_vec() },
		"TIPL" | "TMCL" | "IPLS" => {
			let e = enc(byte(&mut d)?)?;
			let mut all = vec![];
			while !d.is_empty() {
				let b = match cut(&mut d, e) {
					Ok(b) => b,
					// the last terminator may be missing
					Err(_) => std::mem::take(&mut d),
				};
				all.push(dec(b, e, &mut bom)?);
			}
			if all.len() % 2 != 0 {
				return Err("odd number of strings in a pair list".into());
			}
			let id = if id == "IPLS" { "TIPL".to_string() } else { sid };
			Af::Pairs { id, pairs: all.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect() }
		},
		"TDEN" | "TDOR" | "TDRC" | "TDRL" | "TDTG" => {
			let e = enc(byte(&mut d)?)?;
			Af::Time { id: sid, ts: rest(d, e, &mut bom)?.join("\0") }
		},
		"OWNE" => {
			let e = enc(byte(&mut d)?)?;
			let price = lat(&mut d)?;
			if d.len() < 8 {
				return Err("no date".into());
			}
			let date = dec(&d[..8], 0, &mut None)?;
			d = &d[8..];
			Af::Owne { price, date, seller: rest(d, e, &mut bom)?.join("\0") }
		},
		"ETCO" => {
			let fmt = byte(&mut d)?;
			if d.len() % 5 != 0 {
				return Err("event list of odd size".into());
			}
			Af::Etco { fmt, ev: d.chunks(5).map(|c| (c[0], rd_be32(&c[1..]))).collect() }
		},
		"RVA2" => {
			let ident = lat(&mut d)?;
			let mut ch = vec![];
			while !d.is_empty() {
				if d.len() < 4 {
					return Err("channel cut".into());
				}
				let n = (d[3] as usize).div_ceil(8);
				if d.len() < 4 + n {
					return Err("peak cut".into());
				}
				ch.push((d[0], i16::from_be_bytes([d[1], d[2]]), d[3], d[4..4 + n].to_vec()));
				d = &d[4 + n..];
			}
			ch.sort();
			Af::Rva2 { ident, ch }
		},
		"CHAP" => {
			let id = lat(&mut d)?;
			if d.len() < 16 {
				return Err("chapter cut".into());
			}
			let at = [rd_be32(d), rd_be32(&d[4..]), rd_be32(&d[8..]), rd_be32(&d[12..])];
			Af::Chap { id, at, kids: decode_kids(&d[16..], ver)? }
		},
		"CTOC" => {
			let id = lat(&mut d)?;
			let flags = byte(&mut d)?;
			let n = byte(&mut d)?;
			let mut entries = vec![];
			for _ in 0..n {
				entries.push(lat(&mut d)?);
			}
			Af::Ctoc { id, flags, entries, kids: decode_kids(d, ver)? }
		},
		"GRP1" | "MVNM" | "MVIN" => {
			let e = enc(byte(&mut d)?)?;
			Af::Text { id: sid, vals: rest(d, e, &mut bom)? }
		},
		i if i.starts_with('T') => {
			let e = enc(byte(&mut d)?)?;
			Af::Text { id: sid, vals: rest(d, e, &mut bom)? }
		},
		i if i.starts_with('W') => Af::Url { id: sid, url: dec(d, 0, &mut None)? },
		_ => Af::Bin { id: sid, data: data.to_vec() },
	})
}

fn decode_kids(d: &[u8], ver: u8) -> Result<Vec<Af>, String> {
	let mut v = b"ID3".to_vec();
	v.extend([ver, 0, 0]);
	v.extend(tags::ss(d.len() as u32));
	v.extend(d);
	let (_, fr, pad) = tags::id3v2_decode(&v)?;
	if pad != 0 {
		return Err("padding inside a frame".into());
	}
	fr.iter().map(|f| decode(&f.id.escape_ascii().to_string(), ver, &f.data)).collect()
}

/// Strips what frame flags announce. Returns (payload, group, encryption method).
pub fn unflag(f: &tags::Fr, ver: u8) -> Result<(Vec<u8>, Option<u8>, Option<u8>), String> {
	let mut d = &f.data[..];
	let (group, comp, encr, unsync, dli) = if ver == 4 {
		(f.flags & 0x40 != 0, f.flags & 8 != 0, f.flags & 4 != 0, f.flags & 2 != 0, f.flags & 1 != 0)
	} else {
		(f.flags & 0x20 != 0, f.flags & 0x80 != 0, f.flags & 0x40 != 0, false, false)
	};
	let mut take = |n: usize| -> Result<&[u8], String> {
		if d.len() < n {
			return Err("no room for what the frame flags announce".into());
		}
		let (a, b) = d.split_at(n);
		d = b;
		Ok(a)
	};
	let mut g = None;
	let mut m = None;
	let mut real = None;
	if ver == 4 {
		if group {
			g = Some(take(1)?[0]);
		}
		if encr {
			m = Some(take(1)?[0]);
		}
		if dli {
			real = Some(raw::synchsafe(take(4)?) as usize);
		}
	} else {
		if comp {
			real = Some(rd_be32(take(4)?) as usize);
		}
		if encr {
			m = Some(take(1)?[0]);
		}
		if group {
			g = Some(take(1)?[0]);
		}
	}
	let mut v = d.to_vec();
	if unsync {
		v = undo_unsync(&v)?;
	}
	if comp && !encr {
		use std::io::Read;
		let mut o = vec![];
		flate2::read::ZlibDecoder::new(&v[..]).read_to_end(&mut o).map_err(|e| format!("compressed frame: {e}"))?;
		v = o;
	}
	if !encr && real.is_some_and(|n| n != v.len()) {
		return Err(format!("data length indicator says {real:?}, frame has {}", v.len()));
	}
	Ok((v, g, m))
}

pub fn undo_unsync(d: &[u8]) -> Result<Vec<u8>, String> {
	let mut o = vec![];
	let mut i = 0;
	while i < d.len() {
		o.push(d[i]);
		if d[i] == 0xFF {
			match d.get(i + 1) {
				Some(0) => i += 1,
				Some(b) if *b >= 0xE0 => return Err("false sync in unsynchronised data".into()),
				_ => {},
			}
		}
		i += 1;
	}
	Ok(o)
}

pub fn unsync(d: &[u8]) -> Vec<u8> {
	let mut o = vec![];
	for (i, b) in d.iter().enumerate() {
		o.push(*b);
		if *b == 0xFF && d.get(i + 1).is_none_or(|n| *n == 0 || *n >= 0xE0) {
			o.push(0);
		}
	}
	o
}

// ------------------------------------------------------------ tags

#[derive(Clone, Debug, Default)]
pub struct Layout {
	pub ver: u8,
	pub unsync: bool,
	pub ext: bool,
	pub ext_crc: bool,
	pub ext_restrict: Option<u8>,
	pub ext_update: bool,
	pub footer: bool,
	pub experimental: bool,
	pub padding: usize,
}

pub fn gen_layout(s: &mut Src) -> Layout {
	let ver = *s.pick(&[4u8, 4, 3, 3, 2]);
	let mut l = Layout { ver, ..Default::default() };
	l.unsync = s.chance(1, 3);
	if ver >= 3 {
		l.ext = s.chance(1, 3);
		l.ext_crc = s.bool();
		l.experimental = s.chance(1, 8);
	}
	if ver == 4 {
		l.ext_update = s.bool();
		l.ext_restrict = if s.bool() { Some(s.u8()) } else { None };
		l.footer = s.chance(1, 4);
	}
	l.padding = if l.footer || s.bool() { 0 } else { s.size(3000, &[1, 9, 10, 11]) };
	l
}

/// Frame flags chosen per frame
#[derive(Clone, Copy, Debug, Default)]
pub struct FFlags {
	pub group: Option<u8>,
	pub dli: bool,
	pub comp: bool,
	pub encr: Option<u8>,
	pub unsync: bool,
	pub keep: u8,
}

pub fn gen_fflags(s: &mut Src, ver: u8) -> FFlags {
	let mut f = FFlags::default();
	if ver < 3 || s.chance(1, 2) {
		return f;
	}
	if s.chance(1, 4) {
		f.group = Some(s.range(0x80, 0xF0) as u8);
	}
	f.comp = s.chance(1, 4);
	if ver == 4 {
		f.unsync = s.chance(1, 3);
		f.dli = f.comp || f.unsync || s.chance(1, 3);
	}
	f.keep = s.below(8) as u8;
	f
}

fn zlib(d: &[u8]) -> Vec<u8> {
	let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::default());
	e.write_all(d).unwrap();
	e.finish().unwrap()
}

pub fn put_frame(out: &mut Vec<u8>, ver: u8, id: &str, payload: &[u8], f: FFlags) {
	let mut d = payload.to_vec();
	let real = d.len() as u32;
	let mut x = vec![];
	let mut flags = 0u16;
	if f.comp {
		d = zlib(&d);
	}
	if ver == 4 {
		flags |= u16::from(f.keep) << 12;
		if let Some(g) = f.group {
			flags |= 0x40;
			x.push(g);
		}
		if f.comp {
			flags |= 8;
		}
		if let Some(m) = f.encr {
			flags |= 4;
			x.push(m);
		}
		if f.unsync {
			flags |= 2;
			d = unsync(&d);
		}
		if f.dli {
			flags |= 1;
			x.extend(tags::ss(real));
		}
	} else if ver == 3 {
		flags |= u16::from(f.keep) << 13;
		if f.comp {
			flags |= 0x80;
			x.extend(be32(real));
		}
		if let Some(m) = f.encr {
			flags |= 0x40;
			x.push(m);
		}
		if let Some(g) = f.group {
			flags |= 0x20;
			x.push(g);
		}
	}
	x.extend(d);
	out.extend(id.as_bytes());
	match ver {
		4 => out.extend(tags::ss(x.len() as u32)),
		3 => out.extend(be32(x.len() as u32)),
		_ => out.extend(&be32(x.len() as u32)[1..]),
	}
	if ver > 2 {
		out.extend(flags.to_be_bytes());
	}
	out.extend(x);
}

/// Wraps encoded frames into a tag. In 2.4 the caller has applied unsynchronisation per frame.
pub fn wrap(l: &Layout, frames: &[u8]) -> Vec<u8> {
	let mut flags = 0u8;
	let mut body = vec![];
	// a tag has at least one frame
	if l.ext && !frames.is_empty() {
		flags |= 0x40;
		if l.ver == 3 {
			body.extend(be32(if l.ext_crc { 10 } else { 6 }));
			body.extend(if l.ext_crc { [0x80, 0] } else { [0, 0] });
			body.extend(be32(l.padding as u32));
			if l.ext_crc {
				body.extend(be32(crc32(frames)));
			}
		} else {
			let mut x = vec![1u8, 0];
			if l.ext_update {
				x[1] |= 0x40;
				x.push(0);
			}
			if l.ext_crc {
				x[1] |= 0x20;
				x.push(5);
				let c = crc32(frames);
				x.push((c >> 28) as u8);
				x.extend(tags::ss(c & 0x0FFF_FFFF));
			}
			if let Some(r) = l.ext_restrict {
				x[1] |= 0x10;
				x.extend([1, r]);
			}
			body.extend(tags::ss(x.len() as u32 + 4));
			body.extend(x);
		}
	}
	body.extend(frames);
	if l.unsync {
		flags |= 0x80;
		if l.ver < 4 {
			body = unsync(&body);
		}
	}
	body.extend(std::iter::repeat_n(0, l.padding));
	if l.experimental {
		flags |= 0x20;
	}
	if l.footer {
		flags |= 0x10;
	}
	let mut tail = vec![l.ver, 0, flags];
	tail.extend(tags::ss(body.len() as u32));
	let mut v = b"ID3".to_vec();
	v.extend(&tail);
	v.extend(body);
	if l.footer {
		v.extend(b"3DI");
		v.extend(tail);
	}
	v
}

fn crc32(d: &[u8]) -> u32 {
	let mut c = flate2::Crc::new();
	c.update(d);
	c.sum()
}

// ------------------------------------------------------------ generation

pub fn gen_enc(s: &mut Src, ver: u8) -> Enc {
	let byte = if ver == 4 { s.below(4) as u8 } else { s.below(2) as u8 };
	Enc { byte, be: s.bool(), bom_each: s.chance(3, 4) }
}

pub fn cs_of(e: Enc) -> Cs {
	if e.byte == 0 { Cs::Latin1 } else { Cs::Any }
}

/// data with many bytes that unsynchronisation cares about
pub fn sync_blob(s: &mut Src, n: usize) -> Vec<u8> {
	let mut v = s.blob(n);
	if s.bool() {
		let k = s.below(50);
		for (i, b) in v.iter_mut().enumerate() {
			match (i as u64 + k) % 5 {
				0 | 1 => *b = 0xFF,
				2 => *b = [0, 0xE0, 0xFF, 0xFB, 1][(i / 5) % 5],
				_ => {},
			}
		}
	}
	v
}

fn ts(s: &mut Src) -> String {
	let full = format!(
		"{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",
		s.range(1, 9999),
		s.range(1, 12),
		s.range(1, 31),
		s.below(24),
		s.below(60),
		s.below(60)
	);
	full[..*s.pick(&[4usize, 4, 7, 10, 10, 13, 16, 16, 19])].to_string()
}

/// one of the defined events
fn event_code(s: &mut Src) -> u8 {
	match s.below(5) {
		0 | 1 => s.below(0x17) as u8,
		2 | 3 => 0xE0 + s.below(16) as u8,
		_ => 0xFD + s.below(2) as u8,
	}
}

pub fn gen_af(s: &mut Src, cs: Cs, depth: u32) -> Af {
	const TEXTS: &[&str] = &[
		"TIT2", "TPE1", "TALB", "TCOM", "TIT1", "TIT3", "TPUB", "TCOP", "TRCK", "TPOS", "TBPM", "TKEY", "TLAN", "TLEN", "TMED", "TENC",
		"TEXT", "TOAL", "TOPE", "TOLY", "TOFN", "TSRC", "TSSE", "TFLT", "TDLY", "TPE2", "TPE3", "TPE4", "TOWN", "TRSN", "TSOA", "TMOO",
		"TCON", "TSST", "TPRO", "GRP1", "MVNM", "TZZZ",
	];
	let t = |s: &mut Src| lg::text(s, cs, false);
	match s.weighted(&[6, 3, 2, 2, 3, 3, 2, 2, 1, 2, 3, 1, 1, 2, if depth > 0 { 2 } else { 0 }, if depth > 0 { 1 } else { 0 }, 3]) {
		0 => {
			let id = (*s.pick(TEXTS)).to_string();
			let n = if s.chance(1, 4) { s.usize(2, 4) } else { 1 };
			Af::Text { id, vals: (0..n).map(|_| t(s)).collect() }
		},
		1 => {
			let desc = if s.chance(1, 6) { String::new() } else { t(s) };
			let n = if s.chance(1, 5) { 2 } else { 1 };
			Af::User { desc, vals: (0..n).map(|_| t(s)).collect() }
		},
		2 => Af::Url { id: (*s.pick(&["WOAF", "WOAR", "WOAS", "WCOM", "WCOP", "WPUB", "WORS", "WPAY", "WFED"])).into(), url: lg::text(s, Cs::Latin1, false) },
		3 => Af::UserUrl { desc: if s.chance(1, 6) { String::new() } else { t(s) }, url: lg::text(s, Cs::Latin1, false) },
		4 => Af::Lang {
			id: if s.bool() { "COMM" } else { "USLT" }.into(),
			lang: *s.pick(&[*b"eng", *b"XXX", *b"deu"]),
			desc: if s.chance(1, 3) { String::new() } else { t(s) },
			text: t(s),
		},
		5 => {
			let mime = (*s.pick(&["image/png", "image/jpeg", "image/png", "image/jpeg", "image/gif", "image/webp", ""])).to_string();
			let n = s.size(6000, &[1, 2, 8191, 8192]);
			Af::Pic { mime, ty: s.below(21) as u8, desc: if s.bool() { String::new() } else { t(s) }, data: sync_blob(s, n) }
		},
		6 => Af::Popm { email: if s.chance(1, 5) { String::new() } else { lg::text(s, Cs::Latin1, false) }, rating: s.u8(), counter: *s.pick(&[0u64, 1, 255, 65536, 0xFFFF_FFFF, 0x1_0000_0000, u64::MAX]) },
		7 => {
			let n = s.size(3000, &[0, 1, 2]);
			Af::Priv { owner: lg::text(s, Cs::Latin1, false), data: sync_blob(s, n) }
		},
		8 => {
			let n = s.size(64, &[0, 1]);
			Af::Ufid { owner: lg::text(s, Cs::Latin1, false), data: sync_blob(s, n) }
		},
		9 => {
			let n = s.usize(1, 4);
			Af::Pairs { id: if s.bool() { "TIPL" } else { "TMCL" }.into(), pairs: (0..n).map(|_| (t(s), t(s))).collect() }
		},
		10 => {
			let id = *s.pick(&["TDRC", "TDRC", "TDOR", "TDEN", "TDRL", "TDTG"]);
			Af::Time { id: id.into(), ts: ts(s) }
		},
		11 => Af::Owne { price: format!("USD{}", s.below(10000)), date: format!("{:08}", s.below(100_000_000)), seller: t(s) },
		12 => {
			let n = s.usize(0, 6);
			let mut ev: Vec<(u8, u32)> = (0..n).map(|_| (event_code(s), s.below(1 << 20) as u32)).collect();
			ev.sort_by_key(|e| e.1);
			Af::Etco { fmt: s.range(1, 2) as u8, ev }
		},
		13 => {
			let mut ch: Vec<(u8, i16, u8, Vec<u8>)> = vec![];
			for c in 0..9u8 {
				if s.chance(1, 4) {
					let bits = *s.pick(&[0u8, 1, 7, 8, 9, 16, 24, 32, 64, 255]);
					ch.push((c, s.u32() as i16, bits, s.blob((bits as usize).div_ceil(8))));
				}
			}
			Af::Rva2 { ident: if s.chance(1, 5) { String::new() } else { lg::text(s, Cs::Latin1, false) }, ch }
		},
		14 => {
			let kids = if s.chance(1, 4) { vec![] } else { gen_afs(s, cs, depth - 1, 3) };
			Af::Chap { id: lg::text(s, Cs::Latin1, false), at: [s.u32(), s.u32(), s.u32(), s.u32()], kids }
		},
		15 => {
			let n = s.usize(0, 5);
			let entries = (0..n).map(|_| lg::text(s, Cs::Latin1, false)).collect();
			let kids = if s.chance(1, 4) { vec![] } else { gen_afs(s, cs, depth - 1, 3) };
			Af::Ctoc { id: lg::text(s, Cs::Latin1, false), flags: s.below(4) as u8, entries, kids }
		},
		_ => {
			let id = *s.pick(&["GEOB", "SYLT", "MCDI", "PCNT", "SYTC", "ZZZZ", "XRVA", "AENC", "COMR", "LINK", "POSS", "MLLT"]);
			let n = s.size(3000, &[1, 2]).max(1);
			Af::Bin { id: id.into(), data: sync_blob(s, n) }
		},
	}
}

/// Frames that may appear in one tag together.
pub fn gen_afs(s: &mut Src, cs: Cs, depth: u32, max: usize) -> Vec<Af> {
	let n = s.usize(1, max);
	let mut v: Vec<Af> = vec![];
	let mut root = false;
	for _ in 0..n {
		let f = gen_af(s, cs, depth);
		if let Af::Ctoc { flags, .. } = &f {
			if flags & 2 != 0 && root {
				continue;
			}
			root |= flags & 2 != 0;
		}
		if v.iter().all(|o| o.key() != f.key()) {
			v.push(f);
		}
	}
	v
}

/// A tag in some layout: (bytes, layout, what it must decode to).
pub fn gen_tag(s: &mut Src, max: usize) -> (Vec<u8>, Layout, Vec<Af>) {
	gen_tag_with(s, max, false)
}

/// `empty`: frames without content among the others.
pub fn gen_tag_with(s: &mut Src, max: usize, empty: bool) -> (Vec<u8>, Layout, Vec<Af>) {
	let l = gen_layout(s);
	let mut out = vec![];
	let mut exp: Vec<Af> = vec![];
	let n = s.usize(1, max);
	let mut root = false;
	for _ in 0..n {
		if empty && s.chance(1, 3) {
			let id = if l.ver == 2 { *s.pick(&["TT2", "COM", "ULT", "XYZ"]) } else { *s.pick(&["TIT2", "COMM", "USLT", "XYZW"]) };
			let ff = FFlags { unsync: l.ver == 4 && l.unsync, ..FFlags::default() };
			put_frame(&mut out, l.ver, id, &[], ff);
		}
		let e = gen_enc(s, l.ver);
		let f = gen_af(s, cs_of(e), 1);
		if exp.iter().any(|o| o.key() == f.key()) {
			continue;
		}
		if let Af::Ctoc { flags, .. } = &f {
			if flags & 2 != 0 && root {
				continue;
			}
			root |= flags & 2 != 0;
		}
		let Some(parts) = encode(&f, l.ver, e) else { continue };
		for (id, d) in &parts {
			let mut ff = gen_fflags(s, l.ver);
			if l.ver == 4 && l.unsync {
				ff.unsync = true;
			}
			if d.is_empty() {
				ff = FFlags::default();
				ff.unsync = l.ver == 4 && l.unsync;
			}
			// some writers put names of 2.2 into tags of 2.3
			let plain = matches!(f, Af::Text { .. } | Af::User { .. } | Af::Url { .. } | Af::UserUrl { .. } | Af::Lang { .. });
			let old = v22_id(id).filter(|_| l.ver == 3 && plain).map(|i| format!("{i}\0"));
			let old = old.filter(|_| s.chance(1, 10));
			put_frame(&mut out, l.ver, old.as_ref().unwrap_or(id), d, ff);
		}
		if !parts[0].1.is_empty() {
			exp.push(f);
		}
	}
	(wrap(&l, &out), l, exp)
}

/// A valid tag in a file of the kind.
pub fn any_in(s: &mut Src, k: Kind) -> Vec<u8> {
	let (tag, _, _) = gen_tag(s, 6);
	match k {
		Kind::Mp3 | Kind::Aac | Kind::Ape | Kind::Mpc | Kind::Flac => {
			let mut v = tag;
			v.extend(gen_plain(s, k));
			v
		},
		Kind::Wav | Kind::Aiff => {
			let mut f = if k == Kind::Wav { riff::gen_wav(s).0 } else { riff::gen_aiff(s).0 };
			f.chunks.push(riff::Chunk::new(b"ID3 ", tag));
			f.to_bytes()
		},
		_ => {
			let mut v = tag;
			v.extend(gen_plain(s, k));
			v
		},
	}
}

// ------------------------------------------------------------ the library's frames

use lofty::TextEncoding;
use lofty::id3::v2::{
	AttachedPictureFrame, BinaryFrame, ChannelInformation, ChannelType, ChapterFrame, ChapterTableOfContentsFrame, CommentFrame, CtocFlags, Event,
	EventTimingCodesFrame, EventType, ExtendedTextFrame, ExtendedUrlFrame, Frame, FrameId, FrameList, KeyValueFrame, OwnershipFrame,
	PopularimeterFrame, PrivateFrame, RelativeVolumeAdjustmentFrame, TextInformationFrame, TimestampFormat, TimestampFrame,
	UniqueFileIdentifierFrame, UnsynchronizedTextFrame, UrlLinkFrame,
};
use lofty::picture::{MimeType, Picture, PictureType};

fn split(v: &str) -> Vec<String> {
	v.split('\0').map(str::to_string).collect()
}

/// What a frame of the library says, without encoding and flags.
pub fn af_of(f: &Frame<'_>) -> Af {
	let id = f.id_str().to_string();
	match f {
		Frame::Text(t) => Af::Text { id, vals: split(&t.value) },
		Frame::UserText(t) => Af::User { desc: t.description.to_string(), vals: split(&t.content) },
		Frame::Url(u) => Af::Url { id, url: u.url().to_string() },
		Frame::UserUrl(u) => Af::UserUrl { desc: u.description.to_string(), url: u.content.to_string() },
		Frame::Comment(c) => Af::Lang { id, lang: c.language, desc: c.description.to_string(), text: c.content.to_string() },
		Frame::UnsynchronizedText(c) => Af::Lang { id, lang: c.language, desc: c.description.to_string(), text: c.content.to_string() },
		Frame::Picture(p) => Af::Pic {
			mime: p.picture.mime_type().map_or("", MimeType::as_str).to_string(),
			ty: p.picture.pic_type().as_u8(),
			desc: p.picture.description().unwrap_or("").to_string(),
			data: p.picture.data().to_vec(),
		},
		Frame::Popularimeter(p) => Af::Popm { email: p.email.to_string(), rating: p.rating, counter: p.counter },
		Frame::KeyValue(k) => Af::Pairs { id, pairs: k.key_value_pairs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() },
		Frame::RelativeVolumeAdjustment(r) => {
			let mut ch: Vec<_> = r
				.channels
				.iter()
				.map(|(t, c)| (*t as u8, c.volume_adjustment, c.bits_representing_peak, c.peak_volume.clone().unwrap_or_default()))
				.collect();
			ch.sort();
			Af::Rva2 { ident: r.identification.to_string(), ch }
		},
		Frame::UniqueFileIdentifier(u) => Af::Ufid { owner: u.owner.to_string(), data: u.identifier.to_vec() },
		Frame::Ownership(o) => Af::Owne { price: o.price_paid.to_string(), date: o.date_of_purchase.to_string(), seller: o.seller.to_string() },
		Frame::EventTimingCodes(e) => {
			Af::Etco { fmt: e.timestamp_format as u8, ev: e.events.iter().map(|e| (e.event_type as u8, e.timestamp)).collect() }
		},
		Frame::Private(p) => Af::Priv { owner: p.owner.to_string(), data: p.private_data.to_vec() },
		Frame::Timestamp(t) => Af::Time { id, ts: t.timestamp.to_string() },
		Frame::Chapter(c) => Af::Chap {
			id: c.id.to_string(),
			at: [c.times.start, c.times.end, c.offsets.start, c.offsets.end],
			kids: c.children.iter().map(af_of).collect(),
		},
		Frame::TableOfContents(c) => Af::Ctoc {
			id: c.id.to_string(),
			flags: u8::from(c.flags.top_level) * 2 + u8::from(c.flags.ordered),
			entries: c.entries.iter().map(|e| e.to_string()).collect(),
			kids: c.children.iter().map(af_of).collect(),
		},
		Frame::Binary(b) => Af::Bin { id, data: b.data.to_vec() },
		other => Af::Bin { id: format!("unknown {other:?}"), data: vec![] },
	}
}

pub fn enc_of(f: &Frame<'_>) -> Option<TextEncoding> {
	Some(match f {
		Frame::Text(t) => t.encoding,
		Frame::UserText(t) => t.encoding,
		Frame::UserUrl(t) => t.encoding,
		Frame::Comment(t) => t.encoding,
		Frame::UnsynchronizedText(t) => t.encoding,
		Frame::Picture(t) => t.encoding,
		Frame::KeyValue(t) => t.encoding,
		Frame::Ownership(t) => t.encoding,
		Frame::Timestamp(t) => t.encoding,
		_ => return None,
	})
}

fn rva_channel(n: u8) -> ChannelType {
	ChannelType::try_from(n).unwrap()
}

/// The library's frame for an abstract one, built with its public constructors.
pub fn to_frame(f: &Af, e: TextEncoding) -> Frame<'static> {
	let fid = |id: &str| FrameId::new(id.to_string()).unwrap();
	match f.clone() {
		Af::Text { id, vals } => Frame::Text(TextInformationFrame::new(fid(&id), e, vals.join("\0"))),
		Af::User { desc, vals } => Frame::UserText(ExtendedTextFrame::new(e, desc, vals.join("\0"))),
		Af::Url { id, url } => Frame::Url(UrlLinkFrame::new(fid(&id), url)),
		Af::UserUrl { desc, url } => Frame::UserUrl(ExtendedUrlFrame::new(e, desc, url)),
		Af::Lang { id, lang, desc, text } => {
			if id == "COMM" {
				Frame::Comment(CommentFrame::new(e, lang, desc, text))
			} else {
				Frame::UnsynchronizedText(UnsynchronizedTextFrame::new(e, lang, desc, text))
			}
		},
		Af::Pic { mime, ty, desc, data } => {
			let mut b = Picture::unchecked(data).pic_type(PictureType::from_u8(ty));
			if !mime.is_empty() {
				b = b.mime_type(MimeType::from_str(&mime));
			}
			if !desc.is_empty() {
				b = b.description(desc);
			}
			Frame::Picture(AttachedPictureFrame::new(e, b.build()))
		},
		Af::Popm { email, rating, counter } => Frame::Popularimeter(PopularimeterFrame::new(email, rating, counter)),
		Af::Priv { owner, data } => Frame::Private(PrivateFrame::new(owner, data)),
		Af::Ufid { owner, data } => Frame::UniqueFileIdentifier(UniqueFileIdentifierFrame::new(owner, data)),
		Af::Pairs { id, pairs } => {
			let p: Vec<(std::borrow::Cow<'static, str>, std::borrow::Cow<'static, str>)> = pairs.into_iter().map(|(a, b)| (a.into(), b.into())).collect();
			Frame::KeyValue(KeyValueFrame::new(fid(&id), e, p))
		},
		Af::Time { id, ts } => Frame::Timestamp(TimestampFrame::new(fid(&id), e, ts_of(&ts))),
		Af::Owne { price, date, seller } => Frame::Ownership(OwnershipFrame::new(e, price, date, seller)),
		Af::Etco { fmt, ev } => {
			let v: Vec<Event> = ev.iter().map(|(t, at)| Event { event_type: EventType::from_u8(*t), timestamp: *at }).collect();
			Frame::EventTimingCodes(EventTimingCodesFrame::new(if fmt == 1 { TimestampFormat::MPEG } else { TimestampFormat::MS }, v))
		},
		Af::Rva2 { ident, ch } => {
			let m: std::collections::HashMap<ChannelType, ChannelInformation> = ch
				.into_iter()
				.map(|(t, v, bits, peak)| {
					let t = rva_channel(t);
					let peak_volume = if bits == 0 { None } else { Some(peak) };
					(t, ChannelInformation { channel_type: t, volume_adjustment: v, bits_representing_peak: bits, peak_volume })
				})
				.collect();
			Frame::RelativeVolumeAdjustment(RelativeVolumeAdjustmentFrame::new(ident, std::borrow::Cow::Owned(m)))
		},
		Af::Chap { id, at, kids } => Frame::Chapter(ChapterFrame::new(id, at[0]..at[1], at[2]..at[3], list_of(&kids, e))),
		Af::Ctoc { id, flags, entries, kids } => {
			let entries: Vec<std::borrow::Cow<'static, str>> = entries.into_iter().map(Into::into).collect();
			Frame::TableOfContents(ChapterTableOfContentsFrame::new(
				id,
				CtocFlags { top_level: flags & 2 != 0, ordered: flags & 1 != 0 },
				entries,
				list_of(&kids, e),
			))
		},
		Af::Bin { id, data } => Frame::Binary(BinaryFrame::new(fid(&id), data)),
	}
}

fn list_of(v: &[Af], e: TextEncoding) -> FrameList<'static> {
	let mut l = FrameList::new();
	for f in v {
		l.insert(to_frame(f, e));
	}
	l
}

/// from its printed form, without the library's parser
pub fn ts_of(t: &str) -> lofty::tag::items::Timestamp {
	let n = |a: usize, b: usize| t.get(a..b).map(|x| x.parse::<u8>().unwrap());
	lofty::tag::items::Timestamp {
		year: t[..4].parse().unwrap(),
		month: n(5, 7),
		day: n(8, 10),
		hour: n(11, 13),
		minute: n(14, 16),
		second: n(17, 19),
	}
}

/// The parts of an extended header of a 2.4 tag: (CRC, restrictions).
pub fn ext_of(d: &[u8]) -> Result<Option<(Option<u32>, Option<u8>)>, String> {
	if d[5] & 0x40 == 0 {
		return Ok(None);
	}
	if d[3] != 4 {
		return Err("extended header outside 2.4".into());
	}
	let n = raw::synchsafe(&d[10..]) as usize;
	if n < 6 || d[14] != 1 {
		return Err("extended header malformed".into());
	}
	let fl = d[15];
	let mut p = 16;
	let (mut crc, mut restrict) = (None, None);
	if fl & 0x40 != 0 {
		if d[p] != 0 {
			return Err("update flag has data".into());
		}
		p += 1;
	}
	if fl & 0x20 != 0 {
		if d[p] != 5 {
			return Err("CRC length".into());
		}
		crc = Some(d[p + 1..p + 6].iter().fold(0u64, |a, b| (a << 7) | u64::from(*b)) as u32);
		p += 6;
	}
	if fl & 0x10 != 0 {
		if d[p] != 1 {
			return Err("restrictions length".into());
		}
		restrict = Some(d[p + 1]);
		p += 2;
	}
	if p != 10 + n {
		return Err(format!("extended header size says {n}, has {}", p - 10));
	}
	Ok(Some((crc, restrict)))
}
