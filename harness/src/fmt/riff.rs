//! RIFF/WAVE and FORM/AIFF containers.

use super::*;
use crate::lg;

#[derive(Clone, Debug)]
pub struct Chunk {
	pub id: [u8; 4],
	pub data: Vec<u8>,
	/// The byte after a chunk of odd length: zero as specified, `MISSING`
	/// (some encoders leave it out), or garbage (above 0x7F)
	pub pad: u8,
}

pub const MISSING: u8 = 1;

impl PartialEq for Chunk {
	fn eq(&self, o: &Self) -> bool {
		self.id == o.id && self.data == o.data
	}
}

impl Eq for Chunk {}

std::thread_local! {
	/// Set once the running case made a file with wrong pad bytes
	static LENIENT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Back to the rules, at the start of each case
pub fn reset() {
	LENIENT.with(|l| l.set(false));
}

impl Chunk {
	pub fn new(id: &[u8; 4], data: Vec<u8>) -> Self {
		Chunk { id: *id, data, pad: 0 }
	}
}

#[derive(Clone, Debug)]
pub struct Form {
	pub le: bool,
	pub form: [u8; 4],
	pub chunks: Vec<Chunk>,
}

impl Form {
	/// Now and then, some of the pad bytes are wrong or missing.
	pub fn quirks(&mut self, s: &mut Src) -> bool {
		if !s.chance(1, 10) {
			return false;
		}
		let mut any = false;
		for c in &mut self.chunks {
			if c.data.len() % 2 == 1 {
				c.pad = match s.below(4) {
					0 | 1 => MISSING,
					2 => s.range(0x80, 0xFF) as u8,
					_ => 0,
				};
				any |= c.pad != 0;
			}
		}
		any
	}
	fn u32(&self, n: u32) -> [u8; 4] {
		if self.le { n.to_le_bytes() } else { n.to_be_bytes() }
	}
	pub fn to_bytes(&self) -> Vec<u8> {
		let mut body = self.form.to_vec();
		for c in &self.chunks {
			body.extend(c.id);
			body.extend(self.u32(c.data.len() as u32));
			body.extend(&c.data);
			if c.data.len() % 2 == 1 {
				if c.pad != 0 {
					LENIENT.with(|l| l.set(true));
				}
				if c.pad != MISSING {
					body.push(c.pad);
				}
			}
		}
		let mut v = if self.le { b"RIFF".to_vec() } else { b"FORM".to_vec() };
		v.extend(self.u32(body.len() as u32));
		v.extend(body);
		v
	}
}

/// Strict parse: every size must agree with the file (pad bytes may be
/// missing or wrong if the case made such a file).
pub fn parse(data: &[u8]) -> Result<Form, String> {
	if data.len() < 12 {
		return Err("shorter than a form header".into());
	}
	let le = match &data[..4] {
		b"RIFF" => true,
		b"FORM" => false,
		x => return Err(format!("outer id {x:?}")),
	};
	let rd = |b: &[u8]| if le { rd_le32(b) } else { rd_be32(b) } as usize;
	let outer = rd(&data[4..]);
	if outer + 8 != data.len() {
		return Err(format!("outer size says {} bytes, file has {}", outer + 8, data.len()));
	}
	let lenient = LENIENT.with(std::cell::Cell::get);
	let mut f = Form { le, form: data[8..12].try_into().unwrap(), chunks: vec![] };
	let mut p = 12;
	while p < data.len() {
		if p + 8 > data.len() {
			return Err(format!("{} stray bytes at the end", data.len() - p));
		}
		let id: [u8; 4] = data[p..p + 4].try_into().unwrap();
		let n = rd(&data[p + 4..]);
		if p + 8 + n > data.len() {
			return Err(format!("chunk {:?} at {p} claims {n} bytes beyond the end", String::from_utf8_lossy(&id)));
		}
		let mut pad = 0;
		let at = p + 8;
		p = at + n;
		if n % 2 == 1 {
			if lenient {
				match data.get(p) {
					None => pad = MISSING,
					Some(0) => p += 1,
					Some(_) if data.len() >= p + 8 && data[p..p + 4].iter().all(|b| (0x20..0x7F).contains(b)) => pad = MISSING,
					Some(b) => {
						pad = *b;
						p += 1;
					}
				}
			} else if p >= data.len() {
				return Err(format!("chunk {:?} lacks its pad byte", String::from_utf8_lossy(&id)));
			} else {
				p += 1;
			}
		}
		f.chunks.push(Chunk { id, data: data[at..at + n].to_vec(), pad });
	}
	Ok(f)
}

pub fn is_id3(id: &[u8; 4]) -> bool {
	matches!(id, b"ID3 " | b"id3 ")
}

pub fn is_tag_chunk(k: Kind, c: &Chunk) -> bool {
	if is_id3(&c.id) {
		return true;
	}
	match k {
		Kind::Wav => c.id == *b"LIST" && c.data.starts_with(b"INFO"),
		_ => matches!(&c.id, b"NAME" | b"AUTH" | b"(c) " | b"ANNO" | b"COMT"),
	}
}

pub fn is_filler(c: &Chunk) -> bool {
	&c.id == b"JUNK" || &c.id == b"PAD "
}

/// Non-tag chunks; filler chunks (which a writer may turn an old tag into) are
/// not counted.
pub fn essence(k: Kind, data: &[u8]) -> Result<Vec<(String, Vec<u8>)>, String> {
	let f = parse(data)?;
	let mut out = vec![("form".to_string(), f.form.to_vec())];
	for c in &f.chunks {
		if is_tag_chunk(k, c) {
			continue;
		}
		if is_filler(c) {
			continue;
		}
		out.push((String::from_utf8_lossy(&c.id).into_owned(), c.data.clone()));
	}
	Ok(out)
}

fn extra_chunk(s: &mut Src, ids: &[&[u8; 4]]) -> Chunk {
	let id = **s.pick(ids);
	let n = s.size(600, &[1, 8, 9, 128, 255]);
	let mut d = s.blob(n);
	if &id == b"LIST" {
		let mut x = b"adtl".to_vec();
		x.extend(d);
		d = x;
	}
	if (&id == b"JUNK" || &id == b"PAD ") && d.iter().all(|b| *b == 0) {
		d.insert(0, 1);
	}
	Chunk { id, data: d, pad: 0 }
}

pub fn gen_wav(s: &mut Src) -> (Form, Expect) {
	let ch = if s.chance(1, 12) { s.range(7, 40) } else { s.range(1, 6) } as u16;
	let rate = if s.chance(1, 8) { s.range(1, 400_000) as u32 } else { *s.pick(&[44100u32, 8000, 48000, 96000, 22050]) };
	// 1 = pcm, 3 = float, 0xFFFE = extensible, anything else is compressed
	let fmt = *s.pick(&[1u16, 1, 1, 3, 3, 0xFFFE, 0xFFFE, 6, 7, 0x55, 0x161]);
	let comp = !matches!(fmt, 1 | 3 | 0xFFFE);
	let bits: u16 = match fmt {
		3 => *s.pick(&[32u16, 64]),
		6 | 7 => 8,
		0x55 => 0,
		0x161 => 16,
		_ => *s.pick(&[16u16, 8, 24, 32]),
	};
	let block = ch * (bits / 8).max(1);
	let samples = s.size(700, &[1, 255]) as u32 + 1;
	let mut f = vec![];
	f.extend(fmt.to_le_bytes());
	f.extend(ch.to_le_bytes());
	f.extend(le32(rate));
	let byte_rate = if comp { s.range(1000, 2_000_000) as u32 } else { rate * u32::from(block) };
	f.extend(le32(byte_rate));
	f.extend(block.to_le_bytes());
	f.extend(bits.to_le_bytes());
	let valid = if s.chance(1, 3) { s.range(1, u64::from(bits.max(1))) as u16 } else { bits };
	let mask = if s.chance(1, 3) { s.u32() } else { ((1u64 << ch) - 1) as u32 };
	let sub = *s.pick(&[1u16, 1, 3]);
	if fmt == 0xFFFE {
		f.extend(22u16.to_le_bytes());
		f.extend(valid.to_le_bytes());
		f.extend(le32(mask));
		f.extend(sub.to_le_bytes());
		f.extend([0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xAA, 0, 0x38, 0x9B, 0x71]);
	} else if fmt == 3 || comp {
		f.extend(0u16.to_le_bytes());
	}
	let mut chunks = vec![];
	let ids: [&[u8; 4]; 6] = [b"bext", b"LIST", b"cue ", b"smpl", b"JUNK", b"iXML"];
	if s.chance(1, 4) {
		chunks.push(extra_chunk(s, &ids));
	}
	chunks.push(Chunk::new(b"fmt ", f));
	// the length of compressed audio is only stated here
	let stated = if comp { s.range(1, 100_000_000) as u32 } else { samples };
	if fmt == 3 || comp || s.chance(1, 4) {
		chunks.push(Chunk::new(b"fact", le32(stated).to_vec()));
	}
	for _ in 0..s.below(3) {
		chunks.push(extra_chunk(s, &ids));
	}
	let n = samples as usize * block as usize;
	let d = s.blob(n);
	chunks.push(Chunk::new(b"data", d));
	for _ in 0..s.below(3) {
		chunks.push(extra_chunk(s, &ids));
	}
	let dur = f64::from(stated) * 1000.0 / f64::from(rate);
	let format = match (fmt, sub) {
		(3, _) | (0xFFFE, 3) => "IEEE_FLOAT".to_string(),
		_ if comp => format!("Other({fmt})"),
		_ => "PCM".to_string(),
	};
	let e = Expect {
		sample_rate: Some(rate),
		channels: Some(ch as u8),
		bit_depth: if bits == 0 { None } else { Some(if fmt == 0xFFFE { valid } else { bits } as u8) },
		duration_ms: Some(dur),
		duration_tol: 1.0,
		audio_bitrate: Some(f64::from(byte_rate) * 8.0 / 1000.0),
		bitrate_tol: 1.0,
		facts: vec![("format", format)],
		mask: Some((fmt == 0xFFFE).then_some(mask)),
		desc: format!("wav fmt={fmt}/{sub} valid={valid} mask={mask:x} ch={ch} rate={rate} bits={bits} samples={stated}"),
	};
	let mut form = Form { le: true, form: *b"WAVE", chunks };
	form.quirks(s);
	(form, e)
}

/// 80 bit extended float of an integer rate
pub fn extended(rate: u32) -> [u8; 10] {
	let mut out = [0u8; 10];
	if rate == 0 {
		return out;
	}
	let lz = rate.leading_zeros();
	let exp = 16383 + 31 - lz as u16;
	let mant = u64::from(rate) << (32 + lz);
	out[..2].copy_from_slice(&exp.to_be_bytes());
	out[2..].copy_from_slice(&mant.to_be_bytes());
	out
}

pub fn gen_aiff(s: &mut Src) -> (Form, Expect) {
	let aifc = s.chance(1, 3);
	let ch = if s.chance(1, 12) { s.range(7, 40) } else { s.range(1, 6) } as u16;
	let rate = if s.chance(1, 8) { s.range(1, 400_000) as u32 } else { *s.pick(&[44100u32, 8000, 48000, 96000, 22050, 11025]) };
	let bits = *s.pick(&[16u16, 8, 24, 32]);
	let samples = s.size(700, &[1, 255]) as u32 + 1;
	let mut c = vec![];
	c.extend(ch.to_be_bytes());
	c.extend(be32(samples));
	c.extend(bits.to_be_bytes());
	c.extend(extended(rate));
	let mut compression = "None".to_string();
	if aifc {
		let known = [
			"NONE", "ACE2", "ACE8", "MAC3", "MAC6", "sowt", "fl32", "fl64", "alaw", "ulaw", "ULAW", "ALAW", "FL32",
		];
		let id = if s.chance(1, 3) { *s.pick(&["Qclp", "in24", "    ", "none"]) } else { *s.pick(&known) };
		let name = lg::text(s, lg::Cs::Ascii, true);
		let name = &name[..name.len().min(255)];
		c.extend(id.as_bytes());
		c.push(name.len() as u8);
		c.extend(name.as_bytes());
		if name.len() % 2 == 0 {
			c.push(0);
		}
		compression = match id {
			"NONE" => "Some(None)".into(),
			id if known.contains(&id) => format!("Some({id})"),
			id => format!("Some(Other {id:?} {name:?})"),
		};
	}
	let n = samples as usize * ch as usize * (bits / 8) as usize;
	let mut ssnd = vec![0u8; 8];
	ssnd.extend(s.blob(n));
	let mut chunks = vec![];
	if aifc {
		chunks.push(Chunk::new(b"FVER", be32(0xA280_5140).to_vec()));
	}
	let ids: [&[u8; 4]; 4] = [b"MARK", b"INST", b"APPL", b"MIDI"];
	let ssnd_first = s.chance(1, 6);
	if ssnd_first {
		chunks.push(Chunk::new(b"SSND", ssnd.clone()));
	}
	if s.chance(1, 4) {
		chunks.push(extra_chunk(s, &ids));
	}
	chunks.push(Chunk::new(b"COMM", c));
	for _ in 0..s.below(3) {
		chunks.push(extra_chunk(s, &ids));
	}
	if !ssnd_first {
		chunks.push(Chunk::new(b"SSND", ssnd));
	}
	for _ in 0..s.below(3) {
		chunks.push(extra_chunk(s, &ids));
	}
	let dur = f64::from(samples) * 1000.0 / f64::from(rate);
	let e = Expect {
		sample_rate: Some(rate),
		channels: Some(ch as u8),
		bit_depth: Some(bits as u8),
		duration_ms: Some(dur),
		duration_tol: 1.0,
		audio_bitrate: Some((n as f64) * 8.0 / dur),
		bitrate_tol: 2.0 + 64.0 / dur + n as f64 * 8.0 / dur * 1.5 / dur.min(1.0),
		facts: vec![
			("sample_size", bits.to_string()),
			("channels", ch.to_string()),
			("compression_type", compression),
		],
		mask: Some(None),
		desc: format!("aiff aifc={aifc} ch={ch} rate={rate} bits={bits} samples={samples}"),
	};
	let mut form = Form { le: false, form: if aifc { *b"AIFC" } else { *b"AIFF" }, chunks };
	form.quirks(s);
	(form, e)
}
