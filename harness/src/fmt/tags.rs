//! Reference encoders and decoders for the tag formats.

use super::*;

// ------------------------------------------------------------ Vorbis comments

pub fn vc_encode(vendor: &str, items: &[(String, String)]) -> Vec<u8> {
	let mut v = le32(vendor.len() as u32).to_vec();
	v.extend(vendor.as_bytes());
	v.extend(le32(items.len() as u32));
	for (k, x) in items {
		v.extend(le32((k.len() + 1 + x.len()) as u32));
		v.extend(k.as_bytes());
		v.push(b'=');
		v.extend(x.as_bytes());
	}
	v
}

/// Decodes a comment list, returning (vendor, raw entries, bytes used).
pub fn vc_decode(d: &[u8]) -> Result<(Vec<u8>, Vec<Vec<u8>>, usize), String> {
	let mut p = 0;
	let mut take = |n: usize| -> Result<&[u8], String> {
		if d.len() - p < n {
			return Err(format!("comment list needs {n} bytes at {p} of {}", d.len()));
		}
		p += n;
		Ok(&d[p - n..p])
	};
	let n = rd_le32(take(4)?) as usize;
	let vendor = take(n)?.to_vec();
	let count = rd_le32(take(4)?) as usize;
	let mut v = vec![];
	for _ in 0..count {
		let n = rd_le32(take(4)?) as usize;
		v.push(take(n)?.to_vec());
	}
	Ok((vendor, v, p))
}

pub fn flac_picture(ty: u32, mime: &str, desc: &str, info: [u32; 4], data: &[u8]) -> Vec<u8> {
	let mut v = be32(ty).to_vec();
	v.extend(be32(mime.len() as u32));
	v.extend(mime.as_bytes());
	v.extend(be32(desc.len() as u32));
	v.extend(desc.as_bytes());
	for i in info {
		v.extend(be32(i));
	}
	v.extend(be32(data.len() as u32));
	v.extend(data);
	v
}

#[derive(Debug, PartialEq, Eq, Clone)]
pub struct FlacPic {
	pub ty: u32,
	pub mime: Vec<u8>,
	pub desc: Vec<u8>,
	pub info: [u32; 4],
	pub data: Vec<u8>,
}

pub fn flac_picture_decode(d: &[u8]) -> Result<FlacPic, String> {
	let mut p = 0;
	let mut take = |n: usize| -> Result<&[u8], String> {
		if d.len() - p < n {
			return Err("picture block cut".into());
		}
		p += n;
		Ok(&d[p - n..p])
	};
	let ty = rd_be32(take(4)?);
	let n = rd_be32(take(4)?) as usize;
	let mime = take(n)?.to_vec();
	let n = rd_be32(take(4)?) as usize;
	let desc = take(n)?.to_vec();
	let mut info = [0; 4];
	for i in &mut info {
		*i = rd_be32(take(4)?);
	}
	let n = rd_be32(take(4)?) as usize;
	let data = take(n)?.to_vec();
	if p != d.len() {
		return Err("trailing bytes after the picture data".into());
	}
	Ok(FlacPic { ty, mime, desc, info, data })
}

pub fn b64_decode(s: &[u8]) -> Option<Vec<u8>> {
	let mut out = vec![];
	let mut acc = 0u32;
	let mut bits = 0;
	let mut pad = 0;
	if s.len() % 4 != 0 {
		return None;
	}
	for &c in s {
		let v = match c {
			b'A'..=b'Z' => c - b'A',
			b'a'..=b'z' => c - b'a' + 26,
			b'0'..=b'9' => c - b'0' + 52,
			b'+' => 62,
			b'/' => 63,
			b'=' => {
				pad += 1;
				continue;
			},
			_ => return None,
		};
		if pad > 0 {
			return None;
		}
		acc = (acc << 6) | u32::from(v);
		bits += 6;
		if bits >= 8 {
			bits -= 8;
			out.push((acc >> bits) as u8);
		}
	}
	Some(out)
}

pub fn b64_encode(d: &[u8]) -> String {
	const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	let mut s = String::new();
	for c in d.chunks(3) {
		let b = [c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0)];
		let n = u32::from_be_bytes([0, b[0], b[1], b[2]]);
		for i in 0..4 {
			if i <= c.len() {
				s.push(A[(n >> (18 - 6 * i)) as usize & 63] as char);
			} else {
				s.push('=');
			}
		}
	}
	s
}

// ------------------------------------------------------------ APE

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ApeIt {
	pub key: String,
	/// 0 text, 1 binary, 2 locator
	pub ty: u8,
	pub read_only: bool,
	pub value: Vec<u8>,
}

pub fn ape_encode(items: &[ApeIt], header: bool, version: u32) -> Vec<u8> {
	let mut body = vec![];
	for i in items {
		body.extend(le32(i.value.len() as u32));
		body.extend(le32((u32::from(i.ty) << 1) | u32::from(i.read_only)));
		body.extend(i.key.as_bytes());
		body.push(0);
		body.extend(&i.value);
	}
	let hf = |is_header: bool| {
		let mut v = b"APETAGEX".to_vec();
		v.extend(le32(version));
		v.extend(le32(body.len() as u32 + 32));
		v.extend(le32(items.len() as u32));
		let mut flags = 0u32;
		if header {
			flags |= 1 << 31;
		}
		if is_header {
			flags |= 1 << 29;
		}
		v.extend(le32(flags));
		v.extend([0; 8]);
		v
	};
	let mut out = vec![];
	if header {
		out.extend(hf(true));
	}
	out.extend(&body);
	out.extend(hf(false));
	out
}

/// Strict decoder of a complete tag (optional header, items, footer).
pub fn ape_decode(d: &[u8]) -> Result<Vec<ApeIt>, String> {
	if d.len() < 32 {
		return Err("shorter than a footer".into());
	}
	let f = &d[d.len() - 32..];
	if &f[..8] != b"APETAGEX" {
		return Err("no footer".into());
	}
	let version = rd_le32(&f[8..]);
	let size = rd_le32(&f[12..]) as usize;
	let count = rd_le32(&f[16..]) as usize;
	let flags = rd_le32(&f[20..]);
	if flags & (1 << 29) != 0 {
		return Err("footer marked as header".into());
	}
	if f[24..32] != [0; 8] {
		return Err("reserved bytes not zero".into());
	}
	let has_header = flags >> 31 == 1;
	let want = size + if has_header { 32 } else { 0 };
	if want != d.len() {
		return Err(format!("size says {want}, tag has {}", d.len()));
	}
	let body = if has_header {
		let h = &d[..32];
		if &h[..8] != b"APETAGEX" || rd_le32(&h[8..]) != version || rd_le32(&h[12..]) as usize != size || rd_le32(&h[16..]) as usize != count {
			return Err("header disagrees with footer".into());
		}
		if rd_le32(&h[20..]) & (1 << 29) == 0 {
			return Err("header not marked as header".into());
		}
		&d[32..d.len() - 32]
	} else {
		&d[..d.len() - 32]
	};
	let mut v = vec![];
	let mut p = 0;
	for i in 0..count {
		if body.len() - p < 9 {
			return Err(format!("item {i} cut"));
		}
		let n = rd_le32(&body[p..]) as usize;
		let fl = rd_le32(&body[p + 4..]);
		p += 8;
		let z = body[p..].iter().position(|b| *b == 0).ok_or("key not terminated")?;
		let key = String::from_utf8(body[p..p + z].to_vec()).map_err(|_| "key not text")?;
		p += z + 1;
		if body.len() - p < n {
			return Err(format!("item {key} value cut"));
		}
		v.push(ApeIt { key, ty: ((fl >> 1) & 3) as u8, read_only: fl & 1 == 1, value: body[p..p + n].to_vec() });
		p += n;
	}
	if p != body.len() {
		return Err(format!("{} bytes after the last item", body.len() - p));
	}
	Ok(v)
}

// ------------------------------------------------------------ ID3v1

pub fn id3v1(title: &str, artist: &str, album: &str, year: &str, comment: &str, track: u8, genre: u8) -> Vec<u8> {
	let mut v = b"TAG".to_vec();
	let mut put = |s: &str, n: usize| {
		let mut b: Vec<u8> = s.chars().map(|c| c as u32 as u8).take(n).collect();
		b.resize(n, 0);
		v.extend(b);
	};
	put(title, 30);
	put(artist, 30);
	put(album, 30);
	put(year, 4);
	put(comment, 28);
	v.push(0);
	v.push(track);
	v.push(genre);
	v
}

// ------------------------------------------------------------ ID3v2

pub fn ss(n: u32) -> [u8; 4] {
	[(n >> 21) as u8 & 0x7F, (n >> 14) as u8 & 0x7F, (n >> 7) as u8 & 0x7F, n as u8 & 0x7F]
}

/// Plain 2.4 tag from (id, payload) frames.
pub fn id3v24(frames: &[(&[u8; 4], Vec<u8>)], padding: usize) -> Vec<u8> {
	let mut body = vec![];
	for (id, d) in frames {
		body.extend(*id);
		body.extend(ss(d.len() as u32));
		body.extend([0, 0]);
		body.extend(d);
	}
	body.extend(std::iter::repeat_n(0, padding));
	let mut v = b"ID3\x04\0\0".to_vec();
	v.extend(ss(body.len() as u32));
	v.extend(body);
	v
}

pub fn id3_text(s: &str) -> Vec<u8> {
	let mut v = vec![3];
	v.extend(s.as_bytes());
	v
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fr {
	pub id: [u8; 4],
	pub flags: u16,
	pub data: Vec<u8>,
}

/// Strict decoder of a plain 2.3/2.4 tag without tag level unsynchronisation.
/// Returns (version, frames, padding bytes).
pub fn id3v2_decode(d: &[u8]) -> Result<(u8, Vec<Fr>, usize), String> {
	if d.len() < 10 || &d[..3] != b"ID3" {
		return Err("no ID3v2 header".into());
	}
	let ver = d[3];
	let flags = d[5];
	if d[6..10].iter().any(|b| *b >= 0x80) {
		return Err("tag size not synchsafe".into());
	}
	let n = raw::synchsafe(&d[6..10]) as usize;
	let footer = if ver == 4 && flags & 0x10 != 0 { 10 } else { 0 };
	if d.len() != 10 + n + footer {
		return Err(format!("tag size says {}, have {}", 10 + n + footer, d.len()));
	}
	if footer > 0 {
		let f = &d[d.len() - 10..];
		if &f[..3] != b"3DI" || f[3..] != d[3..10] {
			return Err("footer disagrees with header".into());
		}
	}
	let mut b = &d[10..10 + n];
	if flags & 0x40 != 0 {
		let ext = if ver == 4 { raw::synchsafe(b) as usize } else { rd_be32(b) as usize + 4 };
		if ext > b.len() {
			return Err("extended header cut".into());
		}
		b = &b[ext..];
	}
	let mut v = vec![];
	let mut p = 0;
	while p < b.len() {
		if b[p] == 0 {
			if b[p..].iter().any(|x| *x != 0) {
				return Err("padding is not zero".into());
			}
			if footer > 0 {
				return Err("padding with a footer".into());
			}
			return Ok((ver, v, b.len() - p));
		}
		if b.len() - p < 10 {
			return Err("frame header cut".into());
		}
		let id: [u8; 4] = b[p..p + 4].try_into().unwrap();
		if !id.iter().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit()) {
			return Err(format!("frame id {:?} at {p}", id.escape_ascii().to_string()));
		}
		let n = if ver == 4 {
			if b[p + 4..p + 8].iter().any(|x| *x >= 0x80) {
				return Err("frame size not synchsafe".into());
			}
			raw::synchsafe(&b[p + 4..]) as usize
		} else {
			rd_be32(&b[p + 4..]) as usize
		};
		if b.len() - p - 10 < n {
			return Err(format!("frame {} claims {n} bytes, {} left", id.escape_ascii(), b.len() - p - 10));
		}
		v.push(Fr { id, flags: u16::from_be_bytes([b[p + 8], b[p + 9]]), data: b[p + 10..p + 10 + n].to_vec() });
		p += 10 + n;
	}
	Ok((ver, v, 0))
}
