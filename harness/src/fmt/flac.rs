//! FLAC streams.

use super::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Block {
	pub ty: u8,
	pub data: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Flac {
	pub id3v2: Vec<u8>,
	pub blocks: Vec<Block>,
	pub frames: Vec<u8>,
}

impl Flac {
	pub fn to_bytes(&self) -> Vec<u8> {
		let mut v = self.id3v2.clone();
		v.extend(b"fLaC");
		for (i, b) in self.blocks.iter().enumerate() {
			v.push(b.ty | if i + 1 == self.blocks.len() { 0x80 } else { 0 });
			v.extend(&be32(b.data.len() as u32)[1..]);
			v.extend(&b.data);
		}
		v.extend(&self.frames);
		v
	}
}

pub fn parse(data: &[u8]) -> Result<Flac, String> {
	let mut f = Flac { id3v2: vec![], blocks: vec![], frames: vec![] };
	let mut d = data;
	while d.len() > 10 && d.starts_with(b"ID3") {
		let n = 10 + raw::synchsafe(&d[6..10]) as usize;
		if n > d.len() {
			return Err("ID3v2 beyond end".into());
		}
		f.id3v2.extend(&d[..n]);
		d = &d[n..];
	}
	if !d.starts_with(b"fLaC") {
		return Err("no fLaC marker".into());
	}
	let mut p = 4;
	loop {
		if p + 4 > d.len() {
			return Err("block list runs past the end (no final block marker)".into());
		}
		let last = d[p] & 0x80 != 0;
		let ty = d[p] & 0x7F;
		let n = (rd_be32(&d[p..]) & 0xFF_FFFF) as usize;
		if ty == 127 {
			return Err(format!("invalid block type at {p}"));
		}
		if p + 4 + n > d.len() {
			return Err(format!("block type {ty} claims {n} bytes beyond the end"));
		}
		f.blocks.push(Block { ty, data: d[p + 4..p + 4 + n].to_vec() });
		p += 4 + n;
		if last {
			break;
		}
	}
	f.frames = d[p..].to_vec();
	if f.blocks[0].ty != 0 {
		return Err("first block is not stream info".into());
	}
	if f.blocks.iter().filter(|b| b.ty == 0).count() != 1 {
		return Err("more than one stream info".into());
	}
	Ok(f)
}

pub fn essence(data: &[u8]) -> Result<Vec<(String, Vec<u8>)>, String> {
	let f = parse(data)?;
	let mut out = vec![];
	for b in &f.blocks {
		if matches!(b.ty, 1 | 4 | 6) {
			continue;
		}
		out.push((format!("block{}", b.ty), b.data.clone()));
	}
	out.push(("frames".into(), f.frames));
	Ok(out)
}

pub fn streaminfo(rate: u32, ch: u8, bits: u8, samples: u64, md5: [u8; 16]) -> Vec<u8> {
	let mut v = vec![];
	v.extend(4096u16.to_be_bytes());
	v.extend(4096u16.to_be_bytes());
	v.extend([0, 0, 14, 0, 0x20, 0]);
	let x: u64 = (u64::from(rate) << 44)
		| (u64::from(ch - 1) << 41)
		| (u64::from(bits - 1) << 36)
		| (samples & 0xF_FFFF_FFFF);
	v.extend(x.to_be_bytes());
	v.extend(md5);
	v
}

pub fn gen_flac(s: &mut Src) -> (Flac, Expect) {
	let rate = *s.pick(&[44100u32, 8000, 48000, 96000, 192_000, 655_350]);
	let ch = s.range(1, 8) as u8;
	let bits = *s.pick(&[16u8, 8, 24, 32, 4, 20]);
	let samples = if s.chance(1, 10) { (1 << 32) + s.below(1000) } else { s.range(4096, 10_000_000) };
	let mut md5 = [3; 16];
	if s.bool() {
		md5.copy_from_slice(&s.blob(16));
	}
	let mut blocks = vec![Block { ty: 0, data: streaminfo(rate, ch, bits, samples, md5) }];
	let n = s.below(5);
	for _ in 0..n {
		let ty = *s.pick(&[2u8, 3, 5, 1, 7, 100, 126]);
		let len = match ty {
			3 => 18 * s.usize(0, 6),
			_ => s.size(2000, &[0, 255, 1024]),
		};
		let data = if ty == 1 { vec![0; len] } else { s.blob(len) };
		blocks.push(Block { ty, data });
	}
	let mut frames = vec![0xFF, 0xF8, 0xC9, 0x18];
	let mut n = s.size(4000, &[]);
	// Long enough that moving it takes more than one go
	if s.chance(1, 300) {
		n = s.size(400_000, &[65_536, 65_532, 131_072, 196_608]);
	}
	frames.extend(s.blob(n));
	let dur = samples as f64 * 1000.0 / f64::from(rate);
	let e = Expect {
		sample_rate: Some(rate),
		channels: Some(ch),
		bit_depth: Some(bits),
		duration_ms: Some(dur),
		duration_tol: 1.0,
		audio_bitrate: Some(frames.len() as f64 * 8.0 / dur),
		bitrate_tol: 1.5,
		facts: vec![("signature", u128::from_be_bytes(md5).to_string())],
		mask: Some(None),
		desc: format!(
			"flac rate={rate} ch={ch} bits={bits} samples={samples} blocks={:?} frames={}",
			blocks.iter().map(|b| (b.ty, b.data.len())).collect::<Vec<_>>(),
			frames.len()
		),
	};
	(Flac { id3v2: vec![], blocks, frames }, e)
}
