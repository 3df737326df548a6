//! MPEG audio, ADTS, Monkey's Audio, WavPack, Musepack streams and the tags wrapped around them.

use super::*;

#[derive(Clone, Debug, Default)]
pub struct Parts {
	/// leading ID3v2 tags, each complete (header, body, footer)
	pub id3v2: Vec<Vec<u8>>,
	/// leading APE tag
	pub lead_ape: Option<Vec<u8>>,
	/// everything between, that is not one of the tags
	pub audio: Vec<u8>,
	pub lyrics3: Option<Vec<u8>>,
	pub ape: Option<Vec<u8>>,
	pub id3v1: Option<Vec<u8>>,
	/// the APE tag lies behind the Lyrics3 block
	pub ape_last: bool,
}

impl Parts {
	/// order: id3v2* leading-ape audio ape lyrics3 id3v1
	pub fn to_bytes(&self) -> Vec<u8> {
		let mut v = vec![];
		for t in &self.id3v2 {
			v.extend(t);
		}
		if let Some(t) = &self.lead_ape {
			v.extend(t);
		}
		v.extend(&self.audio);
		if let (Some(t), false) = (&self.ape, self.ape_last) {
			v.extend(t);
		}
		if let Some(t) = &self.lyrics3 {
			v.extend(t);
		}
		if let (Some(t), true) = (&self.ape, self.ape_last) {
			v.extend(t);
		}
		if let Some(t) = &self.id3v1 {
			v.extend(t);
		}
		v
	}
}

pub fn synchsafe(b: &[u8]) -> u32 {
	b[..4].iter().fold(0, |a, x| (a << 7) | u32::from(x & 0x7F))
}

fn footer_ape_len(d: &[u8]) -> Result<Option<usize>, String> {
	if d.len() < 32 || &d[d.len() - 32..d.len() - 24] != b"APETAGEX" {
		return Ok(None);
	}
	let f = &d[d.len() - 32..];
	let size = rd_le32(&f[12..]) as usize;
	let flags = rd_le32(&f[20..]);
	let total = size + if flags & 0x8000_0000 != 0 { 32 } else { 0 };
	if total > d.len() || size < 32 {
		return Err(format!("APE footer claims {total} bytes of {}", d.len()));
	}
	Ok(Some(total))
}

/// Independent split of a tagged stream.
pub fn split(k: Kind, data: &[u8]) -> Result<Parts, String> {
	let mut p = Parts::default();
	let mut d = data;
	while d.len() >= 10 && &d[..3] == b"ID3" && d[3] < 0xFF && d[6..10].iter().all(|x| *x < 0x80) {
		let mut n = 10 + synchsafe(&d[6..10]) as usize;
		if d[3] == 4 && d[5] & 0x10 != 0 {
			n += 10;
		}
		if n > d.len() {
			return Err(format!("ID3v2 tag claims {n} bytes of {}", d.len()));
		}
		p.id3v2.push(d[..n].to_vec());
		d = &d[n..];
		// padding zeros between the tag and the stream belong to neither
	}
	let inside_ape = d.len() >= 131 && (d[d.len() - 131..].starts_with(b"APETAGEX") || footer_ape_len(d).is_ok_and(|n| n.is_some_and(|n| n >= 128)) || d.ends_with(b"LYRICS200"));
	if d.len() >= 128 && &d[d.len() - 128..d.len() - 125] == b"TAG" && !inside_ape {
		p.id3v1 = Some(d[d.len() - 128..].to_vec());
		d = &d[..d.len() - 128];
	}
	if let Some(n) = footer_ape_len(d)? {
		p.ape = Some(d[d.len() - n..].to_vec());
		d = &d[..d.len() - n];
		p.ape_last = true;
	}
	if d.len() >= 15 && &d[d.len() - 9..] == b"LYRICS200" {
		let n: usize = std::str::from_utf8(&d[d.len() - 15..d.len() - 9])
			.ok()
			.and_then(|s| s.parse().ok())
			.ok_or("bad lyrics3 size")?;
		let total = n + 15;
		if total > d.len() || !d[d.len() - total..].starts_with(b"LYRICSBEGIN") {
			return Err("bad lyrics3 block".into());
		}
		p.lyrics3 = Some(d[d.len() - total..].to_vec());
		d = &d[..d.len() - total];
	}
	if p.ape.is_none() || p.lyrics3.is_none() {
		p.ape_last = false;
	}
	if p.ape.is_none() {
		if let Some(n) = footer_ape_len(d)? {
			p.ape = Some(d[d.len() - n..].to_vec());
			d = &d[..d.len() - n];
		}
	}
	if k != Kind::Aac && d.len() >= 32 && &d[..8] == b"APETAGEX" {
		let size = rd_le32(&d[12..]) as usize + 32;
		if size > d.len() {
			return Err("leading APE tag too long".into());
		}
		p.lead_ape = Some(d[..size].to_vec());
		d = &d[size..];
	}
	p.audio = d.to_vec();
	Ok(p)
}

/// Payload bytes that never contain a frame sync, tag magic, etc.
pub fn safe_blob(s: &mut Src, len: usize) -> Vec<u8> {
	let mut v = s.blob(len);
	for b in &mut v {
		if *b == 0xFF || *b == b'I' || *b == b'T' || *b == b'A' || *b == b'L' || *b == b'w' || *b == b'M' {
			*b = 0x55;
		}
	}
	v
}

pub fn lyrics3(s: &mut Src) -> Vec<u8> {
	let n = s.size(200, &[]);
	let mut body = b"LYRICSBEGIN".to_vec();
	body.extend(format!("LYR{n:05}").as_bytes());
	body.extend(std::iter::repeat_n(b'x', n));
	let size = body.len();
	body.extend(format!("{size:06}LYRICS200").as_bytes());
	body
}

// ------------------------------------------------------------ MPEG audio

const BR: [[[u32; 16]; 3]; 2] = [
	[
		// MPEG1: layer 1, 2, 3
		[0, 32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448, 0],
		[0, 32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 0],
		[0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 0],
	],
	[
		[0, 32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256, 0],
		[0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160, 0],
		[0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160, 0],
	],
];

#[derive(Clone, Copy, Debug)]
pub struct MpegHdr {
	/// 0 = MPEG1, 1 = MPEG2, 2 = MPEG2.5
	pub version: u8,
	/// 1..=3
	pub layer: u8,
	pub br: u8,
	pub sr: u8,
	pub padding: bool,
	/// 0 stereo, 1 joint, 2 dual, 3 mono
	pub mode: u8,
	/// mode extension (2 bits), copyright, original, emphasis (2 bits)
	pub low: u8,
	pub private: bool,
}

impl MpegHdr {
	pub fn bitrate(self) -> u32 {
		BR[usize::from(self.version != 0)][self.layer as usize - 1][self.br as usize]
	}
	pub fn sample_rate(self) -> u32 {
		[44100, 48000, 32000][self.sr as usize] >> self.version
	}
	pub fn samples(self) -> u32 {
		match (self.layer, self.version) {
			(1, _) => 384,
			(2, _) => 1152,
			(_, 0) => 1152,
			_ => 576,
		}
	}
	pub fn frame_len(self) -> usize {
		let pad = u32::from(self.padding);
		let n = match self.layer {
			1 => (12 * self.bitrate() * 1000 / self.sample_rate() + pad) * 4,
			_ => self.samples() / 8 * self.bitrate() * 1000 / self.sample_rate() + pad,
		};
		n as usize
	}
	pub fn bytes(self) -> [u8; 4] {
		let v = [3u8, 2, 0][self.version as usize];
		let l = 4 - self.layer;
		[
			0xFF,
			0xE0 | (v << 3) | (l << 1) | 1,
			(self.br << 4) | (self.sr << 2) | (u8::from(self.padding) << 1) | u8::from(self.private),
			(self.mode << 6) | self.low,
		]
	}
	pub fn channels(self) -> u8 {
		if self.mode == 3 { 1 } else { 2 }
	}
	pub fn facts(self) -> Vec<(&'static str, String)> {
		vec![
			("version", ["V1", "V2", "V2_5"][usize::from(self.version)].into()),
			("layer", format!("Layer{}", self.layer)),
			("channel_mode", ["Stereo", "JointStereo", "DualChannel", "SingleChannel"][usize::from(self.mode)].into()),
			("mode_extension", if self.mode == 1 { format!("Some({})", self.low >> 4) } else { "None".into() }),
			("copyright", (self.low & 8 != 0).to_string()),
			("original", (self.low & 4 != 0).to_string()),
			("emphasis", ["None", "Some(MS5015)", "Some(Reserved)", "Some(CCIT_J17)"][usize::from(self.low & 3)].into()),
		]
	}
	pub fn mask(self) -> Option<u32> {
		[Some(3), Some(3), None, Some(4)][usize::from(self.mode)]
	}
	/// where a Xing/Info header lies in the frame
	pub fn xing_offset(self) -> usize {
		match (self.version, self.mode) {
			(0, 3) => 4 + 17,
			(0, _) => 4 + 32,
			(_, 3) => 4 + 9,
			_ => 4 + 17,
		}
	}
}

pub fn gen_mp3(s: &mut Src) -> (Vec<u8>, Expect) {
	let layer = [3u8, 3, 3, 2, 1][s.below(5) as usize];
	let h = MpegHdr {
		version: [0u8, 0, 1, 2][s.below(4) as usize],
		layer,
		br: s.range(1, 14) as u8,
		sr: s.below(3) as u8,
		padding: false,
		mode: s.below(4) as u8,
		// (no byte of the header looks like the start of another one)
		low: s.below(64) as u8 & 0x2F,
		private: s.chance(1, 4),
	};
	gen_mp3_with(s, h, true)
}

pub fn gen_mp3_with(s: &mut Src, h: MpegHdr, allow_vbr: bool) -> (Vec<u8>, Expect) {
	let frames = s.usize(3, 12);
	let vbr = allow_vbr && h.layer == 3 && h.br >= 5 && s.chance(1, 3);
	let mut out = vec![];
	let mut e = Expect {
		sample_rate: Some(h.sample_rate()),
		channels: Some(h.channels()),
		facts: h.facts(),
		mask: Some(h.mask()),
		..Expect::default()
	};
	let is_vbr = vbr && h.frame_len() > h.xing_offset() + 120;
	let vbri = is_vbr && s.chance(1, 4);
	e.desc = format!("{h:?} frames={frames} vbr={is_vbr} vbri={vbri}");
	// the bitrate of every frame
	let hs: Vec<MpegHdr> = (0..frames)
		.map(|_| {
			let mut f = h;
			if is_vbr {
				f.br = s.range(1, 14) as u8;
				// (a frame has to be long enough to hold its side information)
				if f.frame_len() < 60 {
					f = h;
				}
			}
			f
		})
		.collect();
	if is_vbr {
		let total = h.frame_len() + hs.iter().map(|h| h.frame_len()).sum::<usize>();
		let mut f = vec![0u8; h.frame_len()];
		f[..4].copy_from_slice(&h.bytes());
		if vbri {
			// always at the same place
			f[36..40].copy_from_slice(b"VBRI");
			f[40..46].copy_from_slice(&[0, 1, 0x0D, 0xB1, 0, 0x4B]);
			f[46..50].copy_from_slice(&be32(total as u32));
			f[50..54].copy_from_slice(&be32(frames as u32));
		} else {
			let o = h.xing_offset();
			f[o..o + 4].copy_from_slice(if s.bool() { b"Info" } else { b"Xing" });
			let flags = *s.pick(&[3u32, 3, 7, 11, 15]);
			f[o + 4..o + 8].copy_from_slice(&be32(flags));
			f[o + 8..o + 12].copy_from_slice(&be32(frames as u32));
			f[o + 12..o + 16].copy_from_slice(&be32(total as u32));
		}
		out.extend(f);
		let dur = frames as f64 * f64::from(h.samples()) * 1000.0 / f64::from(h.sample_rate());
		e.duration_ms = Some(dur);
		e.duration_tol = 1.5;
		e.audio_bitrate = Some(total as f64 * 8.0 / dur);
		e.bitrate_tol = 1.5 + total as f64 * 8.0 / dur / dur * 1.5;
	}
	for h in &hs {
		let len = h.frame_len();
		out.extend(h.bytes());
		out.extend(safe_blob(s, len - 4));
	}
	if !is_vbr {
		// audio data of the last frame that looks like a header of another kind of stream
		let n = h.frame_len();
		if n > 40 && s.chance(1, 4) {
			let mut f = h;
			match s.below(3) {
				0 => f.layer = h.layer % 3 + 1,
				1 => f.sr = (h.sr + 1) % 3,
				_ => f.version = (h.version + 1) % 3,
			}
			let at = out.len() - n + s.usize(8, n - 8);
			out[at..at + 4].copy_from_slice(&f.bytes());
			e.desc.push_str(" other header in the data");
		}
		let total = frames * h.frame_len();
		e.duration_ms = Some(total as f64 * 8.0 / f64::from(h.bitrate()));
		e.duration_tol = 1.5;
		e.audio_bitrate = Some(f64::from(h.bitrate()));
		e.bitrate_tol = 0.1;
	}
	(out, e)
}

// ------------------------------------------------------------ ADTS

pub const AAC_RATES: [u32; 13] =
	[96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350];

/// the layouts of the MPEG-4 channel configurations
pub const MP4_MASKS: [u32; 8] = [0, 0x4, 0x3, 0x7, 0x107, 0x37, 0x3F, 0x63F];

pub fn adts(mpeg2: bool, profile: u8, sr: u8, ch: u8, crc: bool, original: bool, len: usize) -> [u8; 7] {
	[
		0xFF,
		0xF0 | (u8::from(mpeg2) << 3) | u8::from(!crc),
		(profile << 6) | (sr << 2) | (ch >> 2),
		((ch & 3) << 6) | (u8::from(original) << 5) | ((len >> 11) as u8 & 3),
		(len >> 3) as u8,
		((len as u8 & 7) << 5) | 0x1F,
		0xFC,
	]
}

pub fn gen_aac(s: &mut Src) -> (Vec<u8>, Expect) {
	let sr = s.below(13) as u8;
	let ch = s.range(1, 7) as u8;
	let profile = s.below(4) as u8;
	let mpeg2 = s.bool();
	let crc = s.chance(1, 4);
	let frames = s.usize(3, 10);
	let original = s.bool();
	let fixed = s.bool();
	let base = s.usize(60, 400);
	let mut out = vec![];
	let mut lens = vec![];
	for i in 0..frames {
		let hdr = if crc { 9 } else { 7 };
		let len = if fixed { base } else { (base + 37 * i) % 390 + 20 };
		lens.push(len);
		out.extend(adts(mpeg2, profile, sr, ch, crc, original, len));
		if crc {
			out.extend([0x12, 0x34]);
		}
		out.extend(safe_blob(s, len - hdr));
	}
	let rate = f64::from(AAC_RATES[sr as usize]);
	let dur = frames as f64 * 1024.0 * 1000.0 / rate;
	let kbits = base as f64 * 8.0 * rate / 1024.0 / 1000.0;
	let e = Expect {
		sample_rate: Some(AAC_RATES[sr as usize]),
		channels: Some(if ch == 7 { 8 } else { ch }),
		facts: vec![
			("version", if mpeg2 { "V2" } else { "V4" }.into()),
			(
				"audio_object_type",
				["AacMain", "AacLowComplexity", "AacScalableSampleRate", "AacLongTermPrediction"][usize::from(profile)].into(),
			),
			("original", original.to_string()),
		],
		mask: Some(Some(MP4_MASKS[usize::from(ch)])),
		// frames of 1024 samples; the library counts 1024 bits to the kilobit, in whole ones
		audio_bitrate: fixed.then(|| base as f64 * 8.0 * rate / 1024.0 / 1024.0),
		bitrate_tol: 2.0 + base as f64 * 8.0 * rate / 1024.0 * (1.0 / 1000.0 - 1.0 / 1024.0),
		duration_ms: (fixed && kbits >= 20.0).then_some(dur),
		// (a few bytes of a tag may be taken for audio)
		duration_tol: dur * (0.03 + 2.0 / kbits) + 1.0 + 40.0 * 8.0 / kbits,
		desc: format!("adts mpeg2={mpeg2} profile={profile} sr={sr} ch={ch} crc={crc} lens={lens:?}"),
		..Expect::default()
	};
	(out, e)
}

// ------------------------------------------------------------ Monkey's Audio

pub fn gen_ape(s: &mut Src) -> (Vec<u8>, Expect) {
	let new = s.chance(3, 4);
	let version: u16 = if new { *s.pick(&[3990, 3980, 4000]) } else { *s.pick(&[3970, 3950, 3900, 3800, 3700]) };
	let rate = *s.pick(&[44100u32, 48000, 8000, 96000, 11025]);
	let ch = s.range(1, 2) as u16;
	let frames = s.range(1, 40) as u32;
	let final_blocks = s.range(2, 9000) as u32;
	let mut v = b"MAC ".to_vec();
	v.extend(version.to_le_bytes());
	let bits;
	let blocks_per_frame;
	if new {
		bits = *s.pick(&[16u16, 8, 24]);
		blocks_per_frame = *s.pick(&[73728u32, 294912, 9216]);
		let extra = if s.chance(1, 4) { s.usize(1, 20) } else { 0 };
		// descriptor: padding(2) descriptor_len header_len seek_len header_data_len apedata_len apedata_high terminating md5[16]
		v.extend([0, 0]);
		v.extend(le32(52 + extra as u32));
		v.extend(le32(24));
		v.extend(le32(0));
		v.extend(le32(0));
		v.extend(le32(1000));
		v.extend(le32(0));
		v.extend(le32(0));
		v.extend([7; 16]);
		v.extend(std::iter::repeat_n(0x11, extra));
		v.extend(2000u16.to_le_bytes());
		v.extend(0u16.to_le_bytes());
		v.extend(le32(blocks_per_frame));
		v.extend(le32(final_blocks));
		v.extend(le32(frames));
		v.extend(bits.to_le_bytes());
		v.extend(ch.to_le_bytes());
		v.extend(le32(rate));
	} else {
		let level = *s.pick(&[2000u16, 4000]);
		let flags = *s.pick(&[0u16, 1, 8]);
		bits = match flags {
			1 => 8,
			8 => 24,
			_ => 16,
		};
		blocks_per_frame = match version {
			3950.. => 73728 * 4,
			3900.. => 73728,
			3800.. if level >= 4000 => 73728,
			_ => 9216,
		};
		v.extend(level.to_le_bytes());
		v.extend(flags.to_le_bytes());
		v.extend(ch.to_le_bytes());
		v.extend(le32(rate));
		v.extend(le32(44));
		v.extend(le32(0));
		v.extend(le32(frames));
		v.extend(le32(final_blocks));
	}
	let n = s.size(3000, &[32, 128, 160]);
	v.extend(safe_blob(s, n + 64));
	let samples = u64::from(blocks_per_frame) * u64::from(frames - 1) + u64::from(final_blocks);
	let dur = samples as f64 * 1000.0 / f64::from(rate);
	let e = Expect {
		sample_rate: Some(rate),
		channels: Some(ch as u8),
		bit_depth: Some(bits as u8),
		duration_ms: Some(dur),
		duration_tol: 1.0,
		audio_bitrate: Some(v.len() as f64 * 8.0 / dur),
		bitrate_tol: 1.0,
		facts: vec![("version", version.to_string())],
		mask: Some(None),
		desc: format!("ape version={version} rate={rate} ch={ch} bits={bits} frames={frames} final={final_blocks} bpf={blocks_per_frame}"),
	};
	(v, e)
}

// ------------------------------------------------------------ WavPack

pub const WV_RATES: [u32; 15] = [
	6000, 8000, 9600, 11025, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 64000, 88200, 96000, 192_000,
];

/// A metadata sub-block: `id`, data padded to an even length.
fn wv_sub(id: u8, data: &[u8]) -> Vec<u8> {
	let words = data.len().div_ceil(2);
	let mut v = vec![];
	let odd = if data.len() % 2 == 1 { 0x40 } else { 0 };
	if words > 255 {
		v.push(id | odd | 0x80);
		v.extend(&(words as u32).to_le_bytes()[..3]);
	} else {
		v.extend([id | odd, words as u8]);
	}
	v.extend(data);
	if odd != 0 {
		v.push(0);
	}
	v
}

/// The channel information sub-block: the short form, or the one for any number of channels
fn wv_channels(channels: u16, mask: u32, streams: u16, long: bool) -> Vec<u8> {
	let bytes = mask.to_le_bytes();
	let top = 4 - mask.leading_zeros() as usize / 8;
	if long {
		let (c, t) = (channels - 1, streams - 1);
		let mut v = vec![c as u8, t as u8, ((c >> 8) as u8 & 0xF) | ((t >> 4) as u8 & 0xF0)];
		v.extend(&bytes[..top.max(3)]);
		v
	} else {
		let mut v = vec![channels as u8];
		v.extend(&bytes[..top]);
		v
	}
}

pub fn gen_wavpack(s: &mut Src) -> (Vec<u8>, Expect) {
	let sr_idx = s.below(16) as usize;
	let bytes = s.below(4) as u32; // bytes per sample - 1
	let shift = if bytes > 0 && s.chance(1, 4) { s.range(0, 7) as u32 } else { 0 };
	let mono = s.bool();
	let hybrid = s.chance(1, 4);
	let blocks = s.usize(1, 4);
	let total_samples = s.range(1000, 2_000_000) as u32;
	let custom_rate = s.range(1, 0xFF_FFFF) as u32;
	let empty_first = s.chance(1, 5);
	let version = s.range(0x402, 0x410) as u16;
	let dsd = s.chance(1, 10).then(|| s.range(0, 5) as u8);
	// more than two channels: several blocks hold the same samples
	let long = s.chance(1, 3);
	let streams = if s.chance(1, 3) { s.usize(2, 4) } else { 1 };
	let channels = if streams == 1 {
		if mono { 1 } else { 2 }
	} else if long && s.chance(1, 4) {
		s.range(256, 4096) as u16
	} else {
		s.range(3, 8) as u16
	};
	// mono and stereo only state their layout when it isn't the usual one
	let unusual = streams == 1 && s.chance(1, 5);
	let mask = match streams {
		1 if mono && unusual => *s.pick(&[1, 8, 0x100]),
		1 if unusual => *s.pick(&[0xC, 0x30, 0x600]),
		1 if mono => 4,
		1 => 3,
		_ => match s.below(5) {
			0 => 0,
			1 => 0x63F,
			2 => 0x3_F000,
			3 => 0x8000_0000,
			_ => 0x3F,
		},
	};
	let mut v = vec![];
	let mut flags = bytes | (shift << 13) | ((sr_idx as u32) << 23);
	if mono {
		flags |= 4;
	}
	if hybrid {
		flags |= 8;
	}
	if dsd.is_some() {
		flags |= 0x8000_0000;
	}
	let n = s.size(1500, &[]);
	let info = wv_channels(channels, mask, streams as u16, long);
	let before = s.chance(1, 3).then(|| s.usize(0, 9));
	for i in 0..blocks + usize::from(empty_first) {
		for j in 0..streams {
			let mut body = vec![];
			if let Some(n) = before {
				body.extend(wv_sub(0x02, &vec![0x11; n]));
			}
			if sr_idx == 15 {
				body.extend(wv_sub(0x27, &custom_rate.to_le_bytes()[..3]));
			}
			if let Some(d) = dsd {
				body.extend(wv_sub(0x0E, &[d, 1, 0]));
			}
			if (streams > 1 || unusual) && j == 0 {
				body.extend(wv_sub(0x0D, &info));
			}
			body.extend(wv_sub(0x25, &[1, 2, 3][..s.usize(0, 3)]));
			let m = n & !1;
			body.push(0x0A | 0x80);
			let words = m as u32 / 2;
			body.extend(&words.to_le_bytes()[..3]);
			body.extend(safe_blob(s, m));
			let f = flags | if j == 0 { 0x800 } else { 0 } | if j == streams - 1 { 0x1000 } else { 0 };
			v.extend(b"wvpk");
			v.extend(le32(24 + body.len() as u32));
			v.extend(version.to_le_bytes());
			v.extend([0, 0]);
			v.extend(le32(total_samples));
			v.extend(le32(i as u32));
			v.extend(le32(if empty_first && i == 0 { 0 } else { 500 }));
			v.extend(le32(f));
			v.extend(le32(0xDEAD_BEEF));
			v.extend(body);
		}
	}
	let rate = if sr_idx == 15 { custom_rate } else { WV_RATES[sr_idx] };
	let rate = rate << dsd.unwrap_or(0);
	let dur = f64::from(total_samples) * 1000.0 / f64::from(rate);
	let e = Expect {
		sample_rate: Some(rate),
		channels: (channels < 256).then_some(channels as u8),
		bit_depth: Some(((bytes + 1) * 8).saturating_sub(shift) as u8),
		duration_ms: Some(dur),
		duration_tol: 1.0,
		audio_bitrate: Some(v.len() as f64 * 8.0 / dur),
		bitrate_tol: 1.0,
		facts: vec![
			("version", version.to_string()),
			("lossless", (!hybrid).to_string()),
			("channels", channels.to_string()),
			("channel_mask", mask.to_string()),
		],
		mask: Some((mask != 0).then_some(mask)),
		desc: format!("wavpack version={version:x} sr_idx={sr_idx} rate={rate} bytes={} shift={shift} mono={mono} blocks={blocks} samples={total_samples} empty_first={empty_first} streams={streams} channels={channels} mask={mask:x} long={long} dsd={dsd:?} hybrid={hybrid} n={n}", bytes + 1),
	};
	(v, e)
}

// ------------------------------------------------------------ Musepack

pub fn gen_mpc(s: &mut Src) -> (Vec<u8>, Expect) {
	match s.below(3) {
		0 => gen_mpc7(s),
		1 => gen_mpc8(s),
		_ => gen_mpc_old(s),
	}
}

const MPC_RATES: [u32; 4] = [44100, 48000, 37800, 32000];

const MPC_PROFILES: [&str; 16] = [
	"None", "Unstable", "Unused", "Unused", "Unused", "BelowTelephone0", "BelowTelephone1", "Telephone", "Thumb", "Radio", "Standard",
	"Xtreme", "Insane", "BrainDead", "AboveBrainDead9", "AboveBrainDead10",
];

pub fn gen_mpc7(s: &mut Src) -> (Vec<u8>, Expect) {
	let frames = s.range(1, 20000) as u32;
	let sr = s.below(4) as usize;
	let gapless = s.bool();
	let last = s.range(1, 1152) as u32;
	let fast = s.bool();
	let (is, ms, band, profile, link) = (s.chance(1, 8), s.bool(), s.below(32) as u8, s.below(16) as u8, s.below(4) as u8);
	let level = s.below(0x10000) as u16;
	let encoder = *s.pick(&[119u8, 0, 1, 115, 255]);
	let mut v = b"MP+".to_vec();
	v.push(*s.pick(&[0x07u8, 0x17]));
	v.extend(le32(frames));
	let flags = (u32::from(is) << 31)
		| (u32::from(ms) << 30)
		| (u32::from(band) << 24)
		| (u32::from(profile) << 20)
		| (u32::from(link) << 18)
		| ((sr as u32) << 16)
		| u32::from(level);
	v.extend(le32(flags));
	// replay gain in the old form: 100ths of a dB, and the largest sample value
	let gains: Vec<(u16, u16)> = (0..2)
		.map(|_| {
			let peak = if s.chance(1, 4) { 0 } else { s.range(1, 65535) as u16 };
			let gain = if s.chance(1, 4) { 0 } else { s.range(1, 6482) as u16 };
			(peak, gain)
		})
		.collect();
	for (p, g) in &gains {
		v.extend(p.to_le_bytes());
		v.extend(g.to_le_bytes());
	}
	v.extend(le32((u32::from(gapless) << 31) | (last << 20) | (u32::from(fast) << 19)));
	v.push(encoder);
	let n = s.size(2000, &[]);
	v.extend(safe_blob(s, n + 64));
	let rate = f64::from(MPC_RATES[sr]);
	let samples = f64::from(frames) * 1152.0 - if gapless { 1152.0 - f64::from(last) } else { 481.0 };
	let dur = samples * 1000.0 / rate;
	let mut facts = vec![
		("frame_count", frames.to_string()),
		("intensity_stereo", is.to_string()),
		("mid_side_stereo", ms.to_string()),
		("max_band", band.to_string()),
		("profile", MPC_PROFILES[usize::from(profile)].to_string()),
		("link", ["VeryLowStartOrEnd", "LoudEnd", "LoudStart", "LoudStartAndEnd"][usize::from(link)].into()),
		("max_level", level.to_string()),
		("true_gapless", gapless.to_string()),
		("last_frame_length", if gapless { last } else { 0 }.to_string()),
		("fast_seeking_safe", fast.to_string()),
		("encoder_version", encoder.to_string()),
	];
	for ((p, g), (pn, gn)) in gains.iter().zip([("title_peak", "title_gain"), ("album_peak", "album_gain")]) {
		// as Musepack 8 states them: 256ths of a dB, below the old reference level
		facts.push((pn, format!("~{}", if *p == 0 { 0.0 } else { f64::from(*p).log10() * 20.0 * 256.0 })));
		facts.push((gn, format!("~{}", if *g == 0 { 0.0 } else { (64.82 - f64::from(*g) / 100.0) * 256.0 })));
	}
	let e = Expect {
		sample_rate: Some(MPC_RATES[sr]),
		channels: Some(2),
		duration_ms: Some(dur),
		// the frame count bounds the duration; whether the last frame is trimmed is not stated
		duration_tol: 1152.0 * 1000.0 / rate + 1.0,
		audio_bitrate: Some(v.len() as f64 * 8.0 / dur),
		bitrate_tol: 1.5,
		facts,
		mask: Some(None),
		desc: format!("mpc7 frames={frames} sr={sr} gapless={gapless} last={last} gains={gains:?}"),
		..Expect::default()
	};
	(v, e)
}

pub fn mpc8_size(n: u64) -> Vec<u8> {
	let mut out = vec![(n & 0x7F) as u8];
	let mut n = n >> 7;
	while n > 0 {
		out.push((n & 0x7F) as u8 | 0x80);
		n >>= 7;
	}
	out.reverse();
	out
}

fn mpc8_packet(key: &[u8; 2], body: &[u8]) -> Vec<u8> {
	// the size field covers key, size field and payload
	let mut n = body.len() as u64 + 3;
	while mpc8_size(n).len() as u64 + 2 + body.len() as u64 != n {
		n += 1;
	}
	let mut v = key.to_vec();
	v.extend(mpc8_size(n));
	v.extend(body);
	v
}

pub fn gen_mpc8(s: &mut Src) -> (Vec<u8>, Expect) {
	let samples = s.range(1, 50_000_000);
	let silence = if s.chance(1, 8) { samples } else { s.below(samples.min(5000)) };
	let sr = s.below(4) as usize;
	let ch = s.range(1, 16) as u8;
	let bands = s.range(1, 32) as u8;
	let ms = s.bool();
	let frames = s.below(8) as u8;
	let crc = s.u32();
	let mut v = b"MPCK".to_vec();
	let mut sh = crc.to_be_bytes().to_vec();
	sh.push(8);
	sh.extend(mpc8_size(samples));
	sh.extend(mpc8_size(silence));
	sh.push(((sr as u8) << 5) | (bands - 1));
	sh.push(((ch - 1) << 4) | (u8::from(ms) << 3) | frames);
	let mut facts = vec![
		("version", "8".into()),
		(
			"stream_header",
			format!("{crc} 8 {samples} {silence} {} {bands} {ch} {ms} {}", MPC_RATES[sr], 4u32.pow(u32::from(frames))),
		),
	];
	let mut head = vec![mpc8_packet(b"SH", &sh)];
	let g: Vec<u16> = (0..4).map(|_| s.below(0x10000) as u16).collect();
	let mut rg = vec![1];
	rg.extend(g.iter().flat_map(|x| x.to_be_bytes()));
	facts.push(("replay_gain", format!("1 {} {} {} {}", g[0], g[1], g[2], g[3])));
	head.push(mpc8_packet(b"RG", &rg));
	if s.bool() {
		let (profile, pns, major, minor, build) = (s.below(128) as u8, s.bool(), s.u8(), s.u8(), s.u8());
		facts.push(("encoder_info", format!("Some({} {pns} {major} {minor} {build})", f64::from(profile) / 8.0)));
		head.push(mpc8_packet(b"EI", &[(profile << 1) | u8::from(pns), major, minor, build]));
	} else {
		facts.push(("encoder_info", "None".into()));
	}
	if s.chance(1, 4) {
		// a packet this version knows nothing about
		let n = s.size(300, &[124, 125, 126]);
		let b = safe_blob(s, n);
		head.push(mpc8_packet(b"SO", &b));
	}
	for p in head {
		v.extend(p);
	}
	let packets = s.usize(1, 4);
	for _ in 0..packets {
		let n = s.size(1000, &[126, 127, 128]);
		let b = safe_blob(s, n);
		v.extend(mpc8_packet(b"AP", &b));
	}
	v.extend(mpc8_packet(b"SE", &[]));
	let dur = (samples - silence) as f64 * 1000.0 / f64::from(MPC_RATES[sr]);
	let e = Expect {
		sample_rate: Some(MPC_RATES[sr]),
		channels: Some(ch),
		duration_ms: Some(dur),
		duration_tol: 1.0,
		facts,
		mask: Some(None),
		desc: format!("mpc8 samples={samples} silence={silence} sr={sr} ch={ch}"),
		..Expect::default()
	};
	(v, e)
}

pub fn gen_mpc_old(s: &mut Src) -> (Vec<u8>, Expect) {
	let version = s.range(4, 6) as u32;
	let frames = s.range(2, 20000) as u32;
	let ms = s.bool();
	let band = s.below(32) as u32;
	let w0 = (u32::from(ms) << 21) | (version << 11) | (band << 6) | 1;
	let mut v = vec![];
	v.extend(le32(w0));
	v.extend(le32(if version >= 5 { frames } else { frames << 16 }));
	let n = s.size(2000, &[]);
	v.extend(safe_blob(s, n + 64));
	let f = if version < 6 { frames - 1 } else { frames };
	let dur = f64::from(f) * 1152.0 / 44.1;
	let e = Expect {
		sample_rate: Some(44100),
		channels: Some(2),
		duration_ms: Some(dur),
		duration_tol: 1152.0 / 44.1 + 1.0,
		facts: vec![
			("stream_version", version.to_string()),
			("mid_side_stereo", ms.to_string()),
			("max_band", band.to_string()),
			("frame_count", f.to_string()),
		],
		mask: Some(None),
		desc: format!("mpc sv{version} frames={frames}"),
		..Expect::default()
	};
	(v, e)
}
