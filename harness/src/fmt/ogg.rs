//! Ogg pages, packets and the Vorbis/Opus/Speex headers.

use super::*;

pub fn crc(data: &[u8]) -> u32 {
	// bitwise, polynomial 0x04C11DB7, no reflection
	let mut c = 0u32;
	for &b in data {
		c ^= u32::from(b) << 24;
		for _ in 0..8 {
			c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x04C1_1DB7 } else { c << 1 };
		}
	}
	c
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Page {
	pub flags: u8,
	pub granule: u64,
	pub serial: u32,
	pub seq: u32,
	pub segs: Vec<u8>,
	pub body: Vec<u8>,
}

impl Page {
	pub fn to_bytes(&self) -> Vec<u8> {
		let mut v = b"OggS".to_vec();
		v.push(0);
		v.push(self.flags);
		v.extend(self.granule.to_le_bytes());
		v.extend(self.serial.to_le_bytes());
		v.extend(self.seq.to_le_bytes());
		v.extend([0; 4]);
		v.push(self.segs.len() as u8);
		v.extend(&self.segs);
		v.extend(&self.body);
		let c = crc(&v);
		v[22..26].copy_from_slice(&c.to_le_bytes());
		v
	}
}

pub fn parse_pages(data: &[u8]) -> Result<Vec<Page>, String> {
	let mut pages = vec![];
	let mut p = 0;
	while p < data.len() {
		let d = &data[p..];
		if d.len() < 27 || !d.starts_with(b"OggS") {
			return Err(format!("no page header at {p}"));
		}
		if d[4] != 0 {
			return Err("stream structure version".into());
		}
		let n = d[26] as usize;
		if d.len() < 27 + n {
			return Err("segment table cut".into());
		}
		let segs = d[27..27 + n].to_vec();
		let body: usize = segs.iter().map(|x| *x as usize).sum();
		let total = 27 + n + body;
		if d.len() < total {
			return Err(format!("page at {p} cut"));
		}
		let mut copy = d[..total].to_vec();
		copy[22..26].fill(0);
		let want = rd_le32(&d[22..]);
		if crc(&copy) != want {
			return Err(format!("bad checksum in page {} at {p}", pages.len()));
		}
		pages.push(Page {
			flags: d[5],
			granule: rd_le64(&d[6..]),
			serial: rd_le32(&d[14..]),
			seq: rd_le32(&d[18..]),
			segs,
			body: d[27 + n..total].to_vec(),
		});
		p += total;
	}
	Ok(pages)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Packet {
	pub data: Vec<u8>,
	/// index of the page the packet ends on
	pub page: usize,
	pub complete: bool,
}

/// Splits one logical stream's pages into packets, checking continuation marks and sequence numbers.
pub fn packets(pages: &[Page]) -> Result<Vec<Packet>, String> {
	let mut out = vec![];
	let mut cur: Option<Vec<u8>> = None;
	for (i, pg) in pages.iter().enumerate() {
		if i > 0 && pg.seq != pages[i - 1].seq.wrapping_add(1) {
			return Err(format!("page {i} has sequence number {} after {}", pg.seq, pages[i - 1].seq));
		}
		if pg.serial != pages[0].serial {
			return Err(format!("page {i} has serial {:x}, the stream {:x}", pg.serial, pages[0].serial));
		}
		let cont = pg.flags & 1 != 0;
		if cont != cur.is_some() {
			return Err(format!("page {i}: continuation flag {cont} but open packet {}", cur.is_some()));
		}
		let mut off = 0;
		for &s in &pg.segs {
			let c = cur.get_or_insert_with(Vec::new);
			c.extend(&pg.body[off..off + s as usize]);
			off += s as usize;
			if s < 255 {
				out.push(Packet { data: cur.take().unwrap(), page: i, complete: true });
			}
		}
	}
	if let Some(c) = cur {
		out.push(Packet { data: c, page: pages.len() - 1, complete: false });
	}
	Ok(out)
}

/// Lays packets out in pages.
/// `pages_plan`: maximum segments per page for each page in turn (repeats the last).
pub fn paginate(
	packets: &[Vec<u8>], serial: u32, first_seq: u32, granules: &[u64], max_segs: &[usize], break_after: &[usize],
) -> Vec<Page> {
	let mut pages: Vec<Page> = vec![];
	let mut cur = Page { flags: 0, granule: u64::MAX, serial, seq: first_seq, segs: vec![], body: vec![] };
	let flush = |cur: &mut Page, pages: &mut Vec<Page>, cont: bool| {
		let next = Page {
			flags: u8::from(cont),
			granule: u64::MAX,
			serial,
			seq: cur.seq.wrapping_add(1),
			segs: vec![],
			body: vec![],
		};
		pages.push(std::mem::replace(cur, next));
	};
	let lim = |n: usize| -> usize { (*max_segs.get(n).or(max_segs.last()).unwrap_or(&255)).clamp(1, 255) };
	for (i, p) in packets.iter().enumerate() {
		let mut rest = &p[..];
		let mut started = false;
		loop {
			if cur.segs.len() >= lim(pages.len()) {
				flush(&mut cur, &mut pages, started);
			}
			let n = rest.len().min(255);
			cur.segs.push(n as u8);
			cur.body.extend(&rest[..n]);
			rest = &rest[n..];
			started = true;
			if n < 255 {
				break;
			}
		}
		cur.granule = granules.get(i).copied().unwrap_or(0);
		if break_after.contains(&i) && i + 1 != packets.len() {
			flush(&mut cur, &mut pages, false);
		}
	}
	if !cur.segs.is_empty() {
		pages.push(cur);
	}
	pages
}

#[derive(Clone, Debug)]
pub struct Ogg {
	pub kind: Kind,
	pub pages: Vec<Page>,
}

impl Ogg {
	pub fn to_bytes(&self) -> Vec<u8> {
		self.pages.iter().flat_map(|p| p.to_bytes()).collect()
	}
}

pub fn comment_prefix(k: Kind) -> &'static [u8] {
	match k {
		Kind::Vorbis => b"\x03vorbis",
		Kind::Opus => b"OpusTags",
		_ => b"",
	}
}

/// number of header packets
pub fn header_packets(k: Kind) -> usize {
	if k == Kind::Vorbis { 3 } else { 2 }
}

pub fn essence(k: Kind, data: &[u8]) -> Result<Vec<(String, Vec<u8>)>, String> {
	let pages = parse_pages(data)?;
	let pk = packets(&pages)?;
	if pk.len() < header_packets(k) {
		return Err(format!("only {} packets", pk.len()));
	}
	if pk.iter().any(|p| !p.complete) {
		return Err("last packet incomplete".into());
	}
	let mut out = vec![("serial".to_string(), pages[0].serial.to_le_bytes().to_vec())];
	for (i, p) in pk.iter().enumerate() {
		if i == 1 {
			if !p.data.starts_with(comment_prefix(k)) {
				return Err("second packet is not the comment header".into());
			}
			continue;
		}
		out.push((format!("packet{i}"), p.data.clone()));
	}
	// granule positions: for each audio packet, the granule of the page if it is the last one ending there
	let h = header_packets(k);
	for (i, p) in pk.iter().enumerate().skip(h) {
		let last = pk.get(i + 1).is_none_or(|n| n.page != p.page);
		if last {
			out.push((format!("granule after packet{i}"), pages[p.page].granule.to_le_bytes().to_vec()));
		}
	}
	for (i, p) in pages.iter().enumerate() {
		if (p.flags & 2 != 0) != (i == 0) {
			return Err(format!("begin-of-stream mark on page {i}"));
		}
		let audio_page = pk.iter().enumerate().any(|(j, q)| j >= h && q.page == i);
		if p.flags & 4 != 0 {
			out.push((format!("end-of-stream audio={audio_page} last={}", i + 1 == pages.len()), vec![]));
		}
		// header pages must not carry a bogus granule position: 0 or none
		let only_headers = pk.iter().enumerate().all(|(j, q)| q.page != i || j < h);
		if only_headers && pk.iter().any(|q| q.page == i) && p.granule != 0 {
			out.push((format!("header page granule {}", p.granule), vec![]));
		}
	}
	// headers must be flushed before the audio begins
	let hp = pk[h - 1].page;
	if pk.get(h).is_some_and(|a| a.page == hp) {
		out.push(("audio shares the last header page".into(), vec![]));
	}
	Ok(out)
}

pub fn vorbis_ident(ch: u8, rate: u32, nominal: i32, limits: (i32, i32)) -> Vec<u8> {
	let mut v = b"\x01vorbis".to_vec();
	v.extend(le32(0));
	v.push(ch);
	v.extend(le32(rate));
	v.extend(limits.1.to_le_bytes());
	v.extend(nominal.to_le_bytes());
	v.extend(limits.0.to_le_bytes());
	v.push(0xB8);
	v.push(1);
	v
}

pub fn opus_ident(version: u8, ch: u8, preskip: u16, rate: u32, gain: i16, family: u8) -> Vec<u8> {
	let mut v = b"OpusHead".to_vec();
	v.push(version);
	v.push(ch);
	v.extend(preskip.to_le_bytes());
	v.extend(le32(rate));
	v.extend(gain.to_le_bytes());
	if family > 0 {
		v.push(family);
		v.push(ch);
		v.push(0);
		v.extend((0..ch).collect::<Vec<_>>());
	} else {
		v.push(0);
	}
	v
}

/// (channels by the mapping families 0 and 1, as in RFC 7845)
pub const OPUS_MASKS: [u32; 9] = [0, 0x4, 0x3, 0x7, 0x33, 0x37, 0x3F, 0x70F, 0x63F];

pub fn speex_ident(ch: u32, rate: u32, nominal: i32, mode: u32, vbr: bool) -> Vec<u8> {
	let mut v = b"Speex   1.2rc1\0\0\0\0\0\0\0\0\0\0\0\0\0\0".to_vec();
	v.extend(le32(1)); // version id
	v.extend(le32(80)); // header size
	v.extend(le32(rate));
	v.extend(le32(mode));
	v.extend(le32(4)); // mode bitstream version
	v.extend(le32(ch));
	v.extend(nominal.to_le_bytes());
	v.extend(le32(320)); // frame size
	v.extend(le32(u32::from(vbr)));
	v.extend(le32(1)); // frames per packet
	v.extend(le32(0)); // extra headers
	v.extend(le32(0));
	v.extend(le32(0));
	v
}

pub struct OggParams {
	pub comment: Vec<u8>,
}

pub fn gen_ogg(s: &mut Src, k: Kind) -> (Ogg, Expect) {
	let c = tags::vc_encode("vendor", &[]);
	gen_ogg_with(s, k, &c, &[])
}

/// `comment`: encoded comment list without prefix and framing bit; `trailer`: bytes after it in the packet
pub fn gen_ogg_with(s: &mut Src, k: Kind, comment: &[u8], trailer: &[u8]) -> (Ogg, Expect) {
	let serial = s.u32();
	let mut ch = s.range(1, if k == Kind::Speex { 2 } else { 8 }) as u8;
	let rate = *s.pick(&[44100u32, 48000, 8000, 16000, 32000]);
	let nominal = *s.pick(&[128_000i32, 0, 64_000, 27_800]);
	let preskip = *s.pick(&[312u16, 0, 3840]);
	let mut pk: Vec<Vec<u8>> = vec![];
	let mut facts = vec![];
	let mut mask = None;
	pk.push(match k {
		Kind::Vorbis => {
			let limits = if s.bool() { (0, 0) } else { (s.range(1, 60_000) as i32, s.range(60_000, 500_000) as i32) };
			facts.push(("version", "0".to_string()));
			facts.push(("bitrate_min", limits.0.to_string()));
			facts.push(("bitrate_max", limits.1.to_string()));
			facts.push(("bitrate_nominal", nominal.to_string()));
			vorbis_ident(ch, rate, nominal, limits)
		},
		Kind::Opus => {
			let family = match ch {
				..=2 if s.chance(3, 4) => 0,
				_ => *s.pick(&[1u8, 1, 1, 255]),
			};
			if family == 255 {
				ch = s.range(1, 40) as u8;
			}
			let gain = if s.bool() { 0 } else { s.below(0x10000) as u16 as i16 };
			let version = *s.pick(&[1u8, 1, 0, 15]);
			mask = if family == 255 { None } else { Some(OPUS_MASKS[usize::from(ch)]) };
			facts.push(("version", version.to_string()));
			facts.push(("input_sample_rate", rate.to_string()));
			facts.push(("output_gain", format!("~{}", f64::from(gain) / 256.0)));
			facts.push(("channel_mask", mask.unwrap_or(0).to_string()));
			opus_ident(version, ch, preskip, rate, gain, family)
		},
		_ => {
			let mode = s.below(3) as u32;
			let vbr = s.bool();
			facts.push(("version", "1".into()));
			facts.push(("mode", mode.to_string()));
			facts.push(("vbr", vbr.to_string()));
			facts.push(("nominal_bitrate", nominal.to_string()));
			speex_ident(u32::from(ch), rate, nominal, mode, vbr)
		},
	});
	let mut c = comment_prefix(k).to_vec();
	c.extend(comment);
	if k == Kind::Vorbis {
		c.push(1);
	}
	c.extend(trailer);
	pk.push(c);
	if k == Kind::Vorbis {
		let n = s.size(6000, &[255, 510, 4080]);
		let mut b = b"\x05vorbis".to_vec();
		b.extend(s.blob(n));
		pk.push(b);
	}
	let h = pk.len();
	let audio = s.usize(1, 8);
	let style = s.below(4);
	for _ in 0..audio {
		let n = match style {
			0 => s.size(300, &[255, 254]),
			1 => s.size(3000, &[255, 510, 765, 1020]),
			2 => s.size(20000, &[255 * 17]),
			_ => s.size(70000, &[255 * 255, 65025]),
		};
		pk.push(s.blob(n));
	}
	let max_segs: Vec<usize> = match s.below(4) {
		0 => vec![255],
		1 => vec![255, 3, 7, 1, 255],
		2 => vec![255, 17],
		_ => vec![255, 1],
	};
	let mut brk = vec![0usize, h - 1];
	if k == Kind::Vorbis && s.chance(1, 3) {
		brk.push(1);
	}
	let per_page = s.usize(1, 4);
	for i in h..h + audio {
		if (i - h) % per_page == per_page - 1 {
			brk.push(i);
		}
	}
	let step = s.range(100, 5000);
	let start = if s.chance(1, 4) { s.below(100_000) } else { 0 };
	let mut g = vec![0u64; h];
	for i in 0..audio {
		g.push(start + u64::from(preskip) + step * (i as u64 + 1));
	}
	let seq0 = 0;
	let mut pages = paginate(&pk, serial, seq0, &g, &max_segs, &brk);
	pages[0].flags |= 2;
	let n = pages.len();
	let eos = !s.chance(1, 8);
	if eos {
		pages[n - 1].flags |= 4;
	}
	let total = *g.last().unwrap() - if k == Kind::Opus { u64::from(preskip) } else { 0 };
	let dur = total as f64 * 1000.0 / if k == Kind::Opus { 48_000.0 } else { f64::from(rate) };
	let header_pages = paginate(&pk[..h], serial, seq0, &g, &max_segs, &brk).len();
	let audio_bytes: usize = pages[header_pages..].iter().map(|p| p.to_bytes().len()).sum();
	let e = Expect {
		// (the position of the first sample is not stated by the headers)
		duration_ms: (start == 0).then_some(dur),
		duration_tol: 1.0,
		audio_bitrate: match k {
			Kind::Opus if start == 0 && dur >= 1.0 => Some(audio_bytes as f64 * 8.0 / dur),
			Kind::Opus => None,
			_ if nominal > 0 => Some(f64::from(nominal / 1000)),
			_ => None,
		},
		bitrate_tol: if k == Kind::Opus { 1.5 + audio_bytes as f64 * 8.0 / dur / dur } else { 0.0 },
		desc: format!(
			"{} serial={serial:x} ch={ch} rate={rate} nominal={nominal} packets={:?} pages={} segs={:?} break={brk:?} eos={eos}",
			k.name(),
			pk.iter().map(Vec::len).collect::<Vec<_>>(),
			n,
			max_segs,
		),
		sample_rate: Some(rate),
		channels: Some(ch),
		facts,
		mask: Some(mask),
		..Expect::default()
	};
	(Ogg { kind: k, pages }, e)
}
