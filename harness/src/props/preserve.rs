//! C06-C10: tagging changes nothing but the tag.

use crate::engine::{Case, Fail, Property, R, Src, Suite, fail, guard};
use crate::ensure;
use crate::fmt::{self, Kind, flac, mp4, ogg, raw, riff, tags};
use crate::lg::{self, NTag};
use crate::util::{Mem, first_diff};
use lofty::config::WriteOptions;
use lofty::tag::{TagExt, TagType};

pub enum Op {
	SaveNative(NTag),
	SaveGeneric(lofty::tag::Tag),
	Remove(TagType),
}

impl Op {
	pub fn ty(&self) -> TagType {
		match self {
			Op::SaveNative(t) => t.ty(),
			Op::SaveGeneric(t) => t.tag_type(),
			Op::Remove(t) => *t,
		}
	}
	pub fn name(&self) -> &'static str {
		match self {
			Op::SaveNative(_) => "save",
			Op::SaveGeneric(_) => "save-generic",
			Op::Remove(_) => "remove",
		}
	}
	/// the operation leaves no tag of its type
	pub fn strips(&self) -> bool {
		match self {
			Op::SaveNative(t) => t.is_empty(),
			Op::SaveGeneric(t) => NTag::from_generic(t.clone()).is_empty(),
			Op::Remove(_) => true,
		}
	}
	pub fn describe(&self) -> String {
		match self {
			Op::SaveNative(t) => format!("save {}", t.describe()),
			Op::SaveGeneric(t) => format!("save generic {:?} {:?}", t.tag_type(), lg::c_tag(t)).chars().take(500).collect(),
			Op::Remove(t) => format!("remove {t:?}"),
		}
	}
	pub fn apply(&self, f: &mut Mem, o: WriteOptions) -> Result<(), lofty::error::FileEncodingError> {
		f.pos = 0;
		match self {
			Op::SaveNative(t) => t.save(f, o),
			Op::SaveGeneric(t) => t.save_to(f, o),
			Op::Remove(t) => t.remove_from(f, o),
		}
	}
}

pub fn gen_op(s: &mut Src, k: Kind) -> Op {
	let w = lg::writable(k);
	let ro = lg::read_only(k);
	match s.weighted(&[5, 3, 2]) {
		0 => {
			let ty = *s.pick(w);
			Op::SaveNative(lg::plain_native(s, ty))
		},
		1 => {
			let ty = *s.pick(w);
			Op::SaveGeneric(lg::plain_generic(s, ty))
		},
		_ => {
			let all: Vec<TagType> = w.iter().chain(ro).copied().collect();
			Op::Remove(*s.pick(&all))
		},
	}
}

/// Short stable form of an error for signatures.
pub fn esig(e: &dyn std::fmt::Display) -> String {
	let s: String = e.to_string().chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(80).collect();
	s
}

pub fn do_op(c: &mut Case, k: Kind, op: &Op, o: WriteOptions, data: Vec<u8>) -> Result<Vec<u8>, Fail> {
	c.note(|| format!("{} with padding {:?}", op.describe(), o));
	let mut f = Mem::new(data);
	match guard(|| op.apply(&mut f, o)) {
		Err(p) => fail(format!("{} {:?} in {}: {}", op.name(), op.ty(), k.name(), p.sig), p.msg),
		Ok(Err(e)) => fail(
			format!("{} {:?} in {} refused: {}", op.name(), op.ty(), k.name(), esig(&e)),
			format!("a valid tag could not be saved to a well-formed file: {e} ({e:?})"),
		),
		Ok(Ok(())) => Ok(f.data),
	}
}

fn label(k: Kind, op: &Op, what: &str) -> String {
	format!("{} {:?} in {}: {what}", op.name(), op.ty(), k.name())
}

// ------------------------------------------------------------ raw streams

pub fn foreign_id3v2(s: &mut Src) -> Vec<u8> {
	let pad = if s.bool() { s.size(600, &[10, 127, 128]) } else { 0 };
	let mut t = tags::id3v24(
		&[(b"TIT2", tags::id3_text("foreign title")), (b"TPE1", tags::id3_text("foreign artist"))],
		pad,
	);
	if pad == 0 && s.chance(1, 4) {
		// footer
		t[5] |= 0x10;
		let mut f = b"3DI".to_vec();
		f.extend(&t[3..10].to_vec());
		t.extend(f);
	} else if s.chance(1, 4) {
		t[3] = 3; // 2.3, sizes below 128 are the same in both
		t[9] = t[9];
	}
	t
}

pub fn foreign_ape(s: &mut Src) -> Vec<u8> {
	let header = !s.chance(1, 4);
	let version = if header { 2000 } else { *s.pick(&[1000, 2000]) };
	let n = s.usize(0, 3);
	let mut items = vec![];
	for i in 0..n {
		items.push(tags::ApeIt { key: format!("Key {i}"), ty: 0, read_only: false, value: vec![b'v'; s.usize(1, 60)] });
	}
	tags::ape_encode(&items, header, version)
}

pub fn gen_parts(s: &mut Src, k: Kind) -> raw::Parts {
	let audio = fmt::gen_plain(s, k);
	gen_parts_with(s, k, audio)
}

pub fn gen_parts_with(s: &mut Src, k: Kind, audio: Vec<u8>) -> raw::Parts {
	let mut p = raw::Parts { audio, ..Default::default() };
	if matches!(k, Kind::Mp3 | Kind::Aac | Kind::Ape | Kind::Mpc) && s.chance(1, 2) {
		p.id3v2.push(foreign_id3v2(s));
		if matches!(k, Kind::Mp3 | Kind::Aac) && s.chance(1, 6) {
			p.id3v2.push(foreign_id3v2(s));
		}
	}
	if k != Kind::Aac && s.chance(1, 2) {
		p.ape = Some(foreign_ape(s));
	}
	if matches!(k, Kind::Mp3 | Kind::WavPack | Kind::Ape) && s.chance(1, 8) {
		p.lyrics3 = Some(raw::lyrics3(s));
	}
	if s.chance(1, 2) {
		let t = s.range(0, 20) as u8;
		p.id3v1 = Some(tags::id3v1("old title", "old artist", "", "1999", "c", t, 12));
	}
	p
}

pub fn describe_parts(p: &raw::Parts) -> String {
	format!(
		"id3v2={:?} lead_ape={:?} audio={} ape={:?} lyrics3={:?} id3v1={}",
		p.id3v2.iter().map(Vec::len).collect::<Vec<_>>(),
		p.lead_ape.as_ref().map(Vec::len),
		p.audio.len(),
		p.ape.as_ref().map(Vec::len),
		p.lyrics3.as_ref().map(Vec::len),
		p.id3v1.is_some()
	)
}

fn raw_step(c: &mut Case, k: Kind, before: &raw::Parts, op: &Op, o: WriteOptions) -> Result<raw::Parts, Fail> {
	let data = before.to_bytes();
	let after = do_op(c, k, op, o, data)?;
	let p = raw::split(k, &after)
		.or_else(|e| fail(label(k, op, "result not parseable"), format!("the file cannot be split after the operation: {e}")))?;
	let ty = op.ty();
	ensure!(
		p.audio == before.audio,
		label(k, op, "audio bytes changed"),
		"audio bytes changed: {}",
		first_diff(&before.audio, &p.audio)
	);
	ensure!(
		ty == TagType::Id3v2 || p.id3v2 == before.id3v2,
		label(k, op, "ID3v2 tag changed"),
		"the ID3v2 tag changed: {} -> {} bytes",
		before.id3v2.concat().len(),
		p.id3v2.concat().len()
	);
	ensure!(
		ty == TagType::Ape || (p.ape == before.ape && p.lead_ape == before.lead_ape),
		label(k, op, "APE tag changed"),
		"the APE tag changed: {:?}/{:?} -> {:?}/{:?} bytes",
		before.lead_ape.as_ref().map(Vec::len),
		before.ape.as_ref().map(Vec::len),
		p.lead_ape.as_ref().map(Vec::len),
		p.ape.as_ref().map(Vec::len)
	);
	ensure!(
		ty == TagType::Id3v1 || p.id3v1 == before.id3v1,
		label(k, op, "ID3v1 tag changed"),
		"the ID3v1 tag changed: {:?} -> {:?}",
		before.id3v1,
		p.id3v1
	);
	ensure!(
		p.lyrics3 == before.lyrics3,
		label(k, op, "Lyrics3 block changed"),
		"the Lyrics3 block changed: {:?} -> {:?} bytes",
		before.lyrics3.as_ref().map(Vec::len),
		p.lyrics3.as_ref().map(Vec::len)
	);
	ensure!(
		ty == TagType::Ape || p.ape_last == before.ape_last,
		label(k, op, "tag order changed"),
		"the APE tag and the Lyrics3 block changed places"
	);
	let saved = !op.strips();
	let n = match ty {
		TagType::Id3v2 => p.id3v2.len(),
		TagType::Id3v1 => usize::from(p.id3v1.is_some()),
		_ => usize::from(p.ape.is_some()) + usize::from(p.lead_ape.is_some()),
	};
	ensure!(
		n == usize::from(saved),
		label(k, op, "tag count"),
		"{n} {ty:?} tags in the file after the operation"
	);
	Ok(p)
}

fn raw_case(c: &mut Case, k: Kind) -> R {
	let mut p = gen_parts(&mut c.src, k);
	// (only MPEG files are detected behind a leading APE tag)
	if c.src.chance(1, 10) && k == Kind::Mp3 {
		p.lead_ape = if c.src.bool() { p.ape.take() } else { Some(foreign_ape(&mut c.src)) };
		c.class("leading-ape");
	}
	if c.src.chance(1, 8) {
		// bytes inside the audio that look like tags
		let a = &mut p.audio;
		let at = c.src.usize(40, a.len().saturating_sub(40).max(40));
		let m: &[u8] = match c.src.below(4) {
			0 => b"ID3\x04\0\0\0\0\x01\0",
			1 => b"APETAGEX\xD0\x07\0\0\x40\0\0\0\x01\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0",
			2 => b"TAG",
			_ => b"LYRICS200",
		};
		// only inside payload, never over stream headers
		let at = at.max(90);
		// ... nor over a frame header
		let framed = matches!(k, Kind::Mp3 | Kind::Aac);
		if at + m.len() + 140 < a.len() && !(framed && a[at - 4..at + m.len()].contains(&0xFF)) {
			a[at..at + m.len()].copy_from_slice(m);
			c.class("tag-lookalike");
		}
	}
	c.note(|| format!("{}: {}", k.name(), describe_parts(&p)));
	if raw::split(k, &p.to_bytes()).is_ok_and(|q| q.audio == p.audio) {
		for _ in 0..c.src.usize(1, 3) {
			let op = gen_op(&mut c.src, k);
			let o = lg::write_options(&mut c.src);
			p = raw_step(c, k, &p, &op, o)?;
			c.nontrivial();
			c.class(op.name());
		}
	} else {
		c.class("ambiguous-input");
	}
	Ok(())
}

// ------------------------------------------------------------ WAV / AIFF

pub fn gen_form(s: &mut Src, k: Kind) -> riff::Form {
	let mut f = if k == Kind::Wav { riff::gen_wav(s).0 } else { riff::gen_aiff(s).0 };
	add_form_tags(s, k, &mut f);
	f.quirks(s);
	f
}

pub fn add_form_tags(s: &mut Src, k: Kind, f: &mut riff::Form) {
	for _ in 0..[0, 1, 2, 3][s.weighted(&[8, 8, 2, 1])] {
		let t = foreign_id3v2_nofooter(s);
		let id = if s.bool() { b"ID3 " } else { b"id3 " };
		let at = place(s, f.chunks.len());
		f.chunks.insert(at, riff::Chunk::new(id, t));
	}
	if k == Kind::Wav {
		for _ in 0..[0, 1, 2, 3][s.weighted(&[8, 8, 2, 1])] {
			let mut d = b"INFO".to_vec();
			for i in 0..s.usize(0, 3) {
				let n = s.usize(1, 20);
				d.extend([b"INAM", b"IART", b"ICMT"][i]);
				d.extend((n as u32 + 1).to_le_bytes());
				d.extend(std::iter::repeat_n(b'x', n));
				d.push(0);
				if (n + 1) % 2 == 1 {
					d.push(0);
				}
			}
			let at = place(s, f.chunks.len());
			f.chunks.insert(at, riff::Chunk::new(b"LIST", d));
		}
	} else {
		for id in [b"NAME", b"AUTH", b"(c) ", b"ANNO", b"ANNO"] {
			for _ in 0..[0, 1, 2][s.weighted(&[10, 4, 1])] {
				let n = s.usize(1, 20);
				let at = place(s, f.chunks.len());
				f.chunks.insert(at, riff::Chunk::new(id, vec![b'q'; n]));
			}
		}
		for _ in 0..[0, 1, 2][s.weighted(&[10, 4, 1])] {
			let mut d = 1u16.to_be_bytes().to_vec();
			let n = s.usize(1, 9);
			d.extend([0, 0, 1, 0, 0, 5]);
			d.extend((n as u16).to_be_bytes());
			d.extend(std::iter::repeat_n(b'k', n));
			if n % 2 == 1 {
				d.push(0);
			}
			let at = place(s, f.chunks.len());
			f.chunks.insert(at, riff::Chunk::new(b"COMT", d));
		}
	}
}

fn foreign_id3v2_nofooter(s: &mut Src) -> Vec<u8> {
	let mut t = foreign_id3v2(s);
	if t[5] & 0x10 != 0 {
		t[5] &= !0x10;
		let n = t.len() - 10;
		t.truncate(n);
	}
	t
}

/// index in 0..=n, the end as likely as any
fn place(s: &mut Src, n: usize) -> usize {
	if s.bool() { n } else { s.usize(0, n) }
}

fn form_step(c: &mut Case, k: Kind, before: &[u8], op: &Op, o: WriteOptions) -> Result<Vec<u8>, Fail> {
	let fb = riff::parse(before).expect("own file");
	let after = do_op(c, k, op, o, before.to_vec())?;
	let fa = riff::parse(&after)
		.or_else(|e| fail(label(k, op, "malformed container"), format!("container malformed after the operation: {e}")))?;
	let eb = riff::essence(k, before).unwrap();
	let ea = riff::essence(k, &after).unwrap();
	if let Err(m) = mp4::compare(&eb.iter().collect::<Vec<_>>(), &ea.iter().collect::<Vec<_>>()) {
		return fail(label(k, op, "chunks changed"), m);
	}
	// filler that was there stays (more may be added in place of an old tag)
	let mut left: Vec<&riff::Chunk> = fa.chunks.iter().filter(|x| riff::is_filler(x)).collect();
	for x in fb.chunks.iter().filter(|x| riff::is_filler(x) && x.data.iter().any(|b| *b != 0)) {
		match left.iter().position(|y| *y == x) {
			Some(i) => _ = left.remove(i),
			None => return fail(label(k, op, "filler chunk changed"), "a filler chunk was changed"),
		}
	}
	// chunks of the other tag
	let other = |f: &riff::Form| -> Vec<riff::Chunk> {
		f.chunks
			.iter()
			.filter(|x| riff::is_tag_chunk(k, x) && riff::is_id3(&x.id) != (op.ty() == TagType::Id3v2))
			.cloned()
			.collect()
	};
	ensure!(
		other(&fb) == other(&fa),
		label(k, op, "other tag's chunks changed"),
		"chunks of the other tag changed: {:?} -> {:?}",
		other(&fb).iter().map(|x| (x.id, x.data.len())).collect::<Vec<_>>(),
		other(&fa).iter().map(|x| (x.id, x.data.len())).collect::<Vec<_>>()
	);
	let mine = fa.chunks.iter().filter(|x| riff::is_tag_chunk(k, x) && riff::is_id3(&x.id) == (op.ty() == TagType::Id3v2)).count();
	match op.strips() {
		true => ensure!(mine == 0, label(k, op, "tag left"), "{mine} chunks of the removed tag left"),
		_ => ensure!(
			mine == 1 || (mine >= 1 && op.ty() == TagType::AiffText),
			label(k, op, "tag chunk count"),
			"{mine} chunks of the saved tag"
		),
	}
	Ok(after)
}

fn form_case(c: &mut Case, k: Kind) -> R {
	let f = gen_form(&mut c.src, k);
	let mut d = f.to_bytes();
	if riff::essence(k, &d).is_err() {
		return Ok(());
	}
	c.note(|| format!("{}: {:?}", k.name(), f.chunks.iter().map(|x| (String::from_utf8_lossy(&x.id).into_owned(), x.data.len())).collect::<Vec<_>>()));
	for _ in 0..c.src.usize(1, 3) {
		let op = gen_op(&mut c.src, k);
		let o = lg::write_options(&mut c.src);
		d = form_step(c, k, &d, &op, o)?;
		c.nontrivial();
		c.class(op.name());
	}
	Ok(())
}

// ------------------------------------------------------------ FLAC

pub fn flac_vc(s: &mut Src) -> flac::Block {
	let n = s.usize(0, 3);
	let items: Vec<(String, String)> = (0..n).map(|i| (format!("FIELD{i}"), "v".repeat(s.usize(1, 200)))).collect();
	flac::Block { ty: 4, data: tags::vc_encode("reference libFLAC", &items) }
}

pub fn add_flac_tags(s: &mut Src, f: &mut flac::Flac) {
	if s.chance(2, 3) {
		let b = flac_vc(s);
		let at = s.usize(1, f.blocks.len());
		f.blocks.insert(at, b);
	}
	for _ in 0..[0u64, 0, 1, 2][s.below(4) as usize] {
		let n = s.size(3000, &[]);
		let d = s.blob(n);
		let at = s.usize(1, f.blocks.len());
		f.blocks.insert(at, flac::Block { ty: 6, data: tags::flac_picture(3, "image/png", "d", [0; 4], &d) });
	}
	if s.bool() {
		let n = s.size(4000, &[0, 1024]);
		let at = place(s, f.blocks.len()).max(1);
		f.blocks.insert(at, flac::Block { ty: 1, data: vec![0; n] });
	}
	if s.chance(1, 6) {
		f.id3v2 = foreign_id3v2_nofooter(s);
	}
}

fn flac_case(c: &mut Case) -> R {
	let (mut f, _) = flac::gen_flac(&mut c.src);
	add_flac_tags(&mut c.src, &mut f);
	c.note(|| format!("flac: id3v2={} blocks={:?} frames={}", f.id3v2.len(), f.blocks.iter().map(|b| (b.ty, b.data.len())).collect::<Vec<_>>(), f.frames.len()));
	let mut d = f.to_bytes();
	for _ in 0..c.src.usize(1, 3) {
		let op = gen_op(&mut c.src, Kind::Flac);
		let o = lg::write_options(&mut c.src);
		let before = flac::parse(&d).expect("own");
		let eb = flac::essence(&d).unwrap();
		let after = do_op(c, Kind::Flac, &op, o, d)?;
		let fa = flac::parse(&after)
			.or_else(|e| fail(label(Kind::Flac, &op, "malformed block list"), format!("block list malformed after the operation: {e}")))?;
		let ea = flac::essence(&after).unwrap();
		if let Err(m) = mp4::compare(&eb.iter().collect::<Vec<_>>(), &ea.iter().collect::<Vec<_>>()) {
			return fail(label(Kind::Flac, &op, "blocks changed"), m);
		}
		let vcs = fa.blocks.iter().filter(|b| b.ty == 4).count();
		ensure!(vcs <= 1, label(Kind::Flac, &op, "several comment blocks"), "{vcs} comment blocks");
		for b in &fa.blocks {
			match b.ty {
				1 => ensure!(b.data.iter().all(|x| *x == 0), label(Kind::Flac, &op, "padding not zero"), "padding block holds non-zero bytes"),
				4 => {
					let (_, _, used) = tags::vc_decode(&b.data)
						.or_else(|e| fail(label(Kind::Flac, &op, "comment block undecodable"), e))?;
					ensure!(used == b.data.len(), label(Kind::Flac, &op, "comment block has trailing bytes"), "{} of {} bytes used", used, b.data.len());
				},
				6 => {
					tags::flac_picture_decode(&b.data).or_else(|e| fail(label(Kind::Flac, &op, "picture block undecodable"), e))?;
				},
				_ => {},
			}
		}
		match op.ty() {
			TagType::Id3v2 => {
				ensure!(fa.id3v2.is_empty(), label(Kind::Flac, &op, "tag left"), "ID3v2 tag still there");
				ensure!(fa.blocks == before.blocks, label(Kind::Flac, &op, "blocks changed"), "removing ID3v2 changed the blocks");
			},
			_ => ensure!(fa.id3v2 == before.id3v2, label(Kind::Flac, &op, "ID3v2 changed"), "the leading ID3v2 tag changed"),
		}
		if let Op::Remove(TagType::VorbisComments) = op {
			ensure!(!fa.blocks.iter().any(|b| b.ty == 6), label(Kind::Flac, &op, "pictures left"), "picture blocks left after removal");
			if let Some(b) = fa.blocks.iter().find(|b| b.ty == 4) {
				let (_, items, _) = tags::vc_decode(&b.data).unwrap();
				ensure!(items.is_empty(), label(Kind::Flac, &op, "comments left"), "{} comments left", items.len());
			}
		}
		d = after;
		c.nontrivial();
		c.class(op.name());
	}
	Ok(())
}

// ------------------------------------------------------------ Ogg

pub fn gen_ogg_tagged(s: &mut Src, k: Kind) -> (ogg::Ogg, fmt::Expect) {
	let n = s.usize(0, 3);
	let items: Vec<(String, String)> = (0..n)
		.map(|i| {
			let len = s.size(2000, &[255, 510, 255 * 32]);
			(format!("FIELD{i}"), "v".repeat(len))
		})
		.collect();
	let mut items = items;
	if s.chance(1, 6) {
		let n = s.size(120_000, &[]);
		let p = tags::flac_picture(3, "image/png", "d", [0; 4], &s.blob(n));
		items.push(("METADATA_BLOCK_PICTURE".into(), tags::b64_encode(&p)));
	}
	let c = tags::vc_encode("ref vendor", &items);
	let trailer = match k {
		Kind::Opus if s.chance(1, 6) => vec![0u8; s.usize(1, 300)],
		_ => vec![],
	};
	ogg::gen_ogg_with(s, k, &c, &trailer)
}

/// first logical stream's essence; pages of any other stream verbatim
fn multi_essence(k: Kind, data: &[u8]) -> Result<(Vec<(String, Vec<u8>)>, Vec<Vec<u8>>), String> {
	let pages = ogg::parse_pages(data)?;
	let serial = pages.first().ok_or("empty")?.serial;
	let first: Vec<u8> = pages.iter().filter(|p| p.serial == serial).flat_map(|p| p.to_bytes()).collect();
	let rest = pages.iter().filter(|p| p.serial != serial).map(|p| p.to_bytes()).collect();
	Ok((ogg::essence(k, &first)?, rest))
}

fn ogg_case(c: &mut Case, k: Kind) -> R {
	let (o, e) = gen_ogg_tagged(&mut c.src, k);
	let desc = e.desc;
	c.note(|| desc);
	let mut pages = o.pages.clone();
	let extra = c.src.below(8);
	if extra == 7 {
		// a chained stream: a second complete stream after the first
		let (mut o2, e2) = gen_ogg_tagged(&mut c.src, k);
		let d2 = e2.desc;
		for p in &mut o2.pages {
			p.serial = pages[0].serial.wrapping_add(1);
		}
		pages.extend(o2.pages);
		c.note(|| format!("chained with {d2}"));
		c.class("chained");
	}
	let mut d: Vec<u8> = pages.iter().flat_map(|p| p.to_bytes()).collect();
	// what follows the last page isn't part of any stream
	let tail = if c.src.chance(1, 8) {
		let n = c.src.size(400, &[1, 27, 128]).max(1);
		let mut t = c.src.blob(n);
		if t.starts_with(b"O") {
			t[0] = 0;
		}
		if n == 128 {
			t[..3].copy_from_slice(b"TAG");
		}
		c.class("trailing bytes");
		c.note(|| format!("{n} bytes after the last page"));
		t
	} else {
		vec![]
	};
	for _ in 0..c.src.usize(1, 3) {
		let op = gen_op(&mut c.src, k);
		let w = lg::write_options(&mut c.src);
		let (eb, rb) = multi_essence(k, &d).expect("own");
		d.extend(&tail);
		let mut after = do_op(c, k, &op, w, d)?;
		ensure!(after.ends_with(&tail), label(k, &op, "bytes after the last page changed"), "{} bytes expected at the end", tail.len());
		after.truncate(after.len() - tail.len());
		let (ea, ra) = multi_essence(k, &after)
			.or_else(|e| fail(label(k, &op, &format!("invalid stream: {}", esig(&e))), format!("stream invalid after the operation: {e}")))?;
		if let Err(m) = mp4::compare(&eb.iter().collect::<Vec<_>>(), &ea.iter().collect::<Vec<_>>()) {
			return fail(label(k, &op, "packets changed"), m);
		}
		ensure!(rb == ra, label(k, &op, "another stream's pages changed"), "pages of the second stream changed ({} -> {})", rb.len(), ra.len());
		d = after;
		c.nontrivial();
		c.class(op.name());
	}
	Ok(())
}

// ------------------------------------------------------------ MP4

fn mp4_case(c: &mut Case, exotic: bool) -> R {
	let (mut d, e) = mp4::gen_mp4(&mut c.src, &mp4::Shape { exotic, ..Default::default() });
	c.note(|| e.desc.clone());
	if let Err(e) = mp4::essence(&d) {
		panic!("generator: {e}");
	}
	for _ in 0..c.src.usize(1, 3) {
		let op = gen_op(&mut c.src, Kind::Mp4);
		let w = lg::write_options(&mut c.src);
		let eb = mp4::essence(&d).expect("own");
		let after = do_op(c, Kind::Mp4, &op, w, d)?;
		let ea = mp4::essence(&after)
			.or_else(|e| fail(label(Kind::Mp4, &op, "malformed atom tree"), format!("atom tree malformed after the operation: {e}")))?;
		if let Err(m) = mp4::same(&eb, &ea) {
			let kind = if m.contains("stco") || m.contains("co64") || m.contains("tfhd") { "media offsets changed" } else { "atoms changed" };
			return fail(label(Kind::Mp4, &op, kind), m);
		}
		let atoms = mp4::parse(&after).unwrap();
		let n = count_ilst(&atoms);
		match op {
			Op::Remove(_) => ensure!(n == 0, label(Kind::Mp4, &op, "item list left"), "{n} item lists left"),
			_ => ensure!(n == 1, label(Kind::Mp4, &op, "item list count"), "{n} item lists"),
		}
		d = after;
		c.nontrivial();
		c.class(op.name());
	}
	Ok(())
}

fn count_ilst(a: &[mp4::PAtom]) -> usize {
	a.iter().map(|x| usize::from(&x.id == b"ilst") + count_ilst(&x.kids)).sum()
}

// ------------------------------------------------------------

macro_rules! suite {
	($n:literal, $q:expr, $t:expr, $f:expr) => {
		Suite { name: $n, quick: $q, thorough: $t, run: $f }
	};
}

pub fn props() -> Vec<Property> {
	vec![
		Property {
			id: "C06",
			rule: "A case is a generated stream with any mix of ID3v2, APE, Lyrics3 and ID3v1 tags around it and 1-3 saves/removals; non-trivial when at least one operation changed or created a tag and the result was compared part by part.",
			assumptions: &["the harness's own splitter of tags and audio is right", "streams are generated, not encoder output"],
			suites: vec![
				suite!("mp3", 200_000, 4_000_000, |c| raw_case(c, Kind::Mp3)),
				suite!("aac", 150_000, 3_000_000, |c| raw_case(c, Kind::Aac)),
				suite!("ape", 100_000, 2_000_000, |c| raw_case(c, Kind::Ape)),
				suite!("wavpack", 100_000, 2_000_000, |c| raw_case(c, Kind::WavPack)),
				suite!("mpc", 100_000, 2_000_000, |c| raw_case(c, Kind::Mpc)),
			],
		},
		Property {
			id: "C07",
			rule: "A case is a generated chunk list with tag chunks at any position and 1-3 saves/removals; non-trivial when an operation completed and every chunk was compared.",
			assumptions: &["the harness's own strict chunk parser is right"],
			suites: vec![
				suite!("wav", 400_000, 10_000_000, |c| form_case(c, Kind::Wav)),
				suite!("aiff", 400_000, 10_000_000, |c| form_case(c, Kind::Aiff)),
			],
		},
		Property {
			id: "C08",
			rule: "A case is a generated metadata block list plus frame bytes and 1-3 saves/removals; non-trivial when an operation completed and every block was compared.",
			assumptions: &["the harness's own strict block parser is right"],
			suites: vec![suite!("flac", 600_000, 15_000_000, flac_case)],
		},
		Property {
			id: "C09",
			rule: "A case is a generated page layout of a Vorbis, Opus or Speex stream (sometimes chained with a second) and 1-3 saves/removals; non-trivial when an operation completed and every packet, granule position and page was checked.",
			assumptions: &["the harness's own page and packet parser is right"],
			suites: vec![
				suite!("vorbis", 15_000, 400_000, |c| ogg_case(c, Kind::Vorbis)),
				suite!("opus", 15_000, 400_000, |c| ogg_case(c, Kind::Opus)),
				suite!("speex", 15_000, 400_000, |c| ogg_case(c, Kind::Speex)),
			],
		},
		Property {
			id: "C10",
			rule: "A case is a generated atom tree (media before, after or around the movie atom, 32/64 bit offsets, several tracks, fragments) and 1-3 saves/removals; non-trivial when an operation completed and every atom and offset was checked.",
			assumptions: &["the harness's own strict atom parser is right"],
			suites: vec![
				suite!("usual", 200_000, 5_000_000, |c| mp4_case(c, false)),
				suite!("exotic", 150_000, 4_000_000, |c| mp4_case(c, true)),
			],
		},
	]
}
