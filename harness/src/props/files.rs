//! C11, C30, C31: histories of saves, write options, dumps.

use super::preserve::{self, Op, esig};
use super::roundtrip;
use crate::engine::{Case, Fail, Property, R, Src, Suite, fail, guard};
use crate::ensure;
use crate::fmt::{self, ALL_KINDS, Kind, flac, mp4, ogg, raw, riff, tags};
use crate::lg;
use crate::rd;
use crate::util::{Mem, Scratch, first_diff};
use lofty::config::{ParseOptions, WriteOptions};
use lofty::file::{AudioFile, BoundTaggedFile, TaggedFileExt};
use lofty::tag::{Accessor, Tag, TagExt, TagType};
use std::collections::BTreeMap;
use std::io::Cursor;

macro_rules! suite {
	($name:literal, $q:expr, $t:expr, $f:expr) => {
		Suite { name: $name, quick: $q, thorough: $t, run: $f }
	};
}

/// What a file says per tag type; types without content are absent.
pub type State = BTreeMap<String, Vec<String>>;

fn tname(ty: TagType) -> String {
	format!("{ty:?}")
}

pub fn state(k: Kind, data: &[u8]) -> Result<State, Fail> {
	let n = roundtrip::read(k, data, ParseOptions::new())?;
	let mut s = State::new();
	for t in &n.tags {
		if !t.is_empty() {
			s.insert(tname(t.ty()), t.canon());
		}
	}
	if k == Kind::Flac && !n.extra.is_empty() {
		s.entry(tname(TagType::VorbisComments)).or_default().extend(n.extra.clone());
	}
	Ok(s)
}

fn vc_items(packet: &[u8]) -> Result<Vec<Vec<u8>>, String> {
	Ok(tags::vc_decode(packet)?.1)
}

/// The pieces of the file which hold the tag of one type, without padding around or vendor strings inside.
pub fn tag_parts(k: Kind, data: &[u8], ty: TagType) -> Result<Vec<Vec<u8>>, String> {
	Ok(match k {
		k if k.is_raw() => {
			let p = raw::split(k, data)?;
			match ty {
				TagType::Id3v2 => p.id3v2,
				TagType::Ape => p.lead_ape.into_iter().chain(p.ape).collect(),
				_ => p.id3v1.into_iter().map(|b| b.to_vec()).collect(),
			}
		},
		Kind::Wav | Kind::Aiff => riff::parse(data)?
			.chunks
			.into_iter()
			.filter(|c| riff::is_tag_chunk(k, c) && riff::is_id3(&c.id) == (ty == TagType::Id3v2))
			.map(|c| [&c.id[..], &c.data].concat())
			.collect(),
		Kind::Flac => {
			let f = flac::parse(data)?;
			if ty == TagType::Id3v2 {
				return Ok(if f.id3v2.is_empty() { vec![] } else { vec![f.id3v2] });
			}
			let mut v = vec![];
			for b in &f.blocks {
				match b.ty {
					4 => v.extend(vc_items(&b.data)?),
					6 => v.push(b.data.clone()),
					_ => {},
				}
			}
			v
		},
		Kind::Opus | Kind::Vorbis | Kind::Speex => {
			let pages = ogg::parse_pages(data)?;
			let p = ogg::packets(&pages)?;
			let c = p.get(1).ok_or("no comment packet")?;
			vc_items(c.data.strip_prefix(ogg::comment_prefix(k)).ok_or("comment packet without its signature")?)?
		},
		Kind::Mp4 => {
			fn all(a: &[mp4::PAtom], d: &[u8], out: &mut Vec<Vec<u8>>) {
				for x in a {
					if &x.id == b"ilst" {
						out.push(d[x.start..x.start + x.len].to_vec());
					}
					all(&x.kids, d, out);
				}
			}
			let mut v = vec![];
			all(&mp4::parse(data)?, data, &mut v);
			v
		},
		_ => unreachable!(),
	})
}

/// A file of the kind with tags of other software in it.
fn gen_start(s: &mut Src, k: Kind) -> (Vec<u8>, Vec<u8>) {
	match k {
		k if k.is_raw() => {
			let plain = fmt::gen_plain(s, k);
			let p = preserve::gen_parts_with(s, k, plain.clone());
			(p.to_bytes(), plain)
		},
		Kind::Wav | Kind::Aiff => {
			let d = preserve::gen_form(s, k).to_bytes();
			(d, fmt::gen_plain(s, k))
		},
		Kind::Flac => {
			let (mut f, _) = flac::gen_flac(s);
			let plain = f.to_bytes();
			preserve::add_flac_tags(s, &mut f);
			(f.to_bytes(), plain)
		},
		Kind::Mp4 => {
			let d = mp4::gen_mp4(s, &mp4::Shape::default()).0;
			(d, mp4::gen_mp4(s, &mp4::Shape::default()).0)
		},
		k => {
			let d = preserve::gen_ogg_tagged(s, k).0.to_bytes();
			(d, fmt::gen_plain(s, k))
		},
	}
}

fn gen_wopts(s: &mut Src) -> WriteOptions {
	let mut o = lg::write_options(s);
	if s.chance(1, 4) {
		o = o.uppercase_id3v2_chunk(false);
	}
	if s.chance(1, 6) {
		o = o.use_id3v23(true);
	}
	o
}

enum Edit {
	Insert(Tag),
	Title(TagType, String),
	Clear(TagType),
	Forget(TagType),
}

fn gen_edits(s: &mut Src, k: Kind) -> Vec<Edit> {
	let w = lg::writable(k);
	(0..s.usize(0, 3))
		.map(|_| {
			let ty = *s.pick(w);
			match s.weighted(&[4, 3, 2, 1]) {
				0 => Edit::Insert(lg::plain_generic(s, ty)),
				1 => Edit::Title(ty, lg::short(s)),
				2 => Edit::Clear(ty),
				_ => Edit::Forget(ty),
			}
		})
		.collect()
}

fn apply_edits(f: &mut impl TaggedFileExt, edits: &[Edit]) {
	for e in edits {
		match e {
			Edit::Insert(t) => _ = f.insert_tag(t.clone()),
			Edit::Title(ty, x) => {
				if let Some(t) = f.tag_mut(*ty) {
					t.set_title(x.clone());
				}
			},
			Edit::Clear(ty) => {
				if let Some(t) = f.tag_mut(*ty) {
					let e = Tag::new(*ty);
					*t = e;
				}
			},
			Edit::Forget(ty) => _ = f.remove(*ty),
		}
	}
}

/// state and bytes of the tag when it is the only one ever written
fn alone(c: &mut Case, k: Kind, plain: &[u8], op: &Op, o: WriteOptions) -> Result<(Option<Vec<String>>, Vec<Vec<u8>>), Fail> {
	let d = preserve::do_op(c, k, op, o, plain.to_vec())?;
	let st = state(k, &d)?;
	let parts = tag_parts(k, &d, op.ty()).or_else(|e| fail(format!("{} in a fresh file", op.name()), e))?;
	Ok((st.get(&tname(op.ty())).cloned(), parts))
}

struct World {
	k: Kind,
	plain: Vec<u8>,
	data: Vec<u8>,
	want: State,
	parts: BTreeMap<String, Vec<Vec<u8>>>,
}

fn compare(w: &World, what: &str) -> R {
	let got = state(w.k, &w.data)?;
	let types: Vec<&String> = w.want.keys().chain(got.keys()).collect();
	for ty in types {
		let (a, b) = (w.want.get(ty), got.get(ty));
		if a == b {
			continue;
		}
		let sig = format!("{} {ty}: {what}", w.k.name());
		let e = vec![];
		roundtrip::same_list(&sig, a.unwrap_or(&e), b.unwrap_or(&e))?;
	}
	for (ty, p) in &w.parts {
		let t = lg::ALL_TYPES.iter().copied().find(|t| tname(*t) == *ty).unwrap();
		let got = tag_parts(w.k, &w.data, t).or_else(|e| fail(format!("{} malformed: {what}", w.k.name()), e))?;
		if got != *p {
			let i = got.iter().zip(p).position(|(a, b)| a != b);
			return fail(
				format!("{} {ty} stored differently: {what}", w.k.name()),
				match i {
					Some(i) => format!("part {i}: {}", first_diff(&p[i], &got[i])),
					None => format!("{} parts instead of {}", got.len(), p.len()),
				},
			);
		}
	}
	Ok(())
}

fn history(c: &mut Case) -> R {
	let k = *c.src.pick(&ALL_KINDS);
	history_in(c, k)
}

fn history_in(c: &mut Case, k: Kind) -> R {
	let (data, plain) = gen_start(&mut c.src, k);
	if guard(|| rd::read_native(k, &mut Cursor::new(&data), ParseOptions::new(), false)).map_or(true, |r| r.is_err()) {
		return Ok(());
	}
	let want = state(k, &data)?;
	let mut w = World { k, plain, data, want, parts: BTreeMap::new() };
	for ty in lg::writable(k).iter().chain(lg::read_only(k)) {
		if let Ok(p) = tag_parts(k, &w.data, *ty) {
			w.parts.insert(tname(*ty), p);
		}
	}
	let start = w.want.keys().cloned().collect::<Vec<_>>();
	c.note(|| format!("{} of {} bytes with {start:?}", k.name(), w.data.len()));
	let steps = c.src.usize(2, 6);
	for _ in 0..steps {
		let o = gen_wopts(&mut c.src);
		if c.src.chance(1, 4) {
			file_step(c, &mut w, o)?;
		} else {
			let op = preserve::gen_op(&mut c.src, k);
			let before = w.data.clone();
			w.data = preserve::do_op(c, k, &op, o, before)?;
			let ty = tname(op.ty());
			if op.strips() {
				w.want.remove(&ty);
				w.parts.insert(ty.clone(), vec![]);
			} else {
				let (st, parts) = alone(c, k, &w.plain.clone(), &op, o)?;
				match st {
					Some(st) => _ = w.want.insert(ty.clone(), st),
					None => _ = w.want.remove(&ty),
				}
				w.parts.insert(ty.clone(), parts);
			}
			compare(&w, &format!("after {}", op.name()))?;
			c.class(op.name());
			// once more
			if c.src.chance(1, 3) {
				// padding may move, but that is all, and only once
				let again = preserve::do_op(c, k, &op, o, w.data.clone())?;
				let sig = format!("{} {ty} in {} again", op.name(), k.name());
				ensure!(again.len() == w.data.len(), format!("{sig}: size"), "the same operation again changed the size {} to {}", w.data.len(), again.len());
				w.data = again;
				compare(&w, &format!("after repeated {}", op.name()))?;
				let third = preserve::do_op(c, k, &op, o, w.data.clone())?;
				ensure!(
					third == w.data,
					format!("{sig}: never settles"),
					"the same operation a third time changed the file: {}",
					first_diff(&w.data, &third)
				);
				c.class("repeated");
			}
		}
	}
	c.class(k.name());
	c.nontrivial();
	Ok(())
}

fn file_step(c: &mut Case, w: &mut World, o: WriteOptions) -> R {
	let k = w.k;
	let edits = gen_edits(&mut c.src, k);
	let bound = c.src.bool();
	let what = if bound { "bound file" } else { "tagged file" };
	let sig = |m: &str| format!("{what} in {}: {m}", k.name());
	c.note(|| {
		let e: Vec<String> = edits
			.iter()
			.map(|e| match e {
				Edit::Insert(t) => format!("insert {:?} {:?}", t.tag_type(), lg::c_tag(t)).chars().take(300).collect(),
				Edit::Title(t, x) => format!("title of {t:?} = {x:?}"),
				Edit::Clear(t) => format!("empty {t:?}"),
				Edit::Forget(t) => format!("forget {t:?}"),
			})
			.collect();
		format!("{what}: {e:?} {o:?}")
	});
	let (tags, data): (Vec<Tag>, Vec<u8>) = if bound {
		let mem = Mem::new(w.data.clone());
		let r = guard(|| -> Result<_, String> {
			let mut f = BoundTaggedFile::read_from(mem, ParseOptions::new()).map_err(|e| rd::chain(&e))?;
			apply_edits(&mut f, &edits);
			let tags = f.tags().to_vec();
			f.save(o).map_err(|e| rd::chain(&e))?;
			let left: Vec<TagType> = f.tags().iter().map(|t| t.tag_type()).collect();
			Ok((tags, left, f.into_inner().data))
		})?;
		match r {
			Err(e) => return fail(sig(&esig(&e)), e),
			Ok((tags, left, data)) => {
				let want: Vec<TagType> = tags.iter().filter(|t| !t.is_empty()).map(|t| t.tag_type()).collect();
				ensure!(left == want, sig("tags kept"), "the file holds {left:?} after saving, expected {want:?}");
				(tags, data)
			},
		}
	} else {
		let mut mem = Mem::new(w.data.clone());
		let at = if c.src.bool() { c.src.usize(0, w.data.len()) as u64 } else { 0 };
		let r = guard(|| -> Result<_, String> {
			let mut f = rd::probe_read(Cursor::new(&w.data), ParseOptions::new())?;
			apply_edits(&mut f, &edits);
			mem.pos = at;
			f.save_to(&mut mem, o).map_err(|e| rd::chain(&e))?;
			Ok(f.tags().to_vec())
		})?;
		match r {
			Err(e) => return fail(sig(&esig(&e)), e),
			Ok(tags) => (tags, mem.data),
		}
	};
	w.data = data;
	for t in tags {
		let ty = t.tag_type();
		if !lg::writable(k).contains(&ty) {
			continue;
		}
		let op = Op::SaveGeneric(t);
		let (st, parts) = alone(c, k, &w.plain.clone(), &op, o)?;
		match st {
			Some(st) => _ = w.want.insert(tname(ty), st),
			None => _ = w.want.remove(&tname(ty)),
		}
		w.parts.insert(tname(ty), parts);
	}
	compare(w, &format!("after saving a {what}"))?;
	c.class(what);
	Ok(())
}


// ------------------------------------------------------------ files on disk

fn ext(s: &mut Src, k: Kind) -> &'static str {
	let e: &[&str] = match k {
		Kind::Aac => &["aac"],
		Kind::Aiff => &["aiff", "aif", "afc", "aifc"],
		Kind::Ape => &["ape"],
		Kind::Flac => &["flac"],
		Kind::Mp3 => &["mp3", "mp2", "mp1"],
		Kind::Mp4 => &["mp4", "m4a", "m4b", "m4p", "m4r", "m4v", "3gp"],
		Kind::Mpc => &["mpc", "mp+", "mpp"],
		Kind::Opus => &["opus"],
		Kind::Vorbis => &["ogg"],
		Kind::Speex => &["spx"],
		Kind::Wav => &["wav", "wave"],
		Kind::WavPack => &["wv"],
	};
	s.pick(e)
}

/// The same operation on memory, on an open file and by path.
fn disk(c: &mut Case) -> R {
	let k = *c.src.pick(&ALL_KINDS);
	let (data, _) = gen_start(&mut c.src, k);
	let e = ext(&mut c.src, k);
	let wrong = c.src.chance(1, 6);
	// operations look at the content; reading by path goes by the extension
	let e = if wrong { *c.src.pick(&["bin", "mp3", "flac", "x"]) } else { e };
	let path = c.src.chance(2, 3);
	let o = gen_wopts(&mut c.src);
	c.note(|| format!("{} of {} bytes as .{e}, {}", k.name(), data.len(), if path { "by path" } else { "open file" }));
	let file = Scratch::new(&format!("d.{e}"), &data);
	let p = file.0.as_path();
	let open = || std::fs::OpenOptions::new().read(true).write(true).open(p).unwrap();
	let mut mem = Mem::new(data.clone());
	let what;
	let (a, b): (Result<(), String>, Result<(), String>);
	let er = |r: Result<(), lofty::error::FileEncodingError>| r.map_err(|e| rd::chain(&e));
	if c.src.chance(1, 4) {
		let edits = gen_edits(&mut c.src, k);
		what = "tagged file".to_string();
		let Ok(Ok(mut f)) = guard(|| rd::probe_read(Cursor::new(&data), ParseOptions::new())) else { return Ok(()) };
		apply_edits(&mut f, &edits);
		a = guard(|| er(f.save_to(&mut mem, o)))?;
		b = guard(|| er(if path { f.save_to_path(p, o) } else { f.save_to(&mut open(), o) }))?;
	} else {
		let op = preserve::gen_op(&mut c.src, k);
		what = format!("{} {:?}", op.name(), op.ty());
		c.note(|| op.describe());
		a = guard(|| er(op.apply(&mut mem, o)))?;
		let by_tag = c.src.bool();
		b = guard(|| {
			er(match (&op, path) {
				(Op::SaveNative(t), true) => t.save_path(p, o),
				(Op::SaveGeneric(t), true) => t.save_to_path(p, o),
				(Op::Remove(t), true) if by_tag => lg::NTag::empty(*t).remove_path(p, o),
				(Op::Remove(t), true) => t.remove_from_path(p, o),
				(Op::SaveNative(t), false) => t.save_file(&mut open(), o),
				(Op::SaveGeneric(t), false) => t.save_to(&mut open(), o),
				(Op::Remove(t), false) => t.remove_from(&mut open(), o),
			})
		})?;
	}
	let how = if path { "by path" } else { "in an open file" };
	ensure!(a == b, format!("{what} {how} in {}", k.name()), "in memory: {a:?}, {how}: {b:?}");
	let got = file.bytes();
	ensure!(got == mem.data, format!("{what} {how} in {}: bytes", k.name()), "{}", first_diff(&mem.data, &got));
	// reading by path
	if !wrong {
		let r = guard(|| lofty::read_from_path(p).map(|f| rd::c_tagged(&f)).map_err(|e| rd::chain(&e)))?;
		let m = guard(|| rd::probe_read(Cursor::new(&got), ParseOptions::new()).map(|f| rd::c_tagged(&f)))?;
		ensure!(r == m, format!("read by path of {}", k.name()), "by path {r:?} from memory {m:?}");
		let r = guard(|| lofty::read_from(&mut open()).map(|f| rd::c_tagged(&f)).map_err(|e| rd::chain(&e)))?;
		ensure!(r == m, format!("read from an open file of {}", k.name()), "open file {r:?} from memory {m:?}");
	}
	c.class(k.name());
	c.class(how);
	if a.is_ok() {
		c.nontrivial();
	}
	Ok(())
}

// ------------------------------------------------------------ C30

/// Frames and padding of an ID3v2 tag.
fn id3_pad(b: &[u8]) -> Result<(Vec<u8>, usize), String> {
	let (_, _, pad) = tags::id3v2_decode(b)?;
	let mut head = b[..b.len() - pad].to_vec();
	head[6..10].fill(0);
	Ok((head, pad))
}

/// padding in the file outside ID3v2 tags: FLAC blocks, MP4 `free` atoms, RIFF `JUNK`
fn padding(k: Kind, d: &[u8]) -> Result<Vec<usize>, String> {
	fn free(a: &[mp4::PAtom], out: &mut Vec<usize>) {
		for x in a {
			if &x.id == b"free" {
				out.push(x.len);
			}
			free(&x.kids, out);
		}
	}
	Ok(match k {
		Kind::Flac => flac::parse(d)?.blocks.iter().filter(|b| b.ty == 1).map(|b| b.data.len()).collect(),
		Kind::Wav | Kind::Aiff => riff::parse(d)?.chunks.iter().filter(|c| riff::is_filler(c)).map(|c| c.data.len()).collect(),
		Kind::Mp4 => {
			let mut v = vec![];
			free(&mp4::parse(d)?, &mut v);
			v
		},
		_ => vec![],
	})
}

/// Two saves of one tag into one file that differ in the padding only.
fn paddings(c: &mut Case) -> R {
	let k = *c.src.pick(&ALL_KINDS);
	let (data, _) = gen_start(&mut c.src, k);
	let op = preserve::gen_op(&mut c.src, k);
	let n = match c.src.below(3) {
		0 => c.src.range(1, 40) as u32,
		1 => *c.src.pick(&[1024, 127, 128, 16383, 16384]),
		_ => c.src.range(1, 20_000) as u32,
	};
	let mut base = WriteOptions::new();
	if c.src.chance(1, 4) {
		base = base.use_id3v23(true);
	}
	let ty = op.ty();
	c.note(|| format!("{} of {} bytes", k.name(), data.len()));
	let none = preserve::do_op(c, k, &op, base.preferred_padding(0), data.clone())?;
	let some = preserve::do_op(c, k, &op, base.preferred_padding(n), data.clone())?;
	let sig = |m: &str| format!("padding of {} {ty:?} in {}: {m}", op.name(), k.name());
	let (sa, sb) = (state(k, &none)?, state(k, &some)?);
	ensure!(sa == sb, sig("content"), "padding {n} changed what is read: {sa:?} -> {sb:?}");
	let bad = |e: String| Fail { sig: sig("malformed"), msg: e };
	let es = |d: &[u8]| fmt::essence(k, d).map_err(bad);
	if k == Kind::Mp4 {
		mp4::same(&es(&none)?, &es(&some)?).map_err(|e| Fail { sig: sig("media"), msg: e })?;
	} else {
		ensure!(es(&none)? == es(&some)?, sig("audio"), "padding changed something beside the tag");
	}
	for t in lg::writable(k).iter().chain(lg::read_only(k)) {
		let (a, b) = (tag_parts(k, &none, *t).map_err(bad)?, tag_parts(k, &some, *t).map_err(bad)?);
		if *t == TagType::Id3v2 && ty == TagType::Id3v2 && !op.strips() {
			ensure!(a.len() == 1 && b.len() == 1, sig("count"), "{} and {} tags", a.len(), b.len());
			let cut = if k.is_raw() { 0 } else { 4 };
			let (fa, pa) = id3_pad(&a[0][cut..]).map_err(bad)?;
			let (fb, pb) = id3_pad(&b[0][cut..]).map_err(bad)?;
			ensure!(fa == fb, sig("frames"), "{}", first_diff(&fa, &fb));
			ensure!(pa == 0 && pb == n as usize, sig("amount"), "asked for 0 and {n} bytes of padding, got {pa} and {pb}");
		} else {
			ensure!(a == b, sig(&format!("changes {t:?}")), "padding changed the {t:?} tag");
		}
	}
	let (pb, pn, ps) = (padding(k, &data).map_err(bad)?, padding(k, &none).map_err(bad)?, padding(k, &some).map_err(bad)?);
	match k {
		Kind::Flac => {
			ensure!(pn == pb, sig("blocks"), "without padding the blocks {pb:?} became {pn:?}");
			let added = match ty {
				TagType::VorbisComments if pb.is_empty() => 1,
				_ => 0,
			};
			let had_any = !tag_parts(k, &data, ty).map_err(bad)?.is_empty();
			ensure!(
				ps.len() == pb.len() + added || (op.strips() && !had_any && ps == pb),
				sig("blocks"),
				"padding blocks {pb:?} became {ps:?}"
			);
			if added == 1 {
				ensure!(ps.iter().all(|x| *x >= n as usize), sig("amount"), "asked for {n}, got {ps:?}");
			}
		},
		Kind::Wav | Kind::Mp4 => {},
		_ => ensure!(pb == pn && pb == ps, sig("filler"), "filler {pb:?} became {pn:?} and {ps:?}"),
	}
	c.class(k.name());
	c.nontrivial();
	Ok(())
}

/// Removing the other tags, keeping them.
/// nothing in the library acts on the option
const INERT: &str = "remove_others removes nothing";

fn others(c: &mut Case) -> R {
	let k = *c.src.pick(&ALL_KINDS);
	let (data, _) = gen_start(&mut c.src, k);
	let o = gen_wopts(&mut c.src);
	let before = state(k, &data)?;
	c.note(|| format!("{} of {} bytes with {:?}", k.name(), data.len(), before.keys().collect::<Vec<_>>()));
	let only = c.src.chance(3, 4);
	let o = o.remove_others(only);
	if c.src.chance(1, 3) {
		// through the file object: all of its tags are "being written"
		let edits = gen_edits(&mut c.src, k);
		let r = guard(|| -> Result<_, String> {
			let mut f = rd::probe_read(Cursor::new(&data), ParseOptions::new())?;
			apply_edits(&mut f, &edits);
			let mut m1 = Mem::new(data.clone());
			f.save_to(&mut m1, o).map_err(|e| rd::chain(&e))?;
			let mut m2 = Mem::new(data.clone());
			f.save_to(&mut m2, o.remove_others(false)).map_err(|e| rd::chain(&e))?;
			Ok((f.tags().iter().filter(|t| lg::writable(k).contains(&t.tag_type())).map(|t| tname(t.tag_type())).collect::<Vec<_>>(), m1.data, m2.data))
		})?;
		let sig = |m: &str| format!("remove_others of a tagged file in {}: {m}", k.name());
		let (types, a, b) = match r {
			Ok(x) => x,
			Err(e) => return fail(sig(&esig(&e)), e),
		};
		let (sa, sb) = (state(k, &a)?, state(k, &b)?);
		if only && a == b && !types.is_empty() && sb.keys().any(|t| !types.contains(t)) {
			return fail(INERT, format!("{} left with {:?} by a tagged file with {types:?}", k.name(), sb.keys()));
		}
		for (ty, v) in &sb {
			if !only || types.contains(ty) || types.is_empty() {
				ensure!(sa.get(ty) == Some(v), sig("written tag"), "{ty} lost or changed");
			} else {
				ensure!(!sa.contains_key(ty), sig("left"), "{ty} is still there");
			}
		}
		ensure!(sa.len() <= sb.len(), sig("more"), "tags appeared");
		c.class("tagged file");
		c.nontrivial();
		return Ok(());
	}
	let op = preserve::gen_op(&mut c.src, k);
	if matches!(op, Op::Remove(_)) {
		return Ok(());
	}
	let ty = tname(op.ty());
	let sig = |m: &str| format!("{} {ty} in {} with remove_others: {m}", op.name(), k.name());
	let a = preserve::do_op(c, k, &op, o, data.clone())?;
	let b = preserve::do_op(c, k, &op, o.remove_others(false), data.clone())?;
	let (sa, sb) = (state(k, &a)?, state(k, &b)?);
	ensure!(sa.get(&ty) == sb.get(&ty), sig("written tag"), "the tag reads differently");
	if only && a == b {
		let mut others = vec![];
		for t in lg::writable(k).iter().chain(lg::read_only(k)) {
			if *t != op.ty() && !tag_parts(k, &a, *t).map_err(|e| Fail { sig: sig("malformed"), msg: e })?.is_empty() {
				others.push(*t);
			}
		}
		if !others.is_empty() {
			return fail(INERT, format!("{} left with {others:?} when saving {ty}", k.name()));
		}
	}
	for t in sb.keys().chain(before.keys()) {
		if *t == ty {
			continue;
		}
		if only {
			ensure!(!sa.contains_key(t), sig("left"), "{t} is still there");
		} else {
			ensure!(sa.get(t) == before.get(t), sig("changed"), "{t} changed");
		}
	}
	if only {
		for t in lg::writable(k).iter().chain(lg::read_only(k)) {
			if *t != op.ty() {
				let p = tag_parts(k, &a, *t).map_err(|e| Fail { sig: sig("malformed"), msg: e })?;
				ensure!(p.is_empty(), sig("left"), "a {t:?} tag is still in the file");
			}
		}
	} else {
		ensure!(a == b, sig("unset"), "{}", first_diff(&b, &a));
	}
	if before.keys().any(|t| *t != ty) {
		c.nontrivial();
	}
	c.class(k.name());
	Ok(())
}

/// Options which must not matter, or only in one place.
fn neutral(c: &mut Case) -> R {
	let k = *c.src.pick(&ALL_KINDS);
	let (data, _) = gen_start(&mut c.src, k);
	let op = preserve::gen_op(&mut c.src, k);
	let o = lg::write_options(&mut c.src);
	let ty = op.ty();
	c.note(|| format!("{} of {} bytes", k.name(), data.len()));
	let base = preserve::do_op(c, k, &op, o, data.clone())?;
	let mut w = o;
	let which = c.src.below(5);
	let (name, w) = match which {
		0 => ("respect_read_only", o.respect_read_only(false)),
		1 => ("parse_options", w.parse_options(rd::parse_options(&mut c.src).max_junk_bytes(c.src.range(1024, 100_000) as usize))),
		2 => ("uppercase_id3v2_chunk", o.uppercase_id3v2_chunk(false)),
		3 => ("lossy_text_encoding", w.lossy_text_encoding(false)),
		_ => ("use_id3v23", w.use_id3v23(true)),
	};
	let sig = |m: &str| format!("{name} of {} {ty:?} in {}: {m}", op.name(), k.name());
	let other = preserve::do_op(c, k, &op, w, data.clone())?;
	let want = base.clone();
	let id3 = ty == TagType::Id3v2 && !op.strips();
	match which {
		2 if matches!(k, Kind::Wav | Kind::Aiff) && id3 => {
			let mut f = riff::parse(&base).map_err(|e| Fail { sig: sig("malformed"), msg: e })?;
			for x in f.chunks.iter_mut().filter(|x| &x.id == b"ID3 ") {
				x.id = *b"id3 ";
			}
			let g = riff::parse(&other).map_err(|e| Fail { sig: sig("malformed"), msg: e })?;
			let ids = |f: &riff::Form| f.chunks.iter().map(|x| (x.id, x.data.clone())).collect::<Vec<_>>();
			ensure!(ids(&f) == ids(&g), sig("chunks"), "more than the chunk name changed");
			let fb = riff::parse(&base).unwrap();
			ensure!(fb.chunks.iter().any(|x| &x.id == b"ID3 "), sig("upper"), "no upper case chunk");
			c.class("chunk name");
			c.nontrivial();
			return Ok(());
		},
		4 if id3 => {
			let es = |d: &[u8]| fmt::essence(k, d).map_err(|e| Fail { sig: sig("malformed"), msg: e });
			ensure!(es(&base)? == es(&other)?, sig("audio"), "something beside the tag changed");
			let p = tag_parts(k, &other, ty).map_err(|e| Fail { sig: sig("malformed"), msg: e })?;
			let cut = if k.is_raw() { 0 } else { 4 };
			ensure!(p.len() == 1 && p[0][cut + 3] == 3, sig("version"), "no version 2.3 tag");
			let p = tag_parts(k, &base, ty).map_err(|e| Fail { sig: sig("malformed"), msg: e })?;
			ensure!(p.len() == 1 && p[0][cut + 3] == 4, sig("version"), "no version 2.4 tag");
			c.class("2.3");
			c.nontrivial();
			return Ok(());
		},
		_ => {},
	}
	ensure!(want == other, sig("bytes"), "an unrelated option changed the file: {}", first_diff(&want, &other));
	c.class(name);
	c.nontrivial();
	Ok(())
}

/// Text outside of Latin-1 where only Latin-1 fits.
fn lossy(c: &mut Case) -> R {
	use lofty::TextEncoding;
	use lofty::id3::v2::{Frame, FrameId, Id3v2Tag, TextInformationFrame};
	let s = &mut c.src;
	let txt: String = (0..s.usize(1, 12))
		.map(|_| match s.below(3) {
			0 => *s.pick(&['ж', '€', '漢', '\u{1F600}', 'Ā', '\u{100}']),
			1 => *s.pick(&['é', 'ÿ', '\u{A0}', '¿']),
			_ => (b'a' + s.below(26) as u8) as char,
		})
		.collect();
	let bad = txt.chars().any(|ch| ch as u32 > 255);
	let want: String = txt.chars().map(|ch| if ch as u32 > 255 { '?' } else { ch }).collect();
	let v1 = s.bool();
	let k = if v1 { *s.pick(&[Kind::Mp3, Kind::Aac, Kind::Ape, Kind::WavPack]) } else { *s.pick(&[Kind::Mp3, Kind::Aac, Kind::Wav, Kind::Aiff]) };
	let (data, _) = gen_start(s, k);
	let v3 = s.bool();
	let generic = s.bool();
	let mut o = lg::write_options(s);
	o = o.use_id3v23(v3);
	let t = if v1 {
		let mut t = lofty::id3::v1::Id3v1Tag::new();
		match s.below(4) {
			0 => t.title = Some(txt.clone()),
			1 => t.artist = Some(txt.clone()),
			2 => t.album = Some(txt.clone()),
			_ => t.comment = Some(txt.clone()),
		}
		lg::NTag::Id3v1(t)
	} else {
		let mut t = Id3v2Tag::new();
		t.insert(Frame::Text(TextInformationFrame::new(FrameId::new("TIT2").unwrap(), TextEncoding::Latin1, txt.clone())));
		lg::NTag::Id3v2(t)
	};
	// the encoding of an ID3v2 frame does not survive the conversion
	let generic = generic && v1;
	c.note(|| format!("{:?} {txt:?} in {} {o:?} generic={generic}", t.ty(), k.name()));
	let save = |o: WriteOptions| {
		let mut m = Mem::new(data.clone());
		let r = guard(|| if generic { t.generic().save_to(&mut m, o).map_err(|e| rd::chain(&e)) } else { t.save(&mut m, o).map_err(|e| rd::chain(&e)) });
		r.map(|r| (r, m.data))
	};
	let sig = |m: &str| format!("lossy text of {:?}: {m}", t.ty());
	let (r, d) = save(o.lossy_text_encoding(true))?;
	ensure!(r.is_ok(), sig("refused"), "{r:?}");
	let mut v = tag_parts(k, &d, t.ty()).map_err(|e| Fail { sig: sig("malformed"), msg: e })?;
	let latin: Vec<u8> = want.chars().map(|ch| ch as u8).collect();
	let bytes = v.pop().unwrap_or_default();
	ensure!(bytes.windows(latin.len()).any(|w| w == latin), sig("replacement"), "{want:?} is not in the tag");
	let (r2, d2) = save(o.lossy_text_encoding(false))?;
	if bad {
		ensure!(r2.is_err(), sig("accepted"), "{txt:?} was written without loss?");
		ensure!(d2 == data, sig("touched"), "the refused save changed the file");
	} else {
		ensure!(r2.is_ok() && d2 == d, sig("exact"), "{r2:?}: text that fits depends on the option");
	}
	c.class(if bad { "unrepresentable" } else { "representable" });
	c.nontrivial();
	Ok(())
}

/// Tags the format can only hold for reading.
fn readonly(c: &mut Case) -> R {
	let k = *c.src.pick(&ALL_KINDS);
	let (data, _) = gen_start(&mut c.src, k);
	let o = gen_wopts(&mut c.src);
	let bad: Vec<TagType> = lg::ALL_TYPES.iter().copied().filter(|t| !lg::writable(k).contains(t)).collect();
	let ty = *c.src.pick(&bad);
	let ro = lg::read_only(k).contains(&ty);
	let t = lg::plain_native(&mut c.src, ty);
	let generic = c.src.bool();
	// a generic tag counts as empty when it only carries items of its native format
	if generic && t.generic().is_empty() {
		return Ok(());
	}
	c.note(|| format!("{} of {} bytes, {} generic={generic}", k.name(), data.len(), t.describe()));
	let sig = |m: &str| format!("{ty:?} in {}: {m}", k.name());
	let mut m = Mem::new(data.clone());
	let r = guard(|| if generic { t.generic().save_to(&mut m, o).map_err(|e| rd::chain(&e)) } else { t.save(&mut m, o).map_err(|e| rd::chain(&e)) })?;
	ensure!(r.is_err(), sig("accepted"), "a tag that cannot be written there was accepted");
	ensure!(m.data == data, sig("touched"), "the refused save changed the file");
	let Ok(Ok(mut f)) = guard(|| rd::probe_read(Cursor::new(&data), ParseOptions::new())) else { return Ok(()) };
	let had = tag_parts(k, &data, ty);
	f.insert_tag(t.generic());
	ensure!(f.tag(ty).is_some() == ro, sig("insert"), "insert_tag disagrees with what the format supports");
	let mut m = Mem::new(data.clone());
	let r = guard(|| f.save_to(&mut m, o).map_err(|e| rd::chain(&e)))?;
	ensure!(r.is_ok(), sig("file refused"), "{r:?}");
	if ro {
		ensure!(tag_parts(k, &m.data, ty) == had, sig("written"), "the read-only tag in the file changed");
	}
	c.class(if ro { "read-only" } else { "unsupported" });
	c.nontrivial();
	Ok(())
}

/// Items of an APE tag in the file that are marked as read-only.
fn ape_items(c: &mut Case) -> R {
	let s = &mut c.src;
	let k = *s.pick(&[Kind::Mp3, Kind::Ape, Kind::WavPack, Kind::Mpc]);
	let plain = fmt::gen_plain(s, k);
	let old = roundtrip::ape_tag(s);
	let new = roundtrip::ape_tag(s);
	if old.is_empty() || new.is_empty() {
		return Ok(());
	}
	let locked = old.read_only;
	let (old, new) = (lg::NTag::Ape(old), lg::NTag::Ape(new));
	c.note(|| format!("{}: {} then {}", k.name(), old.describe(), new.describe()));
	let d = roundtrip::save(c, k, &old, WriteOptions::new(), plain.clone())?;
	let fresh = roundtrip::save(c, k, &new, WriteOptions::new(), plain)?;
	let free = roundtrip::save(c, k, &new, WriteOptions::new().respect_read_only(false), d.clone())?;
	let parts = |d: &[u8]| tag_parts(k, d, TagType::Ape).map_err(|e| Fail { sig: "APE malformed".into(), msg: e });
	ensure!(parts(&free)? == parts(&fresh)?, "APE items kept without respect_read_only", "the old tag influences the new one");
	let kept = roundtrip::save(c, k, &new, WriteOptions::new(), d)?;
	let lg::NTag::Ape(old) = &old else { unreachable!() };
	let st = roundtrip::read(k, &kept, ParseOptions::new())?;
	let Some(lg::NTag::Ape(got)) = st.get(TagType::Ape) else { return fail("APE tag missing", "no APE tag") };
	for i in old {
		if i.read_only || locked {
			let g = got.get(i.key());
			ensure!(
				g.is_some_and(|g| g.value() == i.value()),
				"APE read-only items are not retained",
				"{:?} was read-only, now {:?}",
				i.key(),
				g.map(|g| g.value())
			);
		}
	}
	c.class(if locked { "locked tag" } else { "items" });
	c.nontrivial();
	Ok(())
}

// ------------------------------------------------------------ C31

/// A writer taking a few bytes at a time, or failing after some.
struct Slow {
	out: Vec<u8>,
	step: usize,
	limit: Option<usize>,
	interrupt: bool,
}

impl std::io::Write for Slow {
	fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
		if self.interrupt {
			self.interrupt = false;
			return Err(std::io::ErrorKind::Interrupted.into());
		}
		self.interrupt = self.out.len() % 7 == 3;
		let n = b.len().min(self.step);
		if let Some(l) = self.limit {
			if self.out.len() + n > l {
				return Err(std::io::Error::other("full"));
			}
		}
		self.out.extend(&b[..n]);
		Ok(n)
	}
	fn flush(&mut self) -> std::io::Result<()> {
		Ok(())
	}
}

/// A tag, and one with the same content which was put together separately.
fn rich(s: &mut Src, ty: TagType) -> (lg::NTag, lg::NTag) {
	use lg::NTag;
	if s.chance(1, 4) {
		let t = lg::plain_native(s, ty);
		return (t.clone(), t);
	}
	let t = match ty {
		TagType::Id3v2 => {
			let mut afs = fmt::id3::gen_afs(s, lg::Cs::Any, 0, 6);
			if s.chance(1, 3) {
				let id = lg::short(s);
				let n = s.range(1, 9) as u8;
				let ch = (0..n).map(|i| (i, s.u32() as i16, 16u8, vec![1, i])).collect();
				afs.push(fmt::id3::Af::Rva2 { ident: id, ch });
			}
			let e = *s.pick(&[lofty::TextEncoding::UTF8, lofty::TextEncoding::UTF16]);
			let (crc, footer, flags) = (s.bool(), s.bool(), s.chance(1, 4));
			let make = || {
				let mut t = lofty::id3::v2::Id3v2Tag::new();
				for a in &afs {
					t.insert(fmt::id3::to_frame(a, e));
				}
				if flags {
					let mut f = *t.flags();
					f.crc = crc;
					f.footer = footer;
					t.set_flags(f);
				}
				NTag::Id3v2(t)
			};
			return (make(), make());
		},
		TagType::Id3v1 => NTag::Id3v1(roundtrip::v1_tag(s)),
		TagType::Ape => NTag::Ape(roundtrip::ape_tag(s)),
		TagType::VorbisComments => NTag::Vorbis(roundtrip::vc_tag(s)),
		TagType::Mp4Ilst => NTag::Ilst(roundtrip::ilst_tag(s)),
		TagType::RiffInfo => NTag::Riff(roundtrip::riff_tag(s)),
		_ => NTag::Aiff(roundtrip::aiff_tag(s)),
	};
	(t.clone(), t)
}

enum Any {
	N(lg::NTag),
	G(Tag),
}

impl Any {
	fn dump<W: std::io::Write>(&self, w: &mut W, o: WriteOptions) -> Result<(), String> {
		match self {
			Any::N(t) => t.dump(w, o),
			Any::G(t) => t.dump_to(w, o).map_err(|e| e.to_string()),
		}
	}
	fn canon(&self) -> Vec<String> {
		match self {
			Any::N(t) => rd::canon_full(t),
			Any::G(t) => lg::c_tag(t),
		}
	}
	fn copy(&self) -> Any {
		match self {
			Any::N(t) => Any::N(t.clone()),
			Any::G(t) => Any::G(t.clone()),
		}
	}
	fn op(self) -> Op {
		match self {
			Any::N(t) => Op::SaveNative(t),
			Any::G(t) => Op::SaveGeneric(t),
		}
	}
}

fn dump(c: &mut Case, ty: TagType) -> R {
	let (t, u) = match c.src.below(3) {
		0 => {
			let t = lg::plain_generic(&mut c.src, ty);
			(Any::G(t.clone()), Any::G(t))
		},
		1 => {
			let (t, u) = rich(&mut c.src, ty);
			(Any::G(t.generic()), Any::G(u.generic()))
		},
		_ => {
			let (t, u) = rich(&mut c.src, ty);
			(Any::N(t), Any::N(u))
		},
	};
	let o = gen_wopts(&mut c.src);
	let kind = match &t {
		Any::N(_) => "native",
		Any::G(_) => "generic",
	};
	c.note(|| format!("{kind} {ty:?} {:?} {o:?}", t.canon()).chars().take(600).collect());
	let sig = |m: &str| format!("{kind} {ty:?}: {m}");
	let before = t.canon();
	let mut a = vec![];
	let ra = guard(|| t.dump(&mut a, o))?;
	ensure!(t.canon() == before, sig("changed by dumping"), "the tag changed");
	// the same from a copy, elsewhere, in small steps
	let mut b = Slow { out: vec![], step: *c.src.pick(&[1, 2, 5, 1000]), limit: None, interrupt: false };
	let rb = guard(|| std::thread::scope(|s| s.spawn(|| u.dump(&mut b, o)).join().unwrap_or_else(|_| Err("panic".into()))))?;
	ensure!(ra == rb, sig("other writer"), "{ra:?} then {rb:?}");
	if ra.is_err() {
		return Ok(());
	}
	ensure!(a == b.out, sig("not deterministic"), "{}", first_diff(&a, &b.out));
	// an output that is full
	if !a.is_empty() {
		let mut f = Slow { out: vec![], step: 64, limit: Some(c.src.usize(0, a.len() - 1)), interrupt: false };
		let rf = guard(|| t.dump(&mut f, o))?;
		ensure!(rf.is_err(), sig("write error lost"), "only {} of {} bytes could be written, but no error was returned", f.out.len(), a.len());
		ensure!(a.starts_with(&f.out), sig("write error garbage"), "what was written is not the start of the tag");
	}
	// options of saving do not matter here
	let mut d = vec![];
	let ro = c.src.bool();
	let jb = c.src.usize(0, 5000);
	let mut o2 = o.remove_others(true).respect_read_only(ro).uppercase_id3v2_chunk(!ro);
	o2 = o2.parse_options(ParseOptions::new().max_junk_bytes(jb));
	let rd_ = guard(|| t.dump(&mut d, o2))?;
	ensure!(rd_.is_ok() && d == a, sig("depends on save options"), "{rd_:?} {}", first_diff(&a, &d));
	// in a file
	let kinds: Vec<Kind> = ALL_KINDS.iter().copied().filter(|k| lg::writable(*k).contains(&ty)).collect();
	let k = *c.src.pick(&kinds);
	let plain = fmt::gen_plain(&mut c.src, k);
	let empty = {
		let op = t.copy().op();
		op.strips()
	};
	if empty && ty == TagType::Id3v1 {
		return Ok(());
	}
	let file = preserve::do_op(c, k, &t.op(), o, plain)?;
	let parts = tag_parts(k, &file, ty).map_err(|e| Fail { sig: sig("malformed file"), msg: e })?;
	let got: Vec<u8> = match ty {
		TagType::Id3v2 if !k.is_raw() => {
			// no footers inside of chunks
			let mut g = parts.first().map(|p| p[4..].to_vec()).unwrap_or_default();
			if a.len() > 5 && a[5] & 0x10 != 0 {
				c.class("footer");
				a.truncate(a.len() - 10);
				a[5] &= !0x10;
				if let Ok((_, _, pad)) = tags::id3v2_decode(&g) {
					g.truncate(g.len() - pad);
					g[6..10].copy_from_slice(&a[6..10]);
				}
			}
			g
		},
		TagType::Id3v2 | TagType::Id3v1 | TagType::Ape | TagType::Mp4Ilst => parts.concat(),
		TagType::VorbisComments => {
			// vendor aside; in FLAC pictures have their own blocks
			if empty {
				return Ok(());
			}
			let (_, items, used) = tags::vc_decode(&a).map_err(|e| Fail { sig: sig("undecodable"), msg: e })?;
			ensure!(used == a.len(), sig("trailing bytes"), "{} of {}", used, a.len());
			let mut want: Vec<Vec<u8>> = vec![];
			let mut pics = vec![];
			for i in items {
				match i.strip_prefix(b"METADATA_BLOCK_PICTURE=") {
					Some(p) if k == Kind::Flac => pics.push(tags::b64_decode(p).unwrap_or_default()),
					_ => want.push(i),
				}
			}
			want.extend(pics);
			ensure!(want == parts, sig(&format!("differs from {}", k.name())), "{} comments and pictures dumped, {} in the file", want.len(), parts.len());
			c.class(kind);
			c.nontrivial();
			return Ok(());
		},
		_ => {
			// chunks
			let f = riff::parse(&file).map_err(|e| Fail { sig: sig("malformed file"), msg: e })?;
			let mut v = vec![];
			for x in f.chunks.iter().filter(|x| riff::is_tag_chunk(k, x) && !riff::is_id3(&x.id)) {
				v.extend(x.id);
				let n = x.data.len() as u32;
				v.extend(if k == Kind::Wav { n.to_le_bytes() } else { n.to_be_bytes() });
				v.extend(&x.data);
				if n % 2 == 1 {
					v.push(0);
				}
			}
			v
		},
	};
	ensure!(a == got, sig(&format!("differs from {}", k.name())), "dumped {} bytes, {} in the file: {}", a.len(), got.len(), first_diff(&a, &got));
	c.class(kind);
	if !a.is_empty() {
		c.nontrivial();
	}
	Ok(())
}

pub fn props() -> Vec<Property> {
	vec![Property {
		id: "C11",
		rule: "A case is a file of any format, possibly tagged by other software, and a history of 2-6 operations (save native, save generic, remove, edit and save through a file object, repeats) over all its tag types; non-trivial when the whole history ran and was compared after every step with the same tag written alone into a fresh file.",
		assumptions: &["a tag written alone into an untagged file is right (C12-C18, C20 decide that)", "the harness's own container parsers are right"],
		suites: vec![
			suite!("any", 30_000, 1_500_000, history),
			suite!("wav", 8_000, 300_000, |c| history_in(c, Kind::Wav)),
			suite!("mp4", 6_000, 300_000, |c| history_in(c, Kind::Mp4)),
			suite!("mp3", 6_000, 300_000, |c| history_in(c, Kind::Mp3)),
			suite!("disk", 6_000, 200_000, disk),
		],
	},
	Property {
		id: "C30",
		rule: "A case is a generated file of any format, possibly tagged by other software, one operation on it, and two sets of write options; non-trivial when both results were compared part by part.",
		assumptions: &["the harness's own container parsers are right"],
		suites: vec![
			suite!("padding", 20_000, 600_000, paddings),
			suite!("others", 20_000, 600_000, others),
			suite!("neutral", 20_000, 600_000, neutral),
			suite!("lossy", 10_000, 300_000, lossy),
			suite!("readonly", 15_000, 400_000, readonly),
			suite!("ape items", 5_000, 100_000, ape_items),
		],
	},
	Property {
		id: "C31",
		rule: "A case is a tag of any type (native with every kind of content, or generic) and a set of write options; non-trivial when its dump is not empty and was compared with a copy's dump through another writer in another thread and with the bytes in a file.",
		assumptions: &["the harness's own container parsers are right"],
		suites: vec![
			suite!("id3v2", 8_000, 300_000, |c| dump(c, TagType::Id3v2)),
			suite!("id3v1", 6_000, 200_000, |c| dump(c, TagType::Id3v1)),
			suite!("ape", 6_000, 200_000, |c| dump(c, TagType::Ape)),
			suite!("vorbis", 6_000, 200_000, |c| dump(c, TagType::VorbisComments)),
			suite!("ilst", 6_000, 200_000, |c| dump(c, TagType::Mp4Ilst)),
			suite!("riff", 6_000, 200_000, |c| dump(c, TagType::RiffInfo)),
			suite!("aiff", 6_000, 200_000, |c| dump(c, TagType::AiffText)),
		],
	}]
}
