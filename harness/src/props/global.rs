//! C32: options per thread, custom resolvers.

use crate::engine::{Case, Fail, Property, R, Src, Suite, fail, guard};
use crate::ensure;
use crate::fmt::{self, Kind};
use crate::lg::{self, NTag};
use crate::rd;
use crate::util::{Mem, Scratch, hex};
use lofty::config::{GlobalOptions, ParseOptions, WriteOptions, apply_global_options};
use lofty::error::{FileEncodingError, FileParseError};
use lofty::file::{AudioFile, FileType, TaggedFile, TaggedFileExt};
use lofty::id3::v2::{BinaryFrame, Frame, FrameId, Id3v2Tag, PrivateFrame};
use lofty::io::FileLike;
use lofty::mp4::{Atom, AtomData, AtomIdent, Ilst};
use lofty::picture::{MimeType, Picture, PictureType};
use lofty::probe::Probe;
use lofty::properties::FileProperties;
use lofty::resolve::{FileResolver, register_custom_resolver};
use lofty::tag::{Accessor, ItemKey, ItemValue, Tag, TagSupport, TagType};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::sync::{Once, mpsc};

macro_rules! suite {
	($name:literal, $q:expr, $t:expr, $f:expr) => {
		Suite { name: $name, quick: $q, thorough: $t, run: $f }
	};
}

// ------------------------------------------------------------------ resolvers

const NAMES: [&str; 3] = ["VhOne", "VhRiff", "VhTiny"];
const EXTS: [Option<&str>; 3] = [Some("vhone"), Some("wav"), None];
const PRIMARY: [TagType; 3] = [TagType::Ape, TagType::Id3v2, TagType::VorbisComments];
const SUPPORT: [TagSupport; 3] = [TagSupport::ReadWrite, TagSupport::ReadOnly, TagSupport::Unsupported];

/// What resolver `n` accepts; at most one accepts any given content.
fn matches(n: usize, buf: &[u8]) -> bool {
	match n {
		0 => buf.starts_with(b"VHMAGIC"),
		1 => buf.len() >= 36 && &buf[12..16] == b"vhx2" && buf[35] == 0x5A,
		_ => buf == b"tiny",
	}
}

thread_local! {
	/// the buffers shown to resolvers on this thread
	static SEEN: RefCell<Vec<(usize, Vec<u8>)>> = const { RefCell::new(vec![]) };
	static NESTED: Cell<bool> = const { Cell::new(false) };
}

struct Custom<const N: usize> {
	at: u64,
	rest: Vec<u8>,
	options: String,
}

/// the title put into files read by resolver `n`
fn report(n: usize, at: u64, rest: &[u8], options: &str) -> String {
	let h = rest.iter().fold(0xcbf2_9ce4_8422_2325_u64, |h, b| (h ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3));
	format!("{n} at {at}: {} bytes {h:x} {options}", rest.len())
}

impl<const N: usize> From<Custom<N>> for TaggedFile {
	fn from(f: Custom<N>) -> TaggedFile {
		let mut t = Tag::new(TagType::Ape);
		t.set_title(report(N, f.at, &f.rest, &f.options));
		TaggedFile::new(FileType::Custom(NAMES[N]), FileProperties::default(), vec![t])
	}
}

impl<const N: usize> AudioFile for Custom<N> {
	type Properties = ();
	fn read_from<R: Read + Seek>(reader: &mut R, parse_options: ParseOptions) -> Result<Self, FileParseError> {
		let at = reader.stream_position().expect("position");
		let mut rest = vec![];
		reader.read_to_end(&mut rest).expect("content");
		// a resolver may use the library itself
		let inner = Probe::with_file_type(Cursor::new(&rest), FileType::Flac).read();
		assert!(inner.is_err() || rest.starts_with(b"fLaC"));
		Ok(Custom { at, rest, options: format!("{parse_options:?}") })
	}
	fn save_to<F: FileLike>(&self, _: &mut F, _: WriteOptions) -> Result<(), FileEncodingError> {
		Ok(())
	}
	fn properties(&self) -> &() {
		&()
	}
	fn contains_tag(&self) -> bool {
		true
	}
	fn contains_tag_type(&self, t: TagType) -> bool {
		t == TagType::Ape
	}
}

impl<const N: usize> FileResolver for Custom<N> {
	fn extension() -> Option<&'static str> {
		EXTS[N]
	}
	fn primary_tag_type() -> TagType {
		PRIMARY[N]
	}
	fn tag_support(t: TagType) -> TagSupport {
		if t == PRIMARY[N] { SUPPORT[N] } else { TagSupport::Unsupported }
	}
	fn guess(buf: &[u8]) -> Option<FileType> {
		SEEN.with(|s| s.borrow_mut().push((N, buf.to_vec())));
		assert!(!buf.starts_with(b"VHPANIC"), "this resolver gives up");
		// a resolver may use the library itself
		if !NESTED.replace(true) {
			let inner = Probe::new(Cursor::new(buf)).guess_file_type().map(|p| p.file_type());
			let ext = FileType::from_ext("FlAc");
			NESTED.set(false);
			assert!(inner.is_ok() && ext == Some(FileType::Flac));
		}
		matches(N, buf).then_some(FileType::Custom(NAMES[N]))
	}
}

fn register() {
	static ONCE: Once = Once::new();
	ONCE.call_once(|| {
		register_custom_resolver::<Custom<0>>(NAMES[0]);
		register_custom_resolver::<Custom<1>>(NAMES[1]);
		register_custom_resolver::<Custom<2>>(NAMES[2]);
	});
}

// ------------------------------------------------------------------ threads

type Job = Box<dyn FnOnce() + Send>;

struct Th {
	tx: Option<mpsc::Sender<Job>>,
	h: Option<std::thread::JoinHandle<()>>,
}

impl Th {
	fn new() -> Th {
		let (tx, rx) = mpsc::channel::<Job>();
		let h = std::thread::spawn(move || {
			for j in rx {
				j();
			}
		});
		Th { tx: Some(tx), h: Some(h) }
	}
	/// runs on the thread; panics there come back as failures
	fn on<T: Send + 'static>(&self, f: impl FnOnce() -> T + Send + 'static) -> Result<T, Fail> {
		let (tx, rx) = mpsc::channel();
		let job: Job = Box::new(move || {
			let _ = tx.send(guard(f));
		});
		self.tx.as_ref().unwrap().send(job).expect("worker thread");
		rx.recv().expect("worker thread")
	}
}

impl Drop for Th {
	fn drop(&mut self) {
		self.tx = None;
		if let Some(h) = self.h.take() {
			let _ = h.join();
		}
	}
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Opts {
	resolvers: bool,
	limit: usize,
	preserve: bool,
}

const DEFAULT: Opts = Opts { resolvers: true, limit: 16 << 20, preserve: true };

impl Opts {
	fn real(self) -> GlobalOptions {
		GlobalOptions::new()
			.use_custom_resolvers(self.resolvers)
			.allocation_limit(self.limit)
			.preserve_format_specific_items(self.preserve)
	}
}

fn gen_opts(s: &mut Src, cur: Opts) -> Opts {
	let mut o = if s.chance(1, 4) { DEFAULT } else { cur };
	if s.bool() {
		o.resolvers = !o.resolvers;
	}
	if s.bool() {
		o.limit = *s.pick(&[4096, 10_000, 50_000, 300_000, 16 << 20, usize::MAX]);
	}
	if s.bool() {
		o.preserve = !o.preserve;
	}
	o
}

// ------------------------------------------------------------------ observations

/// file, position to start from, built-in type of what is there
fn gen_content(s: &mut Src) -> (Vec<u8>, usize, Option<FileType>) {
	let at = if s.chance(1, 3) { s.size(60, &[1, 36]) as usize } else { 0 };
	let mut d: Vec<u8> = (0..at).map(|_| s.below(0x80) as u8).collect();
	let ty = match s.weighted(&[3, 2, 2, 2, 3, 1]) {
		0 => {
			d.extend(b"VHMAGIC");
			let n = s.size(80, &[0, 29, 28, 30]) as usize;
			d.extend((0..n).map(|_| s.below(0x80) as u8));
			None
		},
		1 => {
			// a form with a chunk of resolver 1 first
			let mut b = b"RIFF\0\0\0\0WAVEvhx2".to_vec();
			let n = if s.chance(1, 3) { s.below(18) as u32 + 10 } else { 40 };
			b.extend(n.to_le_bytes());
			b.extend((0..n).map(|_| s.below(0x80) as u8));
			if n >= 16 && s.chance(3, 4) {
				b[35] = 0x5A;
			} else if n >= 16 {
				b[35] = 0x5B;
			}
			let l = (b.len() - 8) as u32;
			b[4..8].copy_from_slice(&l.to_le_bytes());
			d.extend(b);
			Some(FileType::Wav)
		},
		2 => {
			d.extend(b"tiny");
			if s.bool() {
				d.push(s.below(0x80) as u8);
			}
			None
		},
		3 => {
			let n = s.size(60, &[0, 1, 36]) as usize;
			d.extend((0..n).map(|_| 0x20 + s.below(0x10) as u8));
			None
		},
		4 => {
			let k = *s.pick(&[Kind::Wav, Kind::Flac, Kind::Aiff, Kind::Opus, Kind::Vorbis, Kind::WavPack, Kind::Ape, Kind::Mp4]);
			d.extend(fmt::gen_plain(s, k));
			Some(k.file_type())
		},
		_ => {
			// the accepted content comes after a tag: resolvers only see the tag
			d.extend(b"ID3\x04\0\0\0\0\0\x0A");
			d.extend([0; 10]);
			d.extend(b"VHMAGIC and more");
			None
		},
	};
	(d, at, ty)
}

struct Seen {
	guessed: Option<FileType>,
	after: u64,
	seen: Vec<(usize, Vec<u8>)>,
	/// file type and title of what was read
	read: Result<(FileType, Option<String>), String>,
}

fn observe(d: Vec<u8>, at: usize, o: ParseOptions) -> Seen {
	SEEN.with(|s| s.borrow_mut().clear());
	let mut c = Cursor::new(d);
	c.seek(SeekFrom::Start(at as u64)).unwrap();
	let p = Probe::new(&mut c).options(o).guess_file_type().expect("in memory");
	let guessed = p.file_type();
	drop(p);
	let after = c.position();
	let seen = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
	let p = Probe::new(c).options(o).guess_file_type().expect("in memory");
	let read = p.read().map(|f| (f.file_type(), f.primary_tag().or(f.first_tag()).and_then(|t| t.title().map(Cow::into_owned)))).map_err(|e| rd::chain(&e));
	Seen { guessed, after, seen, read }
}

fn check_seen(o: Opts, d: &[u8], at: usize, ty: Option<FileType>, po: ParseOptions, x: &Seen) -> R {
	let rest = &d[at..];
	let head = &rest[..rest.len().min(36)];
	let hit = (0..3).find(|n| o.resolvers && matches(*n, head));
	let want = hit.map_or(ty, |n| Some(FileType::Custom(NAMES[n])));
	ensure!(x.guessed == want, "detection with resolvers", "{o:?}: expected {want:?}, found {:?} for {}", x.guessed, hex(head));
	ensure!(x.after == at as u64, "detection moved the reader", "started at {at}, ended at {}", x.after);
	if o.resolvers {
		ensure!(!x.seen.is_empty(), "resolvers not asked", "for {}", hex(head));
	} else {
		ensure!(x.seen.is_empty(), "resolvers asked although disabled", "for {}", hex(head));
	}
	for (n, b) in &x.seen {
		ensure!(
			rest.starts_with(b) && b.len() >= head.len(),
			"resolver saw something else than the start of the file",
			"{n}: {} instead of {}",
			hex(b),
			hex(head)
		);
	}
	if let Some(n) = hit {
		let t = report(n, at as u64, rest, &format!("{po:?}"));
		ensure!(
			x.read == Ok((FileType::Custom(NAMES[n]), Some(t.clone()))),
			"file not read by its resolver",
			"expected {t:?}, found {:?}",
			x.read
		);
	} else if let Ok((t, _)) = &x.read {
		ensure!(Some(*t) == ty, "read with a wrong type", "{t:?} instead of {ty:?}");
	}
	Ok(())
}

/// A tag with items only its own format has.
fn gen_special(s: &mut Src) -> (NTag, NTag) {
	if s.bool() {
		let mut t = Id3v2Tag::new();
		t.set_title(lg::short(s));
		let plain = t.clone();
		for i in 0..s.range(1, 3) {
			let d = { let n = s.range(1, 20) as usize; s.blob(n) };
			if s.bool() {
				t.insert(Frame::Private(PrivateFrame::new(format!("owner {i}"), d)));
			} else {
				t.insert(Frame::Binary(BinaryFrame::new(FrameId::new(["XABA", "XABB", "XABC", "XABD"][i as usize]).unwrap(), d)));
			}
		}
		(NTag::Id3v2(t), NTag::Id3v2(plain))
	} else {
		let mut t = Ilst::new();
		t.set_title(lg::short(s));
		let plain = t.clone();
		for i in 0..s.range(1, 3) {
			let d = { let n = s.range(1, 20) as usize; s.blob(n) };
			let ident = if s.bool() {
				AtomIdent::Fourcc([b'z', b'z', b'z', b'a' + i as u8])
			} else {
				AtomIdent::Freeform { mean: Cow::Borrowed("org.vh"), name: Cow::Owned(format!("n{i}")) }
			};
			t.insert(Atom::new(ident, AtomData::Unknown { code: lofty::mp4::DataType::Reserved, data: d }));
		}
		(NTag::Ilst(t), NTag::Ilst(plain))
	}
}

/// (file, its tag type): one item of `size` bytes in it
fn big_file(s: &mut Src, size: usize) -> (Kind, TagType, bool, Vec<u8>) {
	let k = *s.pick(&[Kind::Wav, Kind::Flac, Kind::Aiff, Kind::Opus, Kind::Vorbis, Kind::WavPack, Kind::Ape, Kind::Mp4, Kind::Mp3, Kind::Aac, Kind::Speex]);
	let plain = fmt::gen_plain(s, k);
	let ty = *s.pick(&lg::writable(k).iter().copied().filter(|t| *t != TagType::Id3v1).collect::<Vec<_>>());
	let mut t = Tag::new(ty);
	let text = "x".repeat(size);
	let pic = !matches!(ty, TagType::RiffInfo | TagType::AiffText) && s.chance(1, 3);
	if pic {
		let mut d = lg::png(1, 1, 8, 2, None, 0);
		d.resize(d.len().max(size), 7);
		t.push_picture(Picture::unchecked(d).pic_type(PictureType::CoverFront).mime_type(MimeType::Png).build());
	} else {
		t.insert_text(*s.pick(&[ItemKey::TrackTitle, ItemKey::Comment, ItemKey::CopyrightMessage]), text);
	}
	let mut m = Mem::new(plain);
	let n = NTag::from_generic(t);
	n.save(&mut m, WriteOptions::new().preferred_padding(0)).expect("saving under default options");
	(k, ty, pic, m.data)
}

/// does the tag hold an item of (about) that size?
fn has_big(n: &rd::Native, ty: TagType, size: usize) -> bool {
	n.get(ty).is_some_and(|t| {
		if let NTag::Ape(a) = t {
			return a.into_iter().any(|i| match i.value() {
				ItemValue::Text(x) | ItemValue::Locator(x) => x.len() >= size,
				ItemValue::Binary(x) => x.len() >= size,
			});
		}
		let g = t.generic();
		g.items().any(|i| i.value().text().is_some_and(|x| x.len() >= size)) || g.pictures().iter().any(|p| p.data().len() >= size)
	}) || n.extra.iter().any(|x| x.len() > size.min(60))
}

// ------------------------------------------------------------------ suites

fn history(c: &mut Case) -> R {
	register();
	let s = &mut c.src;
	let nth = s.range(2, 3) as usize;
	let mut th: Vec<(Th, Opts)> = (0..nth).map(|_| (Th::new(), DEFAULT)).collect();
	let mut applied = 0;
	let mut looks = 0;
	for _ in 0..s.range(3, 14) {
		let s = &mut c.src;
		let i = s.below(th.len() as u64) as usize;
		let cur = th[i].1;
		match s.weighted(&[6, 4, 3, 2, 4, 1, 1, 4, 1, 1]) {
			0 => {
				let o = gen_opts(s, cur);
				th[i].0.on(move || apply_global_options(o.real()))?;
				th[i].1 = o;
				applied += 1;
				c.note(|| format!("thread {i}: {o:?}"));
			},
			1 => {
				let (d, at, ty) = gen_content(s);
				let po = rd::parse_options(s);
				let d2 = d.clone();
				c.note(|| format!("thread {i}: {} bytes from {at}: {}", d.len(), hex(&d[at..d.len().min(at + 40)])));
				let x = th[i].0.on(move || observe(d2, at, po))?;
				check_seen(cur, &d, at, ty, po, &x)?;
				looks += 1;
			},
			2 => {
				let (e, n, builtin) = match s.below(5) {
					0 => ("vhone", Some(0), None),
					1 => ("wav", Some(1), Some(FileType::Wav)),
					2 => ("wave", None, Some(FileType::Wav)),
					3 => ("mp3", None, Some(FileType::Mpeg)),
					_ => ("vhtiny", None, None),
				};
				let e: String = e.chars().map(|x| if s.bool() { x.to_ascii_uppercase() } else { x }).collect();
				c.note(|| format!("thread {i}: extension {e}"));
				let want = n.filter(|_| cur.resolvers).map(|n| FileType::Custom(NAMES[n])).or(builtin);
				let e2 = e.clone();
				let (a, b) = th[i].0.on(move || (FileType::from_ext(&e2), FileType::from_path(format!("/x.y/a b.{e2}"))))?;
				ensure!(a == want && b == want, "type by extension", "{cur:?} {e}: expected {want:?}, found {a:?} and {b:?}");
				looks += 1;
			},
			3 => {
				let n = s.below(3) as usize;
				let data = { let n = s.below(61) as usize; s.blob(n) };
				c.note(|| format!("thread {i}: read as {}", NAMES[n]));
				let d = data.clone();
				let (r, prim, sup) = th[i].0.on(move || {
					let ft = FileType::Custom(NAMES[n]);
					let r = Probe::with_file_type(Cursor::new(d), ft).read();
					let r = match r {
						Ok(f) => Ok((f.file_type(), f.first_tag().and_then(|t| t.title().map(Cow::into_owned)))),
						Err(e) => Err(rd::chain(&e)),
					};
					(r, ft.primary_tag_type(), lg::ALL_TYPES.map(|t| ft.tag_support(t)))
				})?;
				if cur.resolvers {
					let t = report(n, 0, &data, &format!("{:?}", ParseOptions::new()));
					ensure!(r == Ok((FileType::Custom(NAMES[n]), Some(t))), "file not read by its resolver", "{r:?}");
				} else {
					ensure!(r.is_err(), "custom file read although resolvers are disabled", "{r:?}");
				}
				ensure!(prim == PRIMARY[n], "primary tag type of a custom file", "{prim:?}");
				for (t, got) in lg::ALL_TYPES.iter().zip(sup) {
					let w = if *t == PRIMARY[n] { SUPPORT[n] } else { TagSupport::Unsupported };
					ensure!(got == w, "tag support of a custom file", "{t:?}: {got:?}");
				}
				looks += 1;
			},
			4 => {
				// to the generic tag on one thread, back on another one
				let (special, plain) = gen_special(s);
				let j = s.below(th.len() as u64) as usize;
				let other = th[j].1;
				c.note(|| format!("{} converted on thread {i}, back on thread {j}", special.describe()));
				let t = special.clone();
				let g = th[i].0.on(move || t.generic())?;
				let items = (g.item_count(), g.picture_count());
				ensure!(items == (1, 0), "generic view of a tag with special items", "{items:?}");
				let back = th[j].0.on(move || NTag::from_generic(g))?;
				let want = if cur.preserve && other.preserve { &special } else { &plain };
				let mut a = back.canon();
				let mut b = want.canon();
				a.sort();
				b.sort();
				ensure!(a == b, "special items after conversion", "{cur:?} then {other:?}: {a:?} instead of {b:?}");
				looks += 1;
			},
			5 => {
				// the same through files
				let (special, plain) = gen_special(s);
				let k = if special.ty() == TagType::Id3v2 { Kind::Mp3 } else { Kind::Mp4 };
				let mut m = Mem::new(fmt::gen_plain(s, k));
				special.save(&mut m, WriteOptions::new()).map_err(|e| Fail { sig: "save".into(), msg: rd::chain(&e) })?;
				let mut fresh = Mem::new(fmt::gen_plain(s, k));
				let d = m.data.clone();
				let ty = special.ty();
				let d = th[i].0.on(move || {
					let f = Probe::new(Cursor::new(d)).guess_file_type().unwrap().read().map_err(|e| rd::chain(&e))?;
					let t = f.tag(ty).ok_or("no tag")?;
					lofty::tag::TagExt::save_to(t, &mut fresh, WriteOptions::new()).map_err(|e| rd::chain(&e))?;
					Ok::<_, String>(fresh.data)
				})?;
				let d = d.map_err(|e| Fail { sig: "file step".into(), msg: e })?;
				let n = rd::read_native(k, &mut Cursor::new(&d), ParseOptions::new(), false).map_err(|e| Fail { sig: "read back".into(), msg: e })?;
				let got = n.get(ty).map(NTag::canon).unwrap_or_default();
				let mut a = got;
				let mut b = if cur.preserve { &special } else { &plain }.canon();
				a.sort();
				b.sort();
				ensure!(a == b, "special items through files", "{cur:?}: {a:?} instead of {b:?}");
				looks += 1;
			},
			6 => {
				let (name, n, builtin) = match s.below(3) {
					0 => ("x.vhone", Some(0), None),
					1 => ("x.WaV", Some(1), Some(FileType::Wav)),
					_ => ("x.wave", None, Some(FileType::Wav)),
				};
				let data = fmt::gen_plain(s, Kind::Wav);
				let sc = Scratch::new(name, &data);
				let p = sc.0.clone();
				let r = th[i].0.on(move || match lofty::read_from_path(&p) {
					Ok(f) => Ok((f.file_type(), f.first_tag().and_then(|t| t.title().map(Cow::into_owned)))),
					Err(e) => Err(rd::chain(&e)),
				})?;
				c.note(|| format!("thread {i}: file {name}"));
				match n.filter(|_| cur.resolvers) {
					Some(n) => {
						let t = report(n, 0, &data, &format!("{:?}", ParseOptions::new()));
						ensure!(r == Ok((FileType::Custom(NAMES[n]), Some(t))), "file not read by its resolver", "{r:?}");
					},
					None => {
						let got = r.as_ref().ok().map(|x| x.0);
						ensure!(got == builtin, "read by path", "{cur:?} {name}: expected {builtin:?}, found {r:?}");
					},
				}
				looks += 1;
			},
			8 => {
				// a name that is taken is refused; nothing else comes of it
				let n = s.below(3) as usize;
				c.note(|| format!("thread {i}: {} registered again", NAMES[n]));
				let r = th[i].0.on(move || guard(|| register_custom_resolver::<Custom<1>>(NAMES[n])).is_err())?;
				ensure!(r, "a taken resolver name is accepted", "{}", NAMES[n]);
			},
			9 => {
				// so is a resolver that panics
				let short = s.bool();
				c.note(|| format!("thread {i}: a resolver panics"));
				let r = th[i].0.on(move || {
					let x = guard(|| Probe::new(Cursor::new(if short { &b"VHPANIC"[..] } else { b"VHPANIC and so on" })).guess_file_type().map(|p| p.file_type()).ok());
					NESTED.set(false);
					SEEN.with(|s| s.borrow_mut().clear());
					x
				})?;
				if cur.resolvers {
					ensure!(r.is_err(), "resolvers not asked", "");
				} else {
					ensure!(matches!(r, Ok(Some(None))), "resolvers asked although disabled", "{r:?}");
				}
			},
			_ => {
				let size = *s.pick(&[1000, 3000, 9000, 20_000, 100_000, 700_000]);
				let (k, ty, pic, d) = big_file(s, size);
				c.note(|| format!("thread {i}: {} {ty:?} {} of {size} bytes", k.name(), if pic { "picture" } else { "text" }));
				let d2 = d.clone();
				let r = th[i].0.on(move || rd::read_native(k, &mut Cursor::new(&d2), ParseOptions::new(), false).map(|n| has_big(&n, ty, size)))?;
				check_limit(cur, k, ty, pic, size, &r)?;
				looks += 1;
			},
		}
	}
	// a thread started later has the defaults
	let t = Th::new();
	let e = t.on(|| FileType::from_ext("VHONE"))?;
	ensure!(e == Some(FileType::Custom(NAMES[0])), "defaults of a new thread", "{e:?}");
	let (special, _) = gen_special(&mut c.src);
	let sp = special.clone();
	let back = t.on(move || NTag::from_generic(sp.generic()))?;
	let (mut a, mut b) = (back.canon(), special.canon());
	a.sort();
	b.sort();
	ensure!(a == b, "defaults of a new thread", "{a:?} instead of {b:?}");
	if applied > 0 && looks > 1 {
		c.nontrivial();
	}
	Ok(())
}

fn check_limit(o: Opts, k: Kind, ty: TagType, pic: bool, size: usize, r: &Result<bool, String>) -> R {
	let what = if pic { "picture" } else { "text" };
	// base64 in Vorbis comments
	let largest = size * 3 / 2 + 600;
	if largest <= o.limit {
		ensure!(matches!(r, Ok(true)), &format!("{} {ty:?} {what} under the limit is not read", k.name()), "{size} bytes, limit {}: {r:?}", o.limit);
	} else if size > o.limit && ty == TagType::Id3v2 && !matches!(k, Kind::Wav | Kind::Aiff) {
		ensure!(!matches!(r, Ok(true)), "the allocation limit does not apply to ID3v2 frames", "{} {what} of {size} bytes, limit {}", k.name(), o.limit);
	} else if size > o.limit {
		ensure!(!matches!(r, Ok(true)), &format!("{} {ty:?} {what} over the limit is read", k.name()), "{size} bytes, limit {}", o.limit);
	}
	Ok(())
}

fn limits(c: &mut Case) -> R {
	register();
	let s = &mut c.src;
	let limit = if s.chance(1, 3) { *s.pick(&[2048, 4096, 10_000, 65_536, 100_000]) } else { s.range(2000, 100_000) as usize };
	let size = match s.below(4) {
		0 => limit + 1,
		1 => limit + s.range(1, 200) as usize,
		2 => limit * s.range(2, 6) as usize,
		_ => s.range(1, (limit as u64).saturating_sub(600) * 2 / 3) as usize,
	};
	let (k, ty, pic, d) = big_file(s, size);
	c.note(|| format!("{} {ty:?} {} of {size} bytes, limit {limit}", k.name(), if pic { "picture" } else { "text" }));
	c.class(if size > limit { "over" } else { "under" });
	c.nontrivial();
	let o = Opts { limit, ..DEFAULT };
	apply_global_options(o.real());
	let r = guard(|| rd::read_native(k, &mut Cursor::new(&d), ParseOptions::new(), false).map(|n| has_big(&n, ty, size)));
	crate::util::reset_globals();
	check_limit(o, k, ty, pic, size, &r?)?;
	// and back
	let n = guard(|| rd::read_native(k, &mut Cursor::new(&d), ParseOptions::new(), false))?;
	ensure!(n.as_ref().is_ok_and(|n| has_big(n, ty, size)), "reading after the limit was raised", "{:?}", n.err());
	Ok(())
}

fn parallel(c: &mut Case) -> R {
	register();
	let mut jobs = vec![];
	for _ in 0..3 {
		let s = &mut c.src;
		let mut steps = vec![];
		let mut o = DEFAULT;
		for _ in 0..s.range(2, 6) {
			o = gen_opts(s, o);
			let (d, at, ty) = gen_content(s);
			let sp = gen_special(s);
			steps.push((o, d, at, ty, sp, rd::parse_options(s)));
		}
		jobs.push(steps);
	}
	c.nontrivial();
	let barrier = std::sync::Arc::new(std::sync::Barrier::new(jobs.len()));
	let hs: Vec<_> = jobs
		.into_iter()
		.map(|steps| {
			let barrier = barrier.clone();
			std::thread::spawn(move || -> R {
				barrier.wait();
				guard(|| {
					for (o, d, at, ty, (special, plain), po) in steps {
						apply_global_options(o.real());
						std::thread::yield_now();
						let x = observe(d.clone(), at, po);
						check_seen(o, &d, at, ty, po, &x)?;
						let back = NTag::from_generic(special.generic());
						let (mut a, mut b) = (back.canon(), if o.preserve { &special } else { &plain }.canon());
						a.sort();
						b.sort();
						ensure!(a == b, "special items after conversion", "{o:?}: {a:?} instead of {b:?}");
					}
					Ok(())
				})?
			})
		})
		.collect();
	for h in hs {
		match h.join() {
			Ok(r) => r?,
			Err(_) => return fail("thread died", "a worker thread ended"),
		}
	}
	Ok(())
}

pub fn props() -> Vec<Property> {
	vec![Property {
		id: "C32",
		rule: "options were applied to a thread and observed by at least two later reads or conversions (histories); an item on a known side of the limit was read (limits)",
		assumptions: &["resolvers accept disjoint contents", "resolvers do not register others while they run"],
		suites: vec![
			suite!("history", 4000, 200_000, history),
			suite!("limits", 3000, 100_000, limits),
			suite!("parallel", 600, 30_000, parallel),
		],
	}]
}
