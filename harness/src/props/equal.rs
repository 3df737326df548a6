//! C37: equality, hashes and order.

use super::id3v2::te;
use super::roundtrip;
use crate::engine::{Case, Property, R, Src, Suite, guard};
use crate::ensure;
use crate::fmt::id3::{self, Af};
use crate::fmt::{self, Kind};
use crate::lg::{self, Cs, NTag};
use crate::rd;
use lofty::ape::{ApeItem, ApeTag};
use lofty::config::{ParseOptions, WriteOptions};
use lofty::id3::v2::{FrameFlags, FrameId, Id3v2Tag};
use lofty::iff::wav::RiffInfoList;
use lofty::mp4::{Atom, AtomData, AtomIdent, Ilst};
use lofty::ogg::OggPictureStorage;
use lofty::ogg::tag::VorbisComments;
use lofty::picture::{MimeType, Picture};
use lofty::tag::items::Timestamp;
use lofty::tag::{ItemValue, TagItem, TagType};
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::Cursor;

macro_rules! suite {
	($name:literal, $q:expr, $t:expr, $f:expr) => {
		Suite { name: $name, quick: $q, thorough: $t, run: $f }
	};
}

fn hash<T: Hash>(t: &T) -> u64 {
	let mut h = DefaultHasher::new();
	t.hash(&mut h);
	h.finish()
}

/// everything a tag says
fn full(t: &NTag) -> Vec<String> {
	let mut v = t.canon();
	match t {
		NTag::Ape(t) => v.push(format!("read only {}", t.read_only)),
		NTag::Vorbis(t) => v.push(format!("vendor {:?}", t.vendor())),
		NTag::Id3v2(t) => v.push(format!("{:?} {:?}", t.flags(), t.original_version())),
		_ => {},
	}
	v
}

fn eq(a: &NTag, b: &NTag) -> bool {
	match (a, b) {
		(NTag::Id3v2(a), NTag::Id3v2(b)) => a == b,
		(NTag::Id3v1(a), NTag::Id3v1(b)) => a == b,
		(NTag::Ape(a), NTag::Ape(b)) => a == b,
		(NTag::Vorbis(a), NTag::Vorbis(b)) => a == b,
		(NTag::Ilst(a), NTag::Ilst(b)) => a == b,
		(NTag::Riff(a), NTag::Riff(b)) => a == b,
		(NTag::Aiff(a), NTag::Aiff(b)) => a == b,
		_ => false,
	}
}

fn gen_tag(s: &mut Src, ty: TagType) -> NTag {
	match ty {
		TagType::Id3v1 => NTag::Id3v1(roundtrip::v1_tag(s)),
		TagType::Ape => NTag::Ape(roundtrip::ape_tag(s)),
		TagType::VorbisComments => NTag::Vorbis(roundtrip::vc_tag(s)),
		TagType::Mp4Ilst => NTag::Ilst(roundtrip::ilst_tag(s)),
		TagType::RiffInfo => NTag::Riff(roundtrip::riff_tag(s)),
		TagType::AiffText => NTag::Aiff(roundtrip::aiff_tag(s)),
		_ => {
			let mut t = Id3v2Tag::new();
			for f in id3::gen_afs(s, Cs::Any, 1, 6) {
				t.insert(id3::to_frame(&f, te(1 + s.below(3) as u8)));
			}
			NTag::Id3v2(t)
		},
	}
}

/// the same contents, put together another way
fn rebuilt(s: &mut Src, t: &NTag) -> NTag {
	match t {
		NTag::Id3v2(t) => {
			let mut n = Id3v2Tag::new();
			n.set_flags(*t.flags());
			// pushed and put in their place by an equal frame later
			for f in t {
				n.insert(f.clone());
			}
			NTag::Id3v2(n)
		},
		NTag::Ape(t) => {
			let mut n = ApeTag::new();
			n.read_only = t.read_only;
			let x = s.bool();
			if x {
				n.insert(ApeItem::new("verif extra".to_string(), ItemValue::Text("x".to_string())).unwrap());
			}
			for i in t.clone() {
				n.push(i);
			}
			n.remove("Verif Extra");
			NTag::Ape(n)
		},
		NTag::Vorbis(t) => {
			let mut n = VorbisComments::new();
			n.set_vendor(t.vendor().to_string());
			n.push("VERIF EXTRA".to_string(), "x".to_string());
			for (k, v) in t.items() {
				n.push(k.to_string(), v.to_string());
			}
			drop(n.remove("Verif extra"));
			for (p, i) in t.pictures() {
				let _ = n.insert_picture(p.clone(), Some(*i));
			}
			NTag::Vorbis(n)
		},
		NTag::Ilst(t) => {
			let mut n = Ilst::new();
			let extra = AtomIdent::Freeform { mean: Cow::Borrowed("verif"), name: Cow::Borrowed("extra") };
			for a in t {
				let data: Vec<AtomData> = a.data().cloned().collect();
				match s.below(3) {
					0 => n.insert(a.clone()),
					1 => n.insert(Atom::from_collection(a.ident().clone().into_owned(), data).unwrap()),
					_ => {
						let mut it = data.into_iter();
						let mut x = Atom::new(a.ident().clone().into_owned(), it.next().unwrap());
						for d in it {
							x.push_data(d);
						}
						n.insert(x);
					},
				}
			}
			n.insert(Atom::new(extra.clone(), AtomData::UTF8("x".to_string())));
			drop(n.remove(&extra));
			NTag::Ilst(n)
		},
		NTag::Riff(t) => {
			let mut n = RiffInfoList::new();
			for (k, v) in t {
				n.insert(k.to_string(), v.to_string());
			}
			n.insert("ZZZZ".to_string(), "x".to_string());
			if t.get("ZZZZ").is_none() {
				n.remove("ZZZZ");
			} else {
				n = t.clone();
			}
			NTag::Riff(n)
		},
		t => t.clone(),
	}
}

/// a small difference, or none
fn changed(s: &mut Src, t: &NTag) -> NTag {
	let mut t = t.clone();
	match &mut t {
		NTag::Ape(t) => {
			if s.chance(1, 4) {
				t.read_only ^= true;
			} else {
				let mut v: Vec<ApeItem> = t.clone().into_iter().collect();
				if !v.is_empty() {
					let i = s.usize(0, v.len() - 1);
					match s.below(4) {
						0 => v[i].read_only ^= true,
						1 => {
							v.remove(i);
						},
						2 => v.rotate_left(1),
						_ => v[i] = ApeItem::new(v[i].key().to_string(), ItemValue::Text("changed".to_string())).unwrap(),
					}
				}
				let mut n = ApeTag::new();
				n.read_only = t.read_only;
				for i in v {
					n.push(i);
				}
				*t = n;
			}
		},
		NTag::Vorbis(t) => match s.below(4) {
			0 => {
			let mut v = t.vendor().to_string();
			twist(s, &mut v);
			t.set_vendor(v);
		},
			1 => t.push("NEW".to_string(), String::new()),
			2 => {
				let mut v: Vec<(String, String)> = t.take_items().collect();
				if !v.is_empty() {
					let i = s.usize(0, v.len() - 1);
					if s.bool() { v.rotate_left(1) } else { twist(s, &mut v[i].1) }
				}
				for (k, x) in v {
					t.push(k, x);
				}
			},
			_ => {
				if let Some((p, i)) = t.pictures().first().cloned() {
					t.set_picture(0, p, lofty::picture::PictureInformation { color_depth: i.color_depth ^ 1, ..i });
				}
			},
		},
		NTag::Ilst(t) => match s.below(3) {
			0 => t.insert(Atom::new(AtomIdent::Fourcc(*b"zzzz"), AtomData::Bool(false))),
			1 => {
				let id = (&*t).into_iter().next().map(|a| a.ident().clone().into_owned());
				if let Some(id) = id {
					t.insert(Atom::new(id, AtomData::UTF8(String::new())));
				}
			},
			_ => {
				let n = (&*t).into_iter().count();
				let mut i = 0;
				let drop = s.usize(0, n.max(1) - 1);
				t.retain(|_| {
					i += 1;
					i - 1 != drop
				});
			},
		},
		NTag::Riff(t) => {
			let (k, v) = match (&*t).into_iter().next() {
				Some((k, v)) => (k.to_string(), v.to_string()),
				None => ("IART".to_string(), String::new()),
			};
			match s.below(3) {
				0 => {
					let mut v = v;
					twist(s, &mut v);
					t.insert(k, v);
				},
				1 => {
					t.remove(&k);
				},
				_ => t.insert("ICMT".to_string(), "x".to_string()),
			}
		},
		NTag::Id3v1(t) => match s.below(5) {
			0 => twist(s, t.title.get_or_insert_default()),
			1 => t.track_number = Some(7),
			2 => t.genre = None,
			3 => t.year = Some(1999),
			_ => t.comment = None,
		},
		NTag::Aiff(t) => match s.below(4) {
			0 => t.name = None,
			1 => t.annotations.get_or_insert_default().push("x".to_string()),
			2 => {
				if let Some(c) = t.comments.as_mut().and_then(|c| c.first_mut()) {
					c.marker_id ^= 1;
				}
			},
			_ => {
				if let Some(c) = t.annotations.as_mut() {
					c.reverse();
				}
			},
		},
		NTag::Id3v2(t) => {
			let mut v: Vec<Af> = super::id3v2::frames_of(t);
			let i = s.usize(0, v.len().max(1) - 1);
			match s.below(4) {
				_ if v.is_empty() => {},
				0 => {
					v.remove(i);
				},
				1 => v.rotate_left(1),
				2 => v.push(super::model::close_af(s)),
				_ => v[i] = variant(s, &v[i].clone()),
			}
			let mut n = Id3v2Tag::new();
			for f in v {
				n.insert(id3::to_frame(&f, te(1 + s.below(3) as u8)));
			}
			*t = n;
		},
	}
	t
}

fn tags(c: &mut Case) -> R {
	let s = &mut c.src;
	let ty = *s.pick(&lg::ALL_TYPES);
	let a = gen_tag(s, ty);
	let (way, b): (&'static str, NTag) = match s.below(5) {
		4 => {
			let g = guard(|| NTag::from_generic(a.generic()))?;
			("converted", g)
		},
		0 => ("clone", a.clone()),
		1 => ("rebuilt", rebuilt(s, &a)),
		2 => {
			let kinds: Vec<Kind> = fmt::ALL_KINDS.iter().copied().filter(|k| lg::writable(*k).contains(&ty)).collect();
			let k = *s.pick(&kinds);
			let data = fmt::gen_plain(s, k);
			let mut m = crate::util::Mem::new(data);
			let saved = guard(|| a.save(&mut m, WriteOptions::new()))?;
			if saved.is_err() {
				return Ok(());
			}
			let n = guard(|| rd::read_native(k, &mut Cursor::new(&m.data[..]), ParseOptions::new(), false))?;
			match n {
				Ok(n) => match n.get(ty) {
					Some(t) => ("read", t.clone()),
					None => return Ok(()),
				},
				// whether a save is good is looked at elsewhere
				Err(_) => return Ok(()),
			}
		},
		_ => ("changed", changed(s, &a)),
	};
	let (fa, fb) = (full(&a), full(&b));
	c.note(|| format!("{way} {} / {}", a.describe(), b.describe()).chars().take(900).collect::<String>());
	c.class(way);
	c.class(super::model::lg_name(ty));
	let same = fa == fb;
	let got = guard(|| eq(&a, &b))?;
	let back = guard(|| eq(&b, &a))?;
	ensure!(got == back, format!("{ty:?}: equality is one-sided"), "{} / {}", a.describe(), b.describe());
	ensure!(guard(|| eq(&a, &a))?, format!("{ty:?}: not equal to itself"), "{}", a.describe());
	let d = || {
		let i = fa.iter().zip(&fb).position(|(x, y)| x != y).unwrap_or(fa.len().min(fb.len()));
		format!("entry {i}: {:?} / {:?}", fa.get(i), fb.get(i)).chars().take(600).collect::<String>()
	};
	if same {
		ensure!(got, format!("{ty:?}: equal contents, not equal ({way})"), "{}", a.describe());
	} else if let (NTag::Id3v2(x), NTag::Id3v2(y)) = (&a, &b) {
		// as its frames are
		let frames = x.into_iter().count() == y.into_iter().count() && x.into_iter().zip(y).all(|(f, g)| f == g);
		let want = frames && x.flags() == y.flags() && x.original_version() == y.original_version();
		ensure!(got == want, format!("{ty:?}: equal is {got}, by its frames {want} ({way})"), "{}", d());
	} else {
		ensure!(!got, format!("{ty:?}: different contents, equal ({way})"), "{}", d());
	}
	if !fa.is_empty() {
		c.nontrivial();
	}
	Ok(())
}

/// what frames are told apart by, as documented (the rest by everything)
fn frame_key(f: &Af) -> Option<String> {
	Some(match f {
		Af::User { desc, .. } => format!("TXXX {desc}"),
		Af::UserUrl { desc, .. } => format!("WXXX {desc}"),
		Af::Lang { id, lang, desc, .. } => format!("{id} {lang:?} {desc}"),
		Af::Popm { email, .. } => format!("POPM {email}"),
		Af::Ufid { owner, .. } => format!("UFID {owner}"),
		Af::Rva2 { ident, .. } => format!("RVA2 {ident}"),
		Af::Chap { id, .. } => format!("CHAP {id}"),
		Af::Ctoc { id, .. } => format!("CTOC {id}"),
		Af::Text { .. } | Af::Url { .. } => f.id().to_string(),
		_ => return None,
	})
}

fn gen_flags(s: &mut Src) -> FrameFlags {
	let mut f = FrameFlags::default();
	if s.chance(1, 3) {
		f.read_only = s.bool();
		f.tag_alter_preservation = s.bool();
		f.grouping_identity = s.bool().then(|| s.u8());
	}
	f
}

/// a text that is much like this one
fn twist(s: &mut Src, t: &mut String) {
	match s.below(5) {
		0 if !t.is_empty() => {
			t.pop();
		},
		1 => t.insert(0, 'x'),
		2 => t.push(' '),
		3 | 4 if t.bytes().any(|b| b.is_ascii_alphabetic()) => {
			// the other case of one letter
			let v: Vec<usize> = t.char_indices().filter(|(_, c)| c.is_ascii_alphabetic()).map(|(i, _)| i).collect();
			let i = *s.pick(&v);
			let c = t.as_bytes()[i] ^ 0x20;
			t.replace_range(i..=i, &(c as char).to_string());
		},
		_ => t.push('x'),
	}
}

/// another frame that is much like this one
fn variant(s: &mut Src, a: &Af) -> Af {
	let mut b = a.clone();
	let r = s.below(6) as usize;
	match &mut b {
		Af::User { desc, vals } => match vals.first_mut() {
			Some(v) if r % 2 == 0 => twist(s, v),
			_ => twist(s, desc),
		},
		Af::UserUrl { desc, url } => twist(s, if r % 2 == 0 { url } else { desc }),
		Af::Lang { lang, desc, text, .. } => match r % 3 {
			0 => lang[r % 2] ^= if s.bool() { 0x20 } else { 1 },
			1 => twist(s, desc),
			_ => twist(s, text),
		},
		Af::Popm { email, rating, counter } => match r % 3 {
			0 => *rating ^= 1,
			1 => *counter ^= 1,
			_ => twist(s, email),
		},
		Af::Ufid { owner, data } => match r % 2 {
			0 => data.push(1),
			_ => twist(s, owner),
		},
		Af::Text { vals, .. } => vals.push(lg::text(s, Cs::Any, false)),
		Af::Url { url, .. } => twist(s, url),
		Af::Pic { desc, ty, .. } => match r % 2 {
			0 => twist(s, desc),
			_ => *ty ^= 1,
		},
		Af::Owne { price, seller, .. } => twist(s, if r % 2 == 0 { price } else { seller }),
		Af::Rva2 { ident, ch } => match ch.first_mut() {
			Some(c) if r % 2 == 0 => c.1 ^= 1,
			_ => twist(s, ident),
		},
		Af::Pairs { pairs, .. } => match pairs.first_mut() {
			Some((k, v)) => twist(s, if r % 2 == 0 { k } else { v }),
			None => pairs.push((String::new(), String::new())),
		},
		Af::Etco { ev, .. } => match ev.first_mut() {
			Some(e) => e.1 ^= 1,
			None => ev.push((1, 1)),
		},
		Af::Priv { owner, .. } if r % 2 == 0 => twist(s, owner),
		Af::Priv { data, .. } => data.push(1),
		Af::Bin { data, .. } => data.push(1),
		Af::Chap { id, .. } if r % 2 == 0 => twist(s, id),
		Af::Chap { at, .. } => at[r % 4] ^= 1,
		Af::Ctoc { id, .. } if r % 2 == 0 => twist(s, id),
		Af::Ctoc { entries, .. } => entries.push("x".to_string()),
		Af::Time { .. } => {},
	}
	b
}

fn frames(c: &mut Case) -> R {
	let s = &mut c.src;
	let a = if s.chance(1, 4) { super::model::close_af(s) } else { id3::gen_af(s, Cs::Any, 1) };
	let b = match s.below(5) {
		4 => super::model::close_af(s),
		0 => a.clone(),
		1 | 2 => variant(s, &a),
		_ => id3::gen_af(s, Cs::Any, 1),
	};
	let (ea, eb) = (1 + s.below(3) as u8, 1 + s.below(3) as u8);
	let eb = if s.bool() { ea } else { eb };
	let (fla, flb) = (gen_flags(s), gen_flags(s));
	let flb = if s.bool() { fla } else { flb };
	c.note(|| format!("{} / {} enc {ea} {eb}", a.brief(), b.brief()));
	let mut x = id3::to_frame(&a, te(ea));
	let mut y = id3::to_frame(&b, te(eb));
	x.set_flags(fla);
	y.set_flags(flb);
	let got = guard(|| x == y)?;
	let id = a.id().to_string();
	ensure!(got == guard(|| y == x)?, format!("{id}: equality is one-sided"), "{a:?} / {b:?}");
	let twin = x.clone();
	ensure!(twin == x && hash(&twin) == hash(&x), format!("{id}: a clone differs"), "{a:?}");
	if got {
		ensure!(hash(&x) == hash(&y), format!("{id}: equal frames, different hashes"), "{a:?} / {b:?}");
	}
	let want = if std::mem::discriminant(&x) != std::mem::discriminant(&y) {
		false
	} else {
		match (frame_key(&a), frame_key(&b)) {
			(Some(k), Some(l)) => k == l,
			// the others are told apart by all they contain
			_ => lg::c_frame(&x) == lg::c_frame(&y),
		}
	};
	ensure!(got == want, format!("{id}: equality"), "equal: {got}, expected {want}: {} {fla:?} {ea} / {} {flb:?} {eb}", a.brief(), b.brief());
	c.class(if got { "equal" } else { "different" });
	if std::mem::discriminant(&x) == std::mem::discriminant(&y) {
		c.nontrivial();
	}
	// identifiers, borrowed or not
	let s = &mut c.src;
	let ids = ["TIT2", "TPE1", "APIC", "TXXX", "ZZZZ"];
	let (p, q) = (*s.pick(&ids), *s.pick(&ids));
	let i = FrameId::new(p.to_string()).ok();
	let j = FrameId::new(q).ok();
	ensure!((i == j) == (p == q), "FrameId equality", "{p} {q}");
	if i == j {
		ensure!(hash(&i) == hash(&j), "FrameId hash", "{p}");
	}
	Ok(())
}

fn gen_stamp(s: &mut Src) -> Timestamp {
	let o = |s: &mut Src, hi: u64| s.bool().then(|| s.below(hi) as u8);
	Timestamp { year: *s.pick(&[0u16, 1999, 2000, 2024, 9999]), month: o(s, 3), day: o(s, 3), hour: o(s, 3), minute: o(s, 3), second: o(s, 3) }
}

fn order_of<T: Ord + Clone + std::fmt::Debug + Hash>(what: &str, v: &[T], eq: bool) -> R {
	for a in v {
		for b in v {
			let o = a.cmp(b);
			ensure!(a.partial_cmp(b) == Some(o), format!("{what}: cmp and partial_cmp"), "{a:?} {b:?}");
			ensure!(b.cmp(a) == o.reverse(), format!("{what}: order is one-sided"), "{a:?} {b:?}");
			if eq {
				ensure!((o == Ordering::Equal) == (a == b), format!("{what}: order and equality"), "{a:?} {b:?}");
			}
			if a == b {
				ensure!(o == Ordering::Equal && hash(a) == hash(b), format!("{what}: equal but ordered or hashed apart"), "{a:?} {b:?}");
			}
			for d in v {
				if o != Ordering::Greater && b.cmp(d) != Ordering::Greater {
					ensure!(a.cmp(d) != Ordering::Greater, format!("{what}: order is not transitive"), "{a:?} {b:?} {d:?}");
				}
			}
		}
	}
	Ok(())
}

fn values(c: &mut Case) -> R {
	use lofty::id3::v2::{Event, EventType, TimestampFrame};
	let s = &mut c.src;
	match s.below(5) {
		0 => {
			let v: Vec<Timestamp> = (0..5).map(|_| gen_stamp(s)).collect();
			c.note(|| format!("{v:?}"));
			c.class("timestamps");
			order_of("Timestamp", &v, true)?;
			// the larger unit decides
			for a in &v {
				for b in &v {
					let k = |t: &Timestamp| (t.year, t.month, t.day, t.hour, t.minute, t.second);
					ensure!(a.cmp(b) == k(a).cmp(&k(b)), "Timestamp order", "{a:?} {b:?}");
				}
			}
		},
		1 => {
			let ids = ["TDRC", "TDRL"];
			let v: Vec<TimestampFrame<'static>> =
				(0..4).map(|_| TimestampFrame::new(FrameId::new(*s.pick(&ids)).unwrap(), te(s.below(4) as u8), gen_stamp(s))).collect();
			c.note(|| format!("{v:?}"));
			c.class("timestamp frames");
			order_of("TimestampFrame", &v, false)?;
		},
		2 => {
			let v: Vec<Event> =
				(0..5).map(|_| Event { event_type: *s.pick(&[EventType::Padding, EventType::IntroStart, EventType::AudioEnd]), timestamp: s.below(4) as u32 }).collect();
			c.note(|| format!("{v:?}"));
			c.class("events");
			order_of("Event", &v, false)?;
			for a in &v {
				for b in &v {
					ensure!(a.cmp(b) == a.timestamp.cmp(&b.timestamp), "Event order", "{a:?} {b:?}");
				}
			}
		},
		3 => {
			// pictures and MIME types
			let g = |s: &mut Src| {
				let mut p = Picture::unchecked(if s.bool() { vec![1, 2, 3] } else { vec![1, 2] });
				if s.bool() {
					p = p.description(*s.pick(&["a", "b", ""]));
				}
				if s.bool() {
					p = p.mime_type(s.pick(&[MimeType::Png, MimeType::Jpeg, MimeType::Unknown("image/x".to_string())]).clone());
				}
				p.pic_type(lg::pic_type(s)).build()
			};
			let a = g(s);
			let mut b = g(s);
			if s.bool() {
				b = a.clone();
				match s.below(4) {
					0 => b.set_description(Some("c".into())),
					1 => b = Picture::unchecked(b.data().to_vec()).mime_type(MimeType::Gif).pic_type(b.pic_type()).build(),
					2 => b.set_pic_type(lg::pic_type(s)),
					_ => {},
				}
			}
			let k = |p: &Picture| format!("{:?} {:?} {:?} {:?}", p.pic_type(), p.mime_type().map(MimeType::as_str), p.description(), p.data());
			c.note(|| format!("{} / {}", k(&a), k(&b)));
			c.class("pictures");
			ensure!((a == b) == (k(&a) == k(&b)), "Picture equality", "{} / {}", k(&a), k(&b));
			ensure!(a != b || hash(&a) == hash(&b), "Picture hash", "{}", k(&a));
		},
		_ => {
			let g = |s: &mut Src| {
				let mut i = TagItem::new(*s.pick(&[lofty::tag::ItemKey::TrackTitle, lofty::tag::ItemKey::Comment]), match s.below(3) {
					0 => ItemValue::Text("a".to_string()),
					1 => ItemValue::Locator("a".to_string()),
					_ => ItemValue::Binary(b"a".to_vec()),
				});
				if s.bool() {
					i.set_lang(**s.pick(&[b"eng", b"deu", b"XXX"]));
				}
				if s.bool() {
					i.set_description(s.pick(&["x", "y", ""]).to_string());
				}
				i
			};
			let (a, b) = (g(s), g(s));
			c.note(|| format!("{a:?} / {b:?}"));
			c.class("items");
			ensure!((a == b) == (lg::c_item(&a) == lg::c_item(&b)), "TagItem equality", "{a:?} / {b:?}");
			ensure!(a != b || hash(&a) == hash(&b), "TagItem hash", "{a:?}");
			// atom identifiers, owned and borrowed
			let s = &mut c.src;
			let n = *s.pick(&["a", "b"]);
			let m = *s.pick(&["com.apple.iTunes", "x"]);
			let o = AtomIdent::Freeform { mean: Cow::Owned(m.to_string()), name: Cow::Owned(n.to_string()) };
			let p = AtomIdent::Freeform { mean: Cow::Borrowed(*s.pick(&["com.apple.iTunes", "x"])), name: Cow::Borrowed(*s.pick(&["a", "b"])) };
			let t = |i: &AtomIdent<'_>| match i {
				AtomIdent::Freeform { mean, name } => format!("{mean}:{name}"),
				AtomIdent::Fourcc(f) => format!("{f:?}"),
			};
			ensure!((o == p) == (t(&o) == t(&p)), "AtomIdent equality", "{o:?} {p:?}");
			ensure!(o.clone().into_owned() == o, "AtomIdent owned", "{o:?}");
		},
	}
	c.nontrivial();
	Ok(())
}

pub fn props() -> Vec<Property> {
	vec![Property {
		id: "C37",
		rule: "two non-empty tags, two frames of one kind, or a group of values were compared in all directions",
		assumptions: &["ID3v2 frames are told apart as their documentation says, so different contents need not make ID3v2 tags unequal"],
		suites: vec![suite!("tags", 200_000, 4_000_000, tags), suite!("frames", 400_000, 8_000_000, frames), suite!("values", 100_000, 1_000_000, values)],
	}]
}
