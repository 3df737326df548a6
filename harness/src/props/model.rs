//! C21, C22: the in-memory tags against reference models, and the item key tables.

use super::roundtrip;
use crate::engine::{Case, Property, R, Src, Suite, fail};
use crate::ensure;
use crate::fmt::id3::{self, Af};
use crate::lg::{self, Cs};
use crate::names::NAMES;
use lofty::TextEncoding;
use lofty::ape::{ApeItem, ApeTag};
use lofty::id3::v1::Id3v1Tag;
use lofty::id3::v2::{FrameId, FrameList, Id3v2Tag};
use lofty::iff::aiff::AiffTextChunks;
use lofty::iff::wav::RiffInfoList;
use lofty::mp4::{AdvisoryRating, Atom, AtomData, AtomIdent, DataType, Ilst};
use lofty::ogg::OggPictureStorage;
use lofty::ogg::tag::VorbisComments;
use lofty::picture::{Picture, PictureInformation, PictureType};
use lofty::tag::items::Timestamp;
use lofty::tag::{Accessor, ItemKey, ItemValue, Tag, TagExt, TagItem, TagType};
use std::borrow::Cow;

macro_rules! suite {
	($name:literal, $q:expr, $t:expr, $f:expr) => {
		Suite { name: $name, quick: $q, thorough: $t, run: $f }
	};
}

// ------------------------------------------------------------------ C22

const V1_KEYS: [ItemKey; 8] = [
	ItemKey::TrackTitle,
	ItemKey::TrackArtist,
	ItemKey::AlbumTitle,
	ItemKey::Comment,
	ItemKey::TrackNumber,
	ItemKey::Genre,
	ItemKey::Year,
	ItemKey::RecordingDate,
];

/// the documented name of a key in a tag type
pub fn name_of(ty: TagType, k: ItemKey) -> Option<&'static str> {
	NAMES.iter().find(|(t, x, _)| *t == ty && *x == k).map(|(_, _, n)| n[0])
}

pub fn accepts(ty: TagType, k: ItemKey) -> bool {
	// (the people of a TIPL frame have no frame of their own)
	const PEOPLE: [ItemKey; 5] = [ItemKey::Producer, ItemKey::Arranger, ItemKey::Engineer, ItemKey::MixDj, ItemKey::MixEngineer];
	match ty {
		TagType::Id3v1 => V1_KEYS.contains(&k),
		TagType::Id3v2 if PEOPLE.contains(&k) => true,
		_ => name_of(ty, k).is_some(),
	}
}

fn random_case(s: &mut Src, t: &str) -> String {
	let mode = s.below(4);
	t.chars()
		.map(|c| match mode {
			0 => c.to_ascii_lowercase(),
			1 => c.to_ascii_uppercase(),
			_ if s.bool() => c.to_ascii_uppercase(),
			_ => c.to_ascii_lowercase(),
		})
		.collect()
}

/// Whether the format compares its names without regard to case (item keys and descriptions,
/// as opposed to four character codes).
fn any_case(ty: TagType, name: &str) -> bool {
	matches!(ty, TagType::Ape | TagType::VorbisComments) || name.len() != 4 && !name.starts_with("----")
}

fn c22_keys(c: &mut Case) -> R {
	let s = &mut c.src;
	let ty = *s.pick(&lg::ALL_TYPES);
	let k = *s.pick(lg::ALL_KEYS);
	let mapped = k.map_key(ty);
	let want = name_of(ty, k);
	ensure!(mapped == want, format!("map_key {ty:?} {k:?}"), "{k:?} maps to {mapped:?} in {ty:?}, its documented name is {want:?}");
	let rows: Vec<_> = NAMES.iter().filter(|r| r.0 == ty).collect();
	if rows.is_empty() {
		let got = ItemKey::from_key(ty, "TITLE");
		ensure!(got.is_none(), "from_key id3v1", "{ty:?} has no named keys but TITLE gives {got:?}");
		return Ok(());
	}
	let row = match rows.iter().find(|r| r.1 == k) {
		Some(r) => *r,
		None => *s.pick(&rows),
	};
	let name = *s.pick(row.2);
	let exact = s.chance(1, 3);
	let text = if exact { name.to_string() } else { random_case(s, name) };
	c.note(|| format!("{ty:?} {k:?} {text:?}"));
	let got = ItemKey::from_key(ty, &text);
	let sig = |w: &str| format!("{w} {ty:?} {name}");
	let same: Vec<ItemKey> = rows.iter().filter(|r| r.2.iter().any(|n| n.eq_ignore_ascii_case(name))).map(|r| r.1).collect();
	match got {
		None => ensure!(text != name && !any_case(ty, name), sig("name not found"), "{text:?} gives no key in {ty:?}; it is a name of {same:?}"),
		Some(g) => {
			ensure!(same.contains(&g), sig("wrong key"), "{text:?} gives {g:?} in {ty:?}; it is a name of {same:?}");
			let back = g.map_key(ty);
			let canon = row.2[0];
			ensure!(back == Some(canon), sig("not mutual"), "{text:?} gives {g:?} in {ty:?}, which maps to {back:?}, not {canon:?}");
		},
	}
	for _ in 0..3 {
		ensure!(ItemKey::from_key(ty, &text) == got, sig("unstable"), "repeated lookups of {text:?} in {ty:?} disagree");
	}
	c.nontrivial();
	c.class(if exact { "exact" } else { "case variant" });
	Ok(())
}

fn c22_unknown(c: &mut Case) -> R {
	let s = &mut c.src;
	let ty = *s.pick(&lg::ALL_TYPES);
	let mut t = match s.below(4) {
		0 => lg::text(s, Cs::Any, true),
		1 => lg::short(s),
		_ => {
			// one edit away from a real name, or a name of another format
			let r = s.pick(NAMES);
			(*s.pick(r.2)).to_string()
		},
	};
	match s.below(5) {
		0 => {
			t.pop();
		},
		1 => t.push(*s.pick(&[' ', '\0', 'x', 'S', '\u{A9}', ':'])),
		2 => t.insert(0, *s.pick(&[' ', '\0', 'x', '\u{A9}'])),
		3 if !t.is_empty() => {
			let mut v: Vec<char> = t.chars().collect();
			let i = s.usize(0, v.len() - 1);
			v[i] = *s.pick(&['_', ' ', 'q', '\u{17F}', '\u{212A}', '\u{FF}']);
			t = v.into_iter().collect();
		},
		_ => {},
	}
	c.note(|| format!("{ty:?} {t:?}"));
	let known: Vec<_> = NAMES.iter().filter(|r| r.0 == ty && r.2.iter().any(|n| n.eq_ignore_ascii_case(&t))).collect();
	let got = ItemKey::from_key(ty, &t);
	if known.is_empty() {
		ensure!(got.is_none(), format!("unknown name accepted {ty:?}"), "{t:?} is no name in {ty:?} but gives {got:?}");
		c.nontrivial();
	}
	Ok(())
}

fn c22_accept(c: &mut Case) -> R {
	let s = &mut c.src;
	let ty = *s.pick(&lg::ALL_TYPES);
	let k = *s.pick(lg::ALL_KEYS);
	let v = value(s);
	let item = TagItem::new(k, v.clone());
	let yes = accepts(ty, k);
	let mut t = Tag::new(ty);
	for _ in 0..s.usize(0, 4) {
		let (k, v) = (*s.pick(lg::ALL_KEYS), value(s));
		t.push_unchecked(TagItem::new(k, v));
	}
	let before: Vec<TagItem> = t.items().cloned().collect();
	let how = s.below(5);
	c.note(|| format!("{ty:?} {k:?} {how} onto {before:?}"));
	let s = &mut c.src;
	let sig = |w: &str| format!("{w} {ty:?} {k:?}");
	let got = match how {
		0 => t.insert(item.clone()),
		1 => t.push(item.clone()),
		2 => t.insert_text(k, "text".into()),
		3 => {
			let want = yes;
			let made = TagItem::new_checked(ty, k, v.clone());
			ensure!(made.is_some() == want, sig("new_checked"), "new_checked({ty:?}, {k:?}) gives {made:?}");
			ensure!(made.is_none_or(|m| m == item), sig("new_checked item"), "new_checked altered the item");
			return Ok(());
		},
		_ => {
			let to = *s.pick(&lg::ALL_TYPES);
			t.push_unchecked(item);
			let want: Vec<TagItem> = t.items().filter(|i| accepts(to, i.key())).cloned().collect();
			t.re_map(to);
			let got: Vec<TagItem> = t.items().cloned().collect();
			ensure!(t.tag_type() == to, "re_map type", "re_map({to:?}) leaves type {:?}", t.tag_type());
			ensure!(got == want, format!("re_map {to:?}"), "re_map to {to:?} keeps {got:?}, expected {want:?}");
			c.nontrivial();
			return Ok(());
		},
	};
	ensure!(got == yes, sig("acceptance"), "adding {k:?} to a {ty:?} tag returned {got}");
	if !yes {
		let after: Vec<TagItem> = t.items().cloned().collect();
		ensure!(after == before, sig("refused item changed the tag"), "before {before:?} after {after:?}");
	} else {
		c.nontrivial();
	}
	Ok(())
}

// ------------------------------------------------------------------ C21: generic tag

fn value(s: &mut Src) -> ItemValue {
	match s.below(6) {
		0 => ItemValue::Locator(lg::short(s)),
		1 => {
			let n = s.usize(0, 5);
			ItemValue::Binary(s.blob(n))
		},
		2 => ItemValue::Text(String::new()),
		3 => ItemValue::Text(s.below(300).to_string()),
		_ => ItemValue::Text(lg::short(s)),
	}
}

fn small_pic(s: &mut Src) -> Picture {
	let n = s.usize(0, 4);
	Picture::unchecked(s.blob(n)).pic_type(PictureType::from_u8(s.below(5) as u8)).build()
}

const POOL: [ItemKey; 9] = [
	ItemKey::TrackTitle,
	ItemKey::TrackArtist,
	ItemKey::Comment,
	ItemKey::Genre,
	ItemKey::TrackNumber,
	ItemKey::TrackTotal,
	ItemKey::RecordingDate,
	ItemKey::Year,
	ItemKey::AlbumTitle,
];

fn key(s: &mut Src) -> ItemKey {
	if s.chance(1, 6) { *s.pick(lg::ALL_KEYS) } else { *s.pick(&POOL) }
}

fn item(s: &mut Src) -> TagItem {
	let k = key(s);
	let mut i = TagItem::new(k, value(s));
	if s.chance(1, 4) {
		i.set_lang(*b"eng");
	}
	if s.chance(1, 4) {
		i.set_description(lg::short(s));
	}
	i
}

fn c21_tag(c: &mut Case) -> R {
	let ty = *c.src.pick(&lg::ALL_TYPES);
	let mut t = Tag::new(ty);
	let mut m: Vec<TagItem> = vec![];
	let mut pics: Vec<Picture> = vec![];
	let mut ty = ty;
	let steps = c.src.usize(1, 25);
	for _ in 0..steps {
		let s = &mut c.src;
		let op: &str;
		match s.below(21) {
			0 | 1 => {
				op = "insert";
				let i = item(s);
				c.note(|| format!("insert {i:?}"));
				if accepts(ty, i.key()) {
					m.retain(|o| o.key() != i.key());
					m.push(i.clone());
				}
				t.insert(i);
			},
			2..=4 => {
				op = "push";
				let i = item(s);
				c.note(|| format!("push {i:?}"));
				if accepts(ty, i.key()) {
					m.push(i.clone());
				}
				t.push(i);
			},
			5 => {
				op = "insert_text";
				let (k, v) = (key(s), lg::short(s));
				c.note(|| format!("insert_text {k:?} {v}"));
				if accepts(ty, k) {
					m.retain(|o| o.key() != k);
					m.push(TagItem::new(k, ItemValue::Text(v.clone())));
				}
				t.insert_text(k, v);
			},
			6 => {
				op = "insert_unchecked";
				let i = item(s);
				c.note(|| format!("insert_unchecked {i:?}"));
				m.retain(|o| o.key() != i.key());
				m.push(i.clone());
				t.insert_unchecked(i);
			},
			7 => {
				op = "push_unchecked";
				let i = item(s);
				c.note(|| format!("push_unchecked {i:?}"));
				m.push(i.clone());
				t.push_unchecked(i);
			},
			8 => {
				op = "remove_key";
				let k = key(s);
				c.note(|| format!("remove_key {k:?}"));
				m.retain(|o| o.key() != k);
				t.remove_key(k);
			},
			9 => {
				op = "take";
				let k = key(s);
				let partial = s.chance(1, 3);
				c.note(|| format!("take {k:?} partial={partial}"));
				let want: Vec<TagItem> = m.iter().filter(|o| o.key() == k).cloned().collect();
				m.retain(|o| o.key() != k);
				if partial {
					// dropping the iterator early still takes them all
					let got = t.take(k).next();
					ensure!(got.as_ref() == want.first(), "take first", "take({k:?}) gave {got:?} first, expected {:?}", want.first());
				} else {
					let got: Vec<TagItem> = t.take(k).collect();
					ensure!(got == want, "take result", "take({k:?}) gave {got:?}, expected {want:?}");
				}
			},
			10 => {
				op = "take_filter";
				let k = key(s);
				c.note(|| format!("take_filter {k:?} described"));
				let f = |o: &TagItem| o.description().is_empty();
				let want: Vec<TagItem> = m.iter().filter(|o| o.key() == k && f(o)).cloned().collect();
				m.retain(|o| !(o.key() == k && f(o)));
				let got: Vec<TagItem> = t.take_filter(k, f).collect();
				ensure!(got == want, "take_filter result", "take_filter({k:?}) gave {got:?}, expected {want:?}");
			},
			11 => {
				op = "take_strings";
				let k = key(s);
				c.note(|| format!("take_strings {k:?}"));
				let want: Vec<String> = m.iter().filter(|o| o.key() == k).filter_map(|o| o.clone().into_value().into_string()).collect();
				m.retain(|o| o.key() != k);
				let got: Vec<String> = t.take_strings(k).collect();
				ensure!(got == want, "take_strings result", "take_strings({k:?}) gave {got:?}, expected {want:?}");
			},
			12 => {
				op = "retain";
				c.note(|| "retain without language".into());
				m.retain(|o| o.lang() == b"XXX");
				t.retain(|o| o.lang() == b"XXX");
			},
			13 => {
				op = "remove_empty";
				c.note(|| op.into());
				m.retain(|o| match o.value() {
					ItemValue::Text(x) | ItemValue::Locator(x) => !x.is_empty(),
					ItemValue::Binary(b) => !b.is_empty(),
				});
				t.remove_empty();
			},
			14 => {
				op = "push_picture";
				let p = small_pic(s);
				c.note(|| format!("push_picture {}", lg::c_pic(&p)));
				pics.push(p.clone());
				t.push_picture(p);
			},
			15 => {
				op = "set_picture";
				let (i, p) = (s.usize(0, 5), small_pic(s));
				c.note(|| format!("set_picture {i} {}", lg::c_pic(&p)));
				if i < pics.len() {
					pics[i] = p.clone();
				} else {
					pics.push(p.clone());
				}
				t.set_picture(i, p);
			},
			16 => {
				op = "remove_picture";
				if pics.is_empty() {
					continue;
				}
				let i = s.usize(0, pics.len() - 1);
				c.note(|| format!("remove_picture {i}"));
				let want = pics.remove(i);
				let got = t.remove_picture(i);
				ensure!(got == want, "remove_picture result", "remove_picture({i}) returned another picture");
			},
			17 => {
				op = "remove_picture_type";
				let pt = PictureType::from_u8(s.below(5) as u8);
				c.note(|| format!("remove_picture_type {pt:?}"));
				pics.retain(|p| p.pic_type() != pt);
				t.remove_picture_type(pt);
			},
			18 => {
				op = "re_map";
				if !s.chance(1, 3) {
					continue;
				}
				ty = *s.pick(&lg::ALL_TYPES);
				c.note(|| format!("re_map {ty:?}"));
				m.retain(|o| accepts(ty, o.key()));
				t.re_map(ty);
			},
			19 => {
				op = "clear";
				if !s.chance(1, 4) {
					continue;
				}
				c.note(|| "clear".into());
				m.clear();
				pics.clear();
				t.clear();
			},
			_ => {
				op = "date";
				// the date fields together: setting one drops the other
				if s.bool() {
					c.note(|| "remove_date".into());
					m.retain(|o| !matches!(o.key(), ItemKey::Year | ItemKey::RecordingDate));
					t.remove_date();
				} else {
					let d = stamp(s);
					c.note(|| format!("set_date {d}"));
					m.retain(|o| o.key() != ItemKey::Year);
					if accepts(ty, ItemKey::RecordingDate) {
						m.retain(|o| o.key() != ItemKey::RecordingDate);
						m.push(TagItem::new(ItemKey::RecordingDate, ItemValue::Text(d.to_string())));
						t.set_date(d);
						ensure!(t.date() == Some(d), "generic date", "set_date({d}) then date() gives {:?}", t.date());
					} else {
						t.set_date(d);
					}
				}
			},
		}
		let got: Vec<TagItem> = t.items().cloned().collect();
		ensure!(got == m, format!("generic {op}"), "after {op}: tag has {got:?}, expected {m:?}");
		ensure!(t.pictures() == pics, format!("generic pictures {op}"), "after {op}: {} pictures, expected {}", t.pictures().len(), pics.len());
		ensure!(
			t.item_count() as usize == m.len() && t.picture_count() as usize == pics.len() && t.len() == m.len() + pics.len() && t.is_empty() == (m.is_empty() && pics.is_empty()),
			"generic counts",
			"counts {}/{}/{}/{} for {} items and {} pictures", t.item_count(), t.picture_count(), t.len(), t.is_empty(), m.len(), pics.len()
		);
		let s = &mut c.src;
		let k = key(s);
		let of: Vec<&TagItem> = m.iter().filter(|o| o.key() == k).collect();
		ensure!(t.get(k) == of.first().copied(), "generic get", "get({k:?}) gives {:?}, expected {:?}", t.get(k), of.first());
		ensure!(t.contains(k) == !of.is_empty(), "generic contains", "contains({k:?}) gives {}", t.contains(k));
		ensure!(t.get_items(k).eq(of.iter().copied()), "generic get_items", "get_items({k:?}) differs from {of:?}");
		ensure!(t.get_strings(k).eq(of.iter().filter_map(|o| o.value().text())), "generic get_strings", "get_strings({k:?}) differs from {of:?}");
		ensure!(t.get_locators(k).eq(of.iter().filter_map(|o| o.value().locator())), "generic get_locators", "get_locators({k:?}) differs from {of:?}");
		ensure!(t.get_bytes(k).eq(of.iter().filter_map(|o| o.value().binary())), "generic get_bytes", "get_bytes({k:?}) differs from {of:?}");
		let first = of.first().and_then(|o| o.value().text());
		ensure!(t.get_string(k) == first, "generic get_string", "get_string({k:?}) gives {:?}, expected {first:?}", t.get_string(k));
		for convert in [false, true] {
			let want = of.first().and_then(|o| match o.value() {
				ItemValue::Binary(b) => Some(&b[..]),
				ItemValue::Text(x) | ItemValue::Locator(x) if convert => Some(x.as_bytes()),
				_ => None,
			});
			ensure!(t.get_binary(k, convert) == want, "generic get_binary", "get_binary({k:?}, {convert}) gives {:?}, expected {want:?}", t.get_binary(k, convert));
		}
		let pt = PictureType::from_u8(s.below(5) as u8);
		ensure!(
			t.get_picture_type(pt) == pics.iter().find(|p| p.pic_type() == pt),
			"generic get_picture_type",
			"get_picture_type({pt:?}) is not the first picture of that type"
		);
	}
	if m.len() + pics.len() > 1 {
		c.nontrivial();
	}
	c.class(lg_name(ty));
	Ok(())
}

pub fn lg_name(ty: TagType) -> &'static str {
	match ty {
		TagType::Id3v2 => "ID3v2",
		TagType::Id3v1 => "ID3v1",
		TagType::Ape => "APE",
		TagType::VorbisComments => "Vorbis comments",
		TagType::Mp4Ilst => "ilst",
		TagType::RiffInfo => "RIFF INFO",
		TagType::AiffText => "AIFF text",
		_ => "other",
	}
}

pub fn stamp(s: &mut Src) -> Timestamp {
	let mut t = Timestamp { year: s.range(1, 9999) as u16, ..Default::default() };
	let n = s.below(6);
	if n > 0 {
		t.month = Some(s.range(1, 12) as u8);
	}
	if n > 1 {
		t.day = Some(s.range(1, 31) as u8);
	}
	if n > 2 {
		t.hour = Some(s.below(24) as u8);
	}
	if n > 3 {
		t.minute = Some(s.below(60) as u8);
	}
	if n > 4 {
		t.second = Some(s.below(60) as u8);
	}
	t
}

// ------------------------------------------------------------------ C21: native containers

fn ci(a: &str, b: &str) -> bool {
	a.eq_ignore_ascii_case(b)
}

fn c21_vorbis(c: &mut Case) -> R {
	let mut t = VorbisComments::new();
	let mut m: Vec<(String, String)> = vec![];
	let mut pics: Vec<(Picture, PictureInformation)> = vec![];
	let valid = |k: &str| !k.is_empty() && k.bytes().all(|b| (0x20..=0x7D).contains(&b) && b != b'=');
	for _ in 0..c.src.usize(1, 20) {
		let s = &mut c.src;
		let base = *s.pick(&["TITLE", "ARTIST", "x", "key with space", "}~", "a=b", "", "\u{e9}", "TITLE ", "\u{1F}"]);
		let k = random_case(s, base);
		let v = if s.chance(1, 8) { String::new() } else { lg::short(s) };
		let op = *s.pick(&["insert", "push", "push", "push", "remove", "get", "picture", "set_picture", "remove_picture", "remove_type", "take", "clear"]);
		c.note(|| format!("{op} {k:?} {v:?}"));
		let s = &mut c.src;
		match op {
			"insert" => {
				if valid(&k) {
					m.retain(|o| !ci(&o.0, &k));
					m.push((k.clone(), v.clone()));
				}
				t.insert(k.clone(), v);
			},
			"push" => {
				if valid(&k) {
					m.push((k.clone(), v.clone()));
				}
				t.push(k.clone(), v);
			},
			"remove" => {
				let want: Vec<String> = m.iter().filter(|o| ci(&o.0, &k)).map(|o| o.1.clone()).collect();
				m.retain(|o| !ci(&o.0, &k));
				let got: Vec<String> = t.remove(&k).collect();
				ensure!(got == want, "vorbis remove result", "remove({k:?}) gave {got:?}, expected {want:?}");
			},
			"picture" => {
				let p = small_pic(s);
				let i = PictureInformation { width: s.u32(), ..Default::default() };
				let at = pics.iter().position(|o| o.0.pic_type() == p.pic_type());
				let want = match (p.pic_type(), at) {
					(PictureType::Icon | PictureType::OtherIcon, Some(at)) => Some(pics.remove(at)),
					_ => None,
				};
				pics.push((p.clone(), i));
				match t.insert_picture(p, Some(i)) {
					Ok(got) => ensure!(got == want, "vorbis insert_picture result", "insert_picture returned another picture than the one it replaced"),
					Err(e) => return fail("vorbis insert_picture", e.to_string()),
				}
			},
			"set_picture" => {
				let (at, p) = (s.usize(0, 4), small_pic(s));
				let i = PictureInformation { height: s.u32(), ..Default::default() };
				if at < pics.len() {
					pics[at] = (p.clone(), i);
				} else {
					if matches!(p.pic_type(), PictureType::Icon | PictureType::OtherIcon) {
						if let Some(x) = pics.iter().position(|o| o.0.pic_type() == p.pic_type()) {
							pics.remove(x);
						}
					}
					pics.push((p.clone(), i));
				}
				t.set_picture(at, p, i);
			},
			"remove_picture" => {
				if !pics.is_empty() {
					let at = s.usize(0, pics.len() - 1);
					let want = pics.remove(at);
					ensure!(t.remove_picture(at) == want, "vorbis remove_picture result", "remove_picture({at}) returned another picture");
				}
			},
			"remove_type" => {
				let pt = PictureType::from_u8(s.below(5) as u8);
				pics.retain(|o| o.0.pic_type() != pt);
				t.remove_picture_type(pt);
			},
			"take" => {
				if s.chance(1, 5) {
					let got: Vec<(String, String)> = t.take_items().collect();
					ensure!(got == m, "vorbis take_items", "take_items gave {got:?}, expected {m:?}");
					m.clear();
				} else if s.chance(1, 5) {
					ensure!(t.remove_pictures() == std::mem::take(&mut pics), "vorbis remove_pictures", "remove_pictures returned others");
				}
			},
			"clear" => {
				if s.chance(1, 5) {
					m.clear();
					pics.clear();
					t.clear();
				}
			},
			_ => {},
		}
		let got: Vec<(String, String)> = t.items().map(|(a, b)| (a.to_string(), b.to_string())).collect();
		ensure!(got == m, format!("vorbis {op}"), "after {op} {k:?}: {got:?}, expected {m:?}");
		ensure!(t.pictures() == pics, format!("vorbis pictures {op}"), "after {op}: {} pictures, expected {}", t.pictures().len(), pics.len());
		let want = if valid(&k) { m.iter().find(|o| ci(&o.0, &k)).map(|o| &*o.1) } else { None };
		ensure!(t.get(&k) == want, "vorbis get", "get({k:?}) gives {:?}, expected {want:?}", t.get(&k));
		let all: Vec<&str> = m.iter().filter(|o| ci(&o.0, &k)).map(|o| &*o.1).collect();
		ensure!(t.get_all(&k).eq(all.iter().copied()), "vorbis get_all", "get_all({k:?}) is not {all:?}");
		ensure!(t.contains(&k) == !all.is_empty(), "vorbis contains", "contains({k:?}) gives {}", t.contains(&k));
		ensure!(t.len() == m.len() + pics.len() && t.is_empty() == (m.is_empty() && pics.is_empty()), "vorbis len", "len {} of {}+{}", t.len(), m.len(), pics.len());
	}
	if m.len() > 1 {
		c.nontrivial();
	}
	Ok(())
}

fn c21_ape(c: &mut Case) -> R {
	let mut t = ApeTag::new();
	let mut m: Vec<(String, ItemValue, bool)> = vec![];
	for _ in 0..c.src.usize(1, 20) {
		let s = &mut c.src;
		let base = *s.pick(&["Title", "Artist", "key one", "Track", "zz", "Cover Art (Front)"]);
		let k = random_case(s, base);
		let v = value(s);
		let ro = s.chance(1, 4);
		let op = *s.pick(&["insert", "push", "push", "push", "remove", "get", "clear"]);
		c.note(|| format!("{op} {k:?} {v:?} ro={ro}"));
		let s = &mut c.src;
		let Ok(mut it) = ApeItem::new(k.clone(), v.clone()) else {
			return fail("ape item refused", format!("the valid key {k:?} is refused"));
		};
		it.read_only = ro;
		match op {
			"insert" => {
				m.retain(|o| !ci(&o.0, &k));
				m.push((k.clone(), v, ro));
				t.insert(it);
			},
			"push" => {
				match m.iter_mut().find(|o| ci(&o.0, &k)) {
					Some(o) => match (&mut o.1, &v) {
						(ItemValue::Text(a), ItemValue::Text(b)) | (ItemValue::Locator(a), ItemValue::Locator(b)) => {
							a.push('\0');
							a.push_str(b);
						},
						_ => *o = (k.clone(), v, ro),
					},
					None => m.push((k.clone(), v, ro)),
				}
				t.push(it);
			},
			"remove" => {
				m.retain(|o| !ci(&o.0, &k));
				t.remove(&k);
			},
			"clear" => {
				if s.chance(1, 5) {
					m.clear();
					t.clear();
				}
			},
			_ => {},
		}
		let got: Vec<(String, ItemValue, bool)> = (&t).into_iter().map(|i| (i.key().to_string(), i.value().clone(), i.read_only)).collect();
		ensure!(got == m, format!("ape {op}"), "after {op} {k:?}: {got:?}, expected {m:?}");
		let want = m.iter().find(|o| ci(&o.0, &k)).map(|o| &o.1);
		ensure!(t.get(&k).map(ApeItem::value) == want, "ape get", "get({k:?}) gives {:?}, expected {want:?}", t.get(&k));
		ensure!(t.contains(&k) == want.is_some() && t.len() == m.len() && t.is_empty() == m.is_empty(), "ape contains or len", "contains {} len {}", t.contains(&k), t.len());
	}
	if m.len() > 1 {
		c.nontrivial();
	}
	Ok(())
}

/// Keys and values ApeItem must refuse or take.
fn c21_ape_key(c: &mut Case) -> R {
	let s = &mut c.src;
	let n = s.size(300, &[0, 1, 2, 254, 255, 256]);
	let mut k: Vec<u8> = (0..n).map(|_| s.range(0x20, 0x7E) as u8).collect();
	if s.chance(1, 4) && n > 0 {
		let i = s.usize(0, n - 1);
		k[i] = *s.pick(&[0u8, 0x1F, 0x7F, 9, 10]);
	}
	let mut k = String::from_utf8(k).unwrap();
	if s.chance(1, 8) {
		k.push('\u{e9}');
	}
	if s.chance(1, 8) {
		k = random_case(s, s_pick(&["ID3", "TAG", "OggS", "MP+", "ID3x", "TAGS"], n));
	}
	c.note(|| format!("{k:?}"));
	let want = (2..=255).contains(&k.len())
		&& k.bytes().all(|b| (0x20..=0x7E).contains(&b))
		&& !["ID3", "TAG", "OGGS", "MP+"].iter().any(|b| ci(b, &k));
	let got = ApeItem::new(k.clone(), ItemValue::Text("x".into())).is_ok();
	ensure!(got == want, "ape key validity", "ApeItem::new with the key {k:?} ({} bytes) gives {got}", k.len());
	c.nontrivial();
	Ok(())
}

fn s_pick<'a>(v: &[&'a str], i: usize) -> &'a str {
	v[i % v.len()]
}

fn c21_riff(c: &mut Case) -> R {
	let mut t = RiffInfoList::new();
	let mut m: Vec<(String, String)> = vec![];
	let valid = |k: &str| k.len() == 4 && k.bytes().all(|b| (0x20..=0x7E).contains(&b)) && !k.trim_end_matches(' ').contains(' ');
	for _ in 0..c.src.usize(1, 20) {
		let s = &mut c.src;
		let base = *s.pick(&["INAM", "IART", "I 1~", "IPRT", "ABC", "ABCDE", "\u{e9}AB", "A\tBC"]);
		let k = random_case(s, base);
		let v = lg::short(s);
		let op = *s.pick(&["insert", "insert", "insert", "remove", "get", "clear"]);
		c.note(|| format!("{op} {k:?} {v:?}"));
		match op {
			"insert" => {
				if valid(&k) {
					m.retain(|o| !ci(&o.0, &k));
					m.push((k.clone(), v.clone()));
				} else if k.len() == 4 {
					// whether other bytes may be in an identifier is not settled here
					continue;
				}
				t.insert(k.clone(), v);
			},
			"remove" => {
				let want = m.iter().position(|o| ci(&o.0, &k)).map(|i| m.remove(i).1);
				let got = t.remove(&k);
				ensure!(got == want, "riff remove result", "remove({k:?}) gave {got:?}, expected {want:?}");
			},
			"clear" => {
				if c.src.chance(1, 5) {
					m.clear();
					t.clear();
				}
			},
			_ => {},
		}
		let got: Vec<(String, String)> = (&t).into_iter().cloned().collect();
		ensure!(got == m, format!("riff {op}"), "after {op} {k:?}: {got:?}, expected {m:?}");
		let want = m.iter().find(|o| ci(&o.0, &k)).map(|o| &*o.1);
		ensure!(t.get(&k) == want, "riff get", "get({k:?}) gives {:?}, expected {want:?}", t.get(&k));
		ensure!(t.contains(&k) == want.is_some() && t.len() == m.len() && t.is_empty() == m.is_empty(), "riff contains or len", "contains {} len {}", t.contains(&k), t.len());
	}
	if m.len() > 1 {
		c.nontrivial();
	}
	Ok(())
}

fn small_data(s: &mut Src) -> AtomData {
	match s.below(6) {
		0 => AtomData::UTF16(lg::short(s)),
		1 if s.bool() => AtomData::SignedInteger(s.below(6) as i32),
		1 => AtomData::SignedInteger(s.u32() as i32),
		2 if s.bool() => AtomData::Unknown { code: DataType::Reserved, data: vec![s.below(6) as u8] },
		2 => AtomData::Bool(s.bool()),
		3 => AtomData::Unknown { code: DataType::Reserved, data: s.blob(3) },
		_ => AtomData::UTF8(lg::short(s)),
	}
}

fn c21_ilst(c: &mut Case) -> R {
	const COVR: AtomIdent<'static> = AtomIdent::Fourcc(*b"covr");
	let mut t = Ilst::new();
	let mut m: Vec<(AtomIdent<'static>, Vec<AtomData>)> = vec![];
	let free = |n: &str| AtomIdent::Freeform { mean: Cow::Owned("com.apple.iTunes".into()), name: Cow::Owned(n.to_string()) };
	let other = |p: Picture| {
		let mut b = Picture::unchecked(p.data().to_vec()).pic_type(PictureType::Other);
		if let Some(x) = p.mime_type() {
			b = b.mime_type(x.clone());
		}
		b.build()
	};
	for _ in 0..c.src.usize(1, 20) {
		let s = &mut c.src;
		let id = match s.below(8) {
			0 => COVR,
			1 => free("A"),
			2 => free("a"),
			3 => AtomIdent::Fourcc(*b"cpil"),
			4 => AtomIdent::Fourcc(*b"rtng"),
			5 => AtomIdent::Fourcc(*b"\xA9ART"),
			_ => AtomIdent::Fourcc(*b"\xA9nam"),
		};
		let op = *s.pick(&["insert", "insert", "insert", "replace", "remove", "retain", "picture", "flag", "remove_pictures", "rating", "get", "clear"]);
		let n = s.usize(1, 3);
		let data: Vec<AtomData> = if id == COVR {
			(0..n).map(|_| AtomData::Picture(small_pic(s))).collect()
		} else {
			(0..n).map(|_| small_data(s)).collect()
		};
		c.note(|| format!("{op} {id:?} {data:?}"));
		let s = &mut c.src;
		let atom = Atom::from_collection(id.clone(), data.clone()).unwrap();
		let add = |id: AtomIdent<'static>, data: Vec<AtomData>, m: &mut Vec<(AtomIdent<'static>, Vec<AtomData>)>| {
			match m.iter_mut().find(|o| o.0 == id) {
				Some(o) => o.1.extend(data),
				None => m.push((id, data)),
			}
		};
		match op {
			"insert" => {
				let data = data
					.into_iter()
					.map(|d| match d {
						AtomData::Picture(p) => AtomData::Picture(other(p)),
						d => d,
					})
					.collect();
				add(id.clone(), data, &mut m);
				t.insert(atom);
			},
			"replace" => {
				m.retain(|o| o.0 != id);
				m.push((id.clone(), data));
				t.replace_atom(atom);
			},
			"remove" => {
				let want: Vec<_> = m.iter().filter(|o| o.0 == id).cloned().collect();
				m.retain(|o| o.0 != id);
				let got: Vec<_> = t.remove(&id).map(|a| (a.ident().clone().into_owned(), a.data().cloned().collect::<Vec<_>>())).collect();
				ensure!(got == want, "ilst remove result", "remove({id:?}) gave {got:?}, expected {want:?}");
			},
			"retain" => {
				if s.chance(1, 3) {
					m.retain(|o| o.1.len() > 1);
					t.retain(|a| a.data().count() > 1);
				}
			},
			"picture" => {
				let p = small_pic(s);
				add(COVR, vec![AtomData::Picture(other(p.clone()))], &mut m);
				t.insert_picture(p);
			},
			"flag" => {
				let f = AtomIdent::Fourcc(**s.pick(&[b"cpil", b"pcst", b"pgap"]));
				let v = s.bool();
				m.retain(|o| o.0 != f);
				if v {
					m.push((f.clone(), vec![AtomData::Bool(true)]));
				}
				t.set_flag(f, v);
			},
			"remove_pictures" => {
				m.retain(|o| !matches!(o.1[0], AtomData::Picture(_)));
				t.remove_pictures();
			},
			"rating" => {
				let r = *s.pick(&[AdvisoryRating::Inoffensive, AdvisoryRating::Explicit, AdvisoryRating::Clean]);
				let id = AtomIdent::Fourcc(*b"rtng");
				m.retain(|o| o.0 != id);
				m.push((id, vec![AtomData::SignedInteger(i32::from(r.as_u8()))]));
				t.set_advisory_rating(r);
				ensure!(t.advisory_rating() == Some(r), "ilst advisory rating", "set_advisory_rating({r:?}) then {:?}", t.advisory_rating());
			},
			"clear" => {
				if s.chance(1, 5) {
					m.clear();
					t.clear();
				}
			},
			_ => {},
		}
		let got: Vec<_> = (&t).into_iter().map(|a| (a.ident().clone().into_owned(), a.data().cloned().collect::<Vec<_>>())).collect();
		ensure!(got == m, format!("ilst {op}"), "after {op} {id:?}: {got:?}, expected {m:?}");
		let want = m.iter().find(|o| o.0 == id).map(|o| o.1.clone());
		let g = t.get(&id).map(|a| a.data().cloned().collect::<Vec<_>>());
		ensure!(g == want, "ilst get", "get({id:?}) gives {g:?}, expected {want:?}");
		ensure!(t.contains(&id) == want.is_some() && t.len() == m.len() && t.is_empty() == m.is_empty(), "ilst contains or len", "contains {} len {}", t.contains(&id), t.len());
		if let Some((_, d)) = m.iter().find(|o| o.0 == AtomIdent::Fourcc(*b"rtng")) {
			// one byte (or number) each: 0 inoffensive, 1 and 4 explicit, 2 clean
			let byte = |d: &AtomData| match d {
				AtomData::SignedInteger(n) => Some(i64::from(*n)),
				AtomData::Unknown { data, .. } if data.len() == 1 => Some(i64::from(data[0])),
				AtomData::Unknown { .. } => Some(-2),
				_ => None,
			};
			if d.iter().all(|d| byte(d) != Some(-2)) {
				let want = d.iter().filter_map(byte).find_map(|b| match b {
					0 => Some(AdvisoryRating::Inoffensive),
					1 | 4 => Some(AdvisoryRating::Explicit),
					2 => Some(AdvisoryRating::Clean),
					_ => None,
				});
				ensure!(t.advisory_rating() == want, "ilst advisory rating", "advisory_rating() gives {:?} for {d:?}", t.advisory_rating());
			}
		}
		let wp: Vec<&Picture> = m.iter().filter(|o| o.0 == COVR).take(1).flat_map(|o| &o.1).filter_map(|d| if let AtomData::Picture(p) = d { Some(p) } else { None }).collect();
		let gp: Vec<&Picture> = t.pictures().into_iter().flatten().collect();
		ensure!(gp == wp, "ilst pictures", "pictures() gives {} of {}", gp.len(), wp.len());
		let flag = |f: &[u8; 4]| m.iter().find(|o| o.0 == AtomIdent::Fourcc(*f)).is_some_and(|o| o.1[0] == AtomData::Bool(true));
		ensure!(
			t.is_compilation() == flag(b"cpil") && t.is_podcast() == flag(b"pcst") && t.is_gapless() == flag(b"pgap") && t.is_show_work() == flag(b"shwm") && t.is_hd_video() == flag(b"hdvd"),
			"ilst flags",
			"flags differ from {m:?}"
		);
	}
	if m.len() > 1 {
		c.nontrivial();
	}
	Ok(())
}

/// How the list tells frames apart: equal frames replace each other.
fn identity(f: &Af) -> String {
	match f {
		Af::Text { id, .. } => format!("T {id}"),
		Af::User { desc, .. } => format!("TXXX {desc}"),
		Af::Url { id, .. } => format!("W {id}"),
		Af::Time { id, .. } => format!("D {id}"),
		Af::UserUrl { desc, .. } => format!("WXXX {desc}"),
		Af::Lang { id, lang, desc, .. } => format!("{id} {lang:?} {desc}"),
		Af::Popm { email, .. } => format!("POPM {email}"),
		Af::Ufid { owner, .. } => format!("UFID {owner}"),
		Af::Rva2 { ident, .. } => format!("RVA2 {ident}"),
		Af::Chap { id, .. } => format!("CHAP {id}"),
		Af::Ctoc { id, .. } => format!("CTOC {id}"),
		_ => format!("{f:?}"),
	}
}

const ONCE: [&str; 11] = ["MCDI", "ETCO", "MLLT", "SYTC", "RVRB", "PCNT", "RBUF", "POSS", "OWNE", "SEEK", "ASPI"];

/// frames whose identities collide often
pub fn close_af(s: &mut Src) -> Af {
	if s.chance(1, 8) {
		return id3::gen_af(s, Cs::Ascii, 0);
	}
	let t = |s: &mut Src| (*s.pick(&["", "a", "A", "b"])).to_string();
	let lang = *s.pick(&[*b"eng", *b"XXX"]);
	match s.below(13) {
		0 | 1 => Af::Text { id: (*s.pick(&["TIT2", "TPE1", "TDRC"])).into(), vals: (0..s.usize(1, 3)).map(|_| lg::short(s)).collect() },
		2 => Af::User { desc: t(s), vals: (0..s.usize(1, 3)).map(|_| lg::short(s)).collect() },
		3 => Af::Url { id: (*s.pick(&["WOAR", "WCOM"])).into(), url: lg::short(s) },
		4 => Af::UserUrl { desc: t(s), url: lg::short(s) },
		5 => Af::Lang { id: (*s.pick(&["COMM", "USLT"])).into(), lang, desc: t(s), text: lg::short(s) },
		6 => Af::Pic { mime: "image/png".into(), ty: s.below(4) as u8, desc: t(s), data: s.blob(1) },
		7 => Af::Popm { email: t(s), rating: s.u8(), counter: s.below(3) },
		8 => Af::Ufid { owner: t(s), data: s.blob(2) },
		9 => Af::Time { id: "TDRC".into(), ts: (*s.pick(&["2001", "2002"])).into() },
		10 => Af::Priv { owner: t(s), data: vec![s.below(2) as u8] },
		11 => Af::Rva2 { ident: t(s), ch: vec![(1, s.u32() as i16, 0, vec![])] },
		_ => Af::Bin { id: (*s.pick(&["MCDI", "PCNT", "ZZZZ", "SEEK"])).into(), data: vec![s.below(3) as u8] },
	}
}

fn c21_frames(c: &mut Case) -> R {
	let mut t: FrameList<'static> = FrameList::new();
	let mut m: Vec<Af> = vec![];
	let fid = |id: &str| FrameId::new(id.to_string()).unwrap();
	let e = TextEncoding::UTF8;
	for _ in 0..c.src.usize(1, 22) {
		let s = &mut c.src;
		let op = *s.pick(&["insert", "insert", "insert", "insert", "user", "remove_user", "remove", "picture", "remove_type", "retain", "clear"]);
		let f = close_af(s);
		let d = (*s.pick(&["", "a", "A", "b"])).to_string();
		let v = lg::short(s);
		c.note(|| format!("{op} {} / {d:?} {v:?}", f.brief()));
		let s = &mut c.src;
		let add = |f: &Af, m: &mut Vec<Af>| -> Option<Af> {
			let ret = if ONCE.contains(&f.id()) {
				let r = m.iter().find(|o| o.id() == f.id()).cloned();
				m.retain(|o| o.id() != f.id());
				r
			} else {
				m.iter().position(|o| identity(o) == identity(f)).map(|i| m.remove(i))
			};
			m.push(f.clone());
			ret
		};
		match op {
			"insert" => {
				let want = add(&f, &mut m);
				let mut fr = id3::to_frame(&f, e);
				if let lofty::id3::v2::Frame::Picture(p) = &mut fr
					&& s.chance(1, 3)
				{
					// a picture that belongs to someone else
					p.picture = Cow::Borrowed(Box::leak(Box::new(p.picture.clone().into_owned())));
				}
				let got = t.insert(fr).map(|x| id3::af_of(&x));
				ensure!(got == want, format!("frames insert result {}", f.id()), "insert({}) returned {got:?}, expected {want:?}", f.brief());
			},
			"user" => {
				let u = Af::User { desc: d.clone(), vals: vec![v.clone()] };
				let want = add(&u, &mut m);
				let got = t.insert_user_text(d.clone(), v.clone()).map(|x| id3::af_of(&x));
				ensure!(got == want, "frames insert_user_text result", "insert_user_text({d:?}) returned {got:?}, expected {want:?}");
			},
			"remove_user" => {
				let want = m.iter().position(|o| matches!(o, Af::User { desc, .. } if *desc == d)).map(|i| m.remove(i));
				let got = t.remove_user_text(&d).map(|x| id3::af_of(&x));
				ensure!(got == want, "frames remove_user_text result", "remove_user_text({d:?}) returned {got:?}, expected {want:?}");
			},
			"remove" => {
				let want: Vec<Af> = m.iter().filter(|o| o.id() == f.id()).cloned().collect();
				m.retain(|o| o.id() != f.id());
				let got: Vec<Af> = t.remove(&fid(f.id())).map(|x| id3::af_of(&x)).collect();
				ensure!(got == want, "frames remove result", "remove({}) returned {got:?}, expected {want:?}", f.id());
			},
			"picture" => {
				let p = small_pic(s);
				let pt = p.pic_type().as_u8();
				let want = if pt == 1 || pt == 2 {
					m.iter().position(|o| matches!(o, Af::Pic { ty, .. } if *ty == pt)).map(|i| m.remove(i))
				} else {
					None
				};
				m.push(Af::Pic { mime: String::new(), ty: pt, desc: String::new(), data: p.data().to_vec() });
				let got = t.insert_picture(p).map(|x| id3::af_of(&x));
				ensure!(got == want, "frames insert_picture result", "insert_picture returned {got:?}, expected {want:?}");
			},
			"remove_type" => {
				let pt = s.below(5) as u8;
				m.retain(|o| !matches!(o, Af::Pic { ty, .. } if *ty == pt));
				t.remove_picture_type(PictureType::from_u8(pt));
			},
			"retain" => {
				if s.chance(1, 3) {
					m.retain(|o| o.id().starts_with('T'));
					t.retain(|x| x.id_str().starts_with('T'));
				}
			},
			_ => {
				if s.chance(1, 5) {
					m.clear();
					t.clear();
				}
			},
		}
		let got: Vec<Af> = t.iter().map(id3::af_of).collect();
		ensure!(got == m, format!("frames {op} {}", f.id()), "after {op}: {}, expected {}", id3::brief(&got), id3::brief(&m));
		ensure!(t.len() == m.len() && t.is_empty() == m.is_empty(), "frames len", "len {} of {}", t.len(), m.len());
		let first = m.iter().find(|o| o.id() == f.id());
		let g = t.get(&fid(f.id())).map(id3::af_of);
		ensure!(g.as_ref() == first, "frames get", "get({}) gives {g:?}, expected {first:?}", f.id());
		let texts: Option<Vec<String>> = match first {
			Some(Af::Text { vals, .. }) => Some(vals.clone()),
			_ => None,
		};
		let g: Option<Vec<String>> = t.get_texts(&fid(f.id())).map(|i| i.map(str::to_string).collect());
		ensure!(g == texts, "frames get_texts", "get_texts({}) gives {g:?}, expected {texts:?}", f.id());
		let g = t.get_text(&fid(f.id()));
		ensure!(g.map(str::to_string) == texts.map(|v| v.join("\0")), "frames get_text", "get_text({}) gives {g:?}", f.id());
		let want = m.iter().find_map(|o| match o {
			Af::User { desc, vals } if *desc == d => Some(vals.join("\0")),
			_ => None,
		});
		ensure!(t.get_user_text(&d).map(str::to_string) == want, "frames get_user_text", "get_user_text({d:?}) gives {:?}, expected {want:?}", t.get_user_text(&d));
	}
	if m.len() > 1 {
		c.nontrivial();
	}
	Ok(())
}

// ------------------------------------------------------------------ C21: accessors

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fld {
	Title,
	Artist,
	Album,
	Genre,
	Comment,
	Track,
	TrackTotal,
	Disk,
	DiskTotal,
	Date,
}

pub const FLDS: [Fld; 10] =
	[Fld::Title, Fld::Artist, Fld::Album, Fld::Genre, Fld::Comment, Fld::Track, Fld::TrackTotal, Fld::Disk, Fld::DiskTotal, Fld::Date];

fn get<A: Accessor>(t: &A, f: Fld) -> Option<String> {
	match f {
		Fld::Title => t.title().map(Cow::into_owned),
		Fld::Artist => t.artist().map(Cow::into_owned),
		Fld::Album => t.album().map(Cow::into_owned),
		Fld::Genre => t.genre().map(Cow::into_owned),
		Fld::Comment => t.comment().map(Cow::into_owned),
		Fld::Track => t.track().map(|n| n.to_string()),
		Fld::TrackTotal => t.track_total().map(|n| n.to_string()),
		Fld::Disk => t.disk().map(|n| n.to_string()),
		Fld::DiskTotal => t.disk_total().map(|n| n.to_string()),
		Fld::Date => t.date().map(|n| n.to_string()),
	}
}

fn set<A: Accessor>(t: &mut A, f: Fld, v: &str) {
	let n = || v.parse::<u32>().unwrap();
	match f {
		Fld::Title => t.set_title(v.into()),
		Fld::Artist => t.set_artist(v.into()),
		Fld::Album => t.set_album(v.into()),
		Fld::Genre => t.set_genre(v.into()),
		Fld::Comment => t.set_comment(v.into()),
		Fld::Track => t.set_track(n()),
		Fld::TrackTotal => t.set_track_total(n()),
		Fld::Disk => t.set_disk(n()),
		Fld::DiskTotal => t.set_disk_total(n()),
		Fld::Date => t.set_date(id3::ts_of(v)),
	}
}

fn unset<A: Accessor>(t: &mut A, f: Fld) {
	match f {
		Fld::Title => t.remove_title(),
		Fld::Artist => t.remove_artist(),
		Fld::Album => t.remove_album(),
		Fld::Genre => t.remove_genre(),
		Fld::Comment => t.remove_comment(),
		Fld::Track => t.remove_track(),
		Fld::TrackTotal => t.remove_track_total(),
		Fld::Disk => t.remove_disk(),
		Fld::DiskTotal => t.remove_disk_total(),
		Fld::Date => t.remove_date(),
	}
}

/// The native names under which a field may be stored in a tag type; the first is the one written.
fn slots(ty: TagType, f: Fld) -> &'static [&'static str] {
	use TagType::*;
	match (ty, f) {
		(Id3v2, Fld::Title) => &["TIT2"],
		(Id3v2, Fld::Artist) => &["TPE1"],
		(Id3v2, Fld::Album) => &["TALB"],
		(Id3v2, Fld::Genre) => &["TCON"],
		(Id3v2, Fld::Comment) => &["COMM"],
		(Id3v2, Fld::Track | Fld::TrackTotal) => &["TRCK"],
		(Id3v2, Fld::Disk | Fld::DiskTotal) => &["TPOS"],
		(Id3v2, Fld::Date) => &["TDRC"],
		(Ape, Fld::Title) => &["TITLE"],
		(Ape, Fld::Artist) => &["ARTIST"],
		(Ape, Fld::Album) => &["ALBUM"],
		(Ape, Fld::Genre) => &["GENRE"],
		(Ape, Fld::Comment) => &["COMMENT"],
		(Ape, Fld::Track | Fld::TrackTotal) => &["TRACK"],
		(Ape, Fld::Disk | Fld::DiskTotal) => &["DISC"],
		(Ape, Fld::Date) => &["YEAR"],
		(VorbisComments, Fld::Title) => &["TITLE"],
		(VorbisComments, Fld::Artist) => &["ARTIST"],
		(VorbisComments, Fld::Album) => &["ALBUM"],
		(VorbisComments, Fld::Genre) => &["GENRE"],
		(VorbisComments, Fld::Comment) => &["COMMENT"],
		(VorbisComments, Fld::Track) => &["TRACKNUMBER", "TRACKNUM"],
		(VorbisComments, Fld::TrackTotal) => &["TRACKTOTAL", "TOTALTRACKS"],
		(VorbisComments, Fld::Disk) => &["DISCNUMBER"],
		(VorbisComments, Fld::DiskTotal) => &["DISCTOTAL", "TOTALDISCS"],
		(VorbisComments, Fld::Date) => &["DATE", "YEAR"],
		(Mp4Ilst, Fld::Title) => &["\u{A9}nam"],
		(Mp4Ilst, Fld::Artist) => &["\u{A9}ART"],
		(Mp4Ilst, Fld::Album) => &["\u{A9}alb"],
		(Mp4Ilst, Fld::Genre) => &["\u{A9}gen"],
		(Mp4Ilst, Fld::Comment) => &["\u{A9}cmt"],
		(Mp4Ilst, Fld::Track | Fld::TrackTotal) => &["trkn"],
		(Mp4Ilst, Fld::Disk | Fld::DiskTotal) => &["disk"],
		(Mp4Ilst, Fld::Date) => &["\u{A9}day"],
		(RiffInfo, Fld::Title) => &["INAM"],
		(RiffInfo, Fld::Artist) => &["IART"],
		(RiffInfo, Fld::Album) => &["IPRD"],
		(RiffInfo, Fld::Genre) => &["IGNR"],
		(RiffInfo, Fld::Comment) => &["ICMT"],
		(RiffInfo, Fld::Track) => &["IPRT"],
		(RiffInfo, Fld::TrackTotal) => &["IFRM"],
		(RiffInfo, Fld::Date) => &["ICRD"],
		(AiffText, Fld::Title) => &["NAME"],
		(AiffText, Fld::Artist) => &["AUTH"],
		(AiffText, Fld::Comment) => &["ANNO"],
		(Id3v1, Fld::Title) => &["title"],
		(Id3v1, Fld::Artist) => &["artist"],
		(Id3v1, Fld::Album) => &["album"],
		(Id3v1, Fld::Genre) => &["genre"],
		(Id3v1, Fld::Comment) => &["comment"],
		(Id3v1, Fld::Track) => &["track"],
		(Id3v1, Fld::Date) => &["year"],
		_ => &[],
	}
}

/// A value the field can hold in that tag type.
fn field_value(s: &mut Src, ty: TagType, f: Fld) -> String {
	match f {
		Fld::Track | Fld::TrackTotal | Fld::Disk | Fld::DiskTotal => {
			let max = match ty {
				TagType::Id3v1 => 255,
				TagType::Mp4Ilst => 65535,
				_ => u64::from(u32::MAX),
			};
			match s.below(3) {
				0 => s.range(1, 30).to_string(),
				1 => s.range(1, max).to_string(),
				_ => max.to_string(),
			}
		},
		Fld::Date => {
			let mut d = stamp(s);
			if ty == TagType::Id3v1 {
				d = Timestamp { year: d.year, ..Default::default() };
			}
			d.to_string()
		},
		Fld::Genre if ty == TagType::Id3v1 => {
			let g = s.below(192) as usize;
			lofty::id3::v1::GENRES[g].to_string()
		},
		Fld::Genre if ty == TagType::Id3v2 => format!("genre{}", lg::short(s)),
		Fld::Comment if ty == TagType::Id3v1 => {
			let n = s.usize(1, 28);
			(0..n).map(|_| char::from(s.range(0x20, 0x7E) as u8)).collect()
		},
		_ => lg::text(s, Cs::Any, false),
	}
}

/// The contents of a tag as (native name, rest of the entry).
type Rows = Vec<(String, String)>;

trait Probe: TagExt + Clone {
	fn rows(&self) -> Rows;
	/// whether the tag says it holds that field, where tags are asked by item key
	fn holds(&self, _: ItemKey) -> Option<bool> {
		None
	}
}
impl Probe for Id3v2Tag {
	fn rows(&self) -> Rows {
		self.iter()
			.map(|f| {
				let a = id3::af_of(f);
				// only comments without description are the comment
				let name = match &a {
					Af::Lang { id, desc, .. } if id == "COMM" && !desc.is_empty() => "COMM described",
					a => a.id(),
				};
				(name.to_string(), format!("{a:?}"))
			})
			.collect()
	}
}
impl Probe for ApeTag {
	fn rows(&self) -> Rows {
		self.into_iter().map(|i| (i.key().to_ascii_uppercase(), format!("{i:?}"))).collect()
	}
}
impl Probe for VorbisComments {
	fn rows(&self) -> Rows {
		let mut v: Rows = self.items().map(|(k, v)| (k.to_ascii_uppercase(), format!("{k}={v}"))).collect();
		v.push(("vendor".into(), self.vendor().into()));
		v.extend(self.pictures().iter().map(|(p, i)| ("picture".to_string(), format!("{} {i:?}", lg::c_pic(p)))));
		v
	}
}
impl Probe for Ilst {
	fn rows(&self) -> Rows {
		self.into_iter()
			.map(|a| {
				let n = match a.ident() {
					AtomIdent::Fourcc(f) => f.iter().map(|b| char::from(*b)).collect(),
					AtomIdent::Freeform { mean, name } => format!("----:{mean}:{name}"),
				};
				(n, format!("{:?}", a.data().collect::<Vec<_>>()))
			})
			.collect()
	}
}
impl Probe for RiffInfoList {
	fn rows(&self) -> Rows {
		self.into_iter().map(|(k, v)| (k.to_ascii_uppercase(), format!("{k}={v}"))).collect()
	}
}
impl Probe for AiffTextChunks {
	fn rows(&self) -> Rows {
		let mut v: Rows = vec![];
		v.extend(self.name.iter().map(|x| ("NAME".to_string(), x.clone())));
		v.extend(self.author.iter().map(|x| ("AUTH".to_string(), x.clone())));
		v.extend(self.copyright.iter().map(|x| ("(c)".to_string(), x.clone())));
		v.extend(self.annotations.iter().flatten().map(|x| ("ANNO".to_string(), x.clone())));
		v.extend(self.comments.iter().flatten().map(|x| ("COMT".to_string(), format!("{x:?}"))));
		v
	}
	fn holds(&self, k: ItemKey) -> Option<bool> {
		Some(self.contains(&k))
	}
}
impl Probe for Id3v1Tag {
	fn rows(&self) -> Rows {
		let mut v: Rows = vec![];
		let mut add = |n: &str, x: Option<String>| v.extend(x.map(|x| (n.to_string(), x)));
		add("title", self.title.clone());
		add("artist", self.artist.clone());
		add("album", self.album.clone());
		add("comment", self.comment.clone());
		add("year", self.year.map(|x| x.to_string()));
		add("track", self.track_number.map(|x| x.to_string()));
		add("genre", self.genre.map(|x| x.to_string()));
		v
	}
	fn holds(&self, k: ItemKey) -> Option<bool> {
		Some(self.contains(&k))
	}
}

fn partner(f: Fld) -> Option<Fld> {
	Some(match f {
		Fld::Track => Fld::TrackTotal,
		Fld::TrackTotal => Fld::Track,
		Fld::Disk => Fld::DiskTotal,
		Fld::DiskTotal => Fld::Disk,
		_ => return None,
	})
}

/// What a tag says about its size agrees with its contents.
fn counted<A: Probe>(t: &A, ty: TagType) -> R {
	let rows = t.rows();
	let n = rows.iter().filter(|r| r.0 != "vendor").count();
	ensure!(t.tag_type() == ty, "native tag type", "a {ty:?} tag calls itself {:?}", t.tag_type());
	ensure!(t.len() == n, format!("{} len", lg_name(ty)), "len() is {}, the tag has {rows:?}", t.len());
	ensure!(t.is_empty() == (n == 0), format!("{} is_empty", lg_name(ty)), "is_empty() is {}, the tag has {rows:?}", t.is_empty());
	for (k, names) in [
		(ItemKey::TrackTitle, &["title", "NAME"][..]),
		(ItemKey::TrackArtist, &["artist", "AUTH"]),
		(ItemKey::AlbumTitle, &["album"]),
		(ItemKey::CopyrightMessage, &["(c)"]),
		(ItemKey::Comment, &["comment", "ANNO", "COMT"]),
		(ItemKey::Year, &["year"]),
		(ItemKey::TrackNumber, &["track"]),
		(ItemKey::Genre, &["genre"]),
		(ItemKey::Composer, &[]),
	] {
		let want = rows.iter().any(|r| names.contains(&&*r.0));
		ensure!(t.holds(k).is_none_or(|h| h == want), format!("{} contains", lg_name(ty)), "contains({k:?}) is {}, the tag has {rows:?}", !want);
	}
	Ok(())
}

fn accessors<A: Probe>(c: &mut Case, ty: TagType, mut t: A) -> R {
	c.note(|| format!("{ty:?} {:?}", t.rows()));
	let n = c.src.usize(1, 14);
	let mut changed = 0;
	for _ in 0..n {
		let s = &mut c.src;
		let f = *s.pick(&FLDS);
		let sl = slots(ty, f);
		let setting = s.chance(2, 3);
		let v = if setting { Some(field_value(s, ty, f)) } else { None };
		c.note(|| format!("{f:?} := {v:?}"));
		let before = t.rows();
		let old: Vec<Option<String>> = FLDS.iter().map(|f| get(&t, *f)).collect();
		match &v {
			Some(v) => set(&mut t, f, v),
			None => unset(&mut t, f),
		}
		let after = t.rows();
		let sig = |w: &str| format!("{} {f:?} {} {w}", lg_name(ty), if setting { "set" } else { "removed" });
		let got = get(&t, f);
		if sl.is_empty() {
			ensure!(after == before, sig("unsupported field changed the tag"), "before {before:?} after {after:?}");
			ensure!(got.is_none(), sig("unsupported field has a value"), "{got:?}");
			continue;
		}
		changed += 1;
		let shared = partner(f).filter(|p| slots(ty, *p) == sl);
		let ok = match (&v, &got) {
			// numbers stored in pairs with a fixed size cannot be absent alone
			(None, Some(g)) => shared.is_some() && matches!(f, Fld::TrackTotal | Fld::DiskTotal) && g == "0",
			_ => v == got,
		};
		ensure!(ok, sig("value"), "{f:?} set to {v:?} reads as {got:?}; rows {after:?}");
		for (i, g) in FLDS.iter().enumerate() {
			if *g == f {
				continue;
			}
			let now = get(&t, *g);
			if now == old[i] {
				continue;
			}
			// the other half of a pair may come and go with this one, but keeps its value
			let zero = now.as_deref() == Some("0");
			let pair_ok = shared == Some(*g)
				&& match (&v, f) {
					(None, Fld::Track | Fld::Disk) => now.is_none(),
					(None, _) => zero && old[i].is_none(),
					(Some(_), _) => old[i].is_none() && zero || old[i].as_deref() == Some("0") && now.is_none(),
				};
			ensure!(pair_ok, sig(&format!("changed {g:?}")), "{f:?} := {v:?} changed {g:?} from {:?} to {now:?}", old[i]);
		}
		// everything stored under other names stays, in order
		let rest = |r: &Rows| -> Rows { r.iter().filter(|(n, _)| !sl.contains(&&**n) && !(ty == TagType::AiffText && f == Fld::Comment && !setting && n == "COMT")).cloned().collect() };
		let (b, a) = (rest(&before), rest(&after));
		ensure!(a == b, sig("other entries"), "before {b:?} after {a:?}");
		let mine = after.iter().filter(|(n, _)| sl.contains(&&**n)).count();
		if setting {
			ensure!(mine == 1, sig("duplicates"), "{mine} entries for {f:?}: {after:?}");
		} else if shared.is_none() {
			ensure!(mine == 0, sig("left over"), "{mine} entries for {f:?} after its removal: {after:?}");
			if ty == TagType::AiffText && f == Fld::Comment {
				ensure!(!after.iter().any(|r| r.0 == "COMT"), sig("left over"), "{after:?}");
			}
		}
		counted(&t, ty)?;
	}
	let s = &mut c.src;
	if s.chance(1, 4) {
		c.note(|| "clear".into());
		t.clear();
		let rows = t.rows();
		ensure!(rows.iter().all(|r| r.0 == "vendor"), format!("{} cleared", lg_name(ty)), "{rows:?} after clear()");
		ensure!(FLDS.iter().all(|f| get(&t, *f).is_none()), format!("{} cleared", lg_name(ty)), "fields left after clear()");
		counted(&t, ty)?;
	}
	if changed > 0 {
		c.nontrivial();
	}
	c.class(lg_name(ty));
	Ok(())
}

fn c21_access(c: &mut Case) -> R {
	let s = &mut c.src;
	let ty = *s.pick(&lg::ALL_TYPES);
	let dup = |s: &mut Src| s.chance(1, 3);
	match ty {
		TagType::Id3v2 => {
			let mut t = Id3v2Tag::new();
			for f in id3::gen_afs(s, Cs::Any, 1, 6) {
				// numbers that are no numbers and genres by index are read leniently; see C13
				if matches!(f.id(), "TRCK" | "TPOS" | "TCON") {
					continue;
				}
				t.insert(id3::to_frame(&f, TextEncoding::UTF8));
			}
			for id in ["TRCK", "TPOS"] {
				if s.bool() {
					let v = if s.bool() { s.range(1, 99).to_string() } else { format!("{}/{}", s.range(1, 99), s.range(1, 99)) };
					t.insert(id3::to_frame(&Af::Text { id: id.into(), vals: vec![v] }, TextEncoding::UTF8));
				}
			}
			for lang in [*b"XXX", *b"eng", *b"deu"] {
				if dup(s) {
					let f = Af::Lang { id: "COMM".into(), lang, desc: (*s.pick(&["", "", "d"])).into(), text: lg::short(s) };
					t.insert(id3::to_frame(&f, TextEncoding::UTF8));
				}
			}
			accessors(c, ty, t)
		},
		TagType::Ape => {
			let mut t = roundtrip::ape_tag(s);
			for k in ["Track", "Disc"] {
				t.remove(k);
				if s.bool() {
					let v = if s.bool() { s.range(1, 99).to_string() } else { format!("{}/{}", s.range(1, 99), s.range(1, 99)) };
					let k = random_case(s, k);
					t.insert(ApeItem::new(k, ItemValue::Text(v)).unwrap());
				}
			}
			accessors(c, ty, t)
		},
		TagType::VorbisComments => {
			let mut t = roundtrip::vc_tag(s);
			for _ in 0..s.usize(0, 6) {
				let f = *s.pick(&FLDS);
				let k = *s.pick(slots(ty, f));
				let k = random_case(s, k);
				t.push(k, field_value(s, ty, f));
			}
			accessors(c, ty, t)
		},
		TagType::Mp4Ilst => {
			let mut t = roundtrip::ilst_tag(s);
			for k in [*b"trkn", *b"disk"] {
				let _ = t.remove(&AtomIdent::Fourcc(k)).count();
				if s.bool() {
					let d = vec![0, 0, s.u8(), s.u8(), s.u8(), s.u8()];
					t.insert(Atom::new(AtomIdent::Fourcc(k), AtomData::Unknown { code: DataType::Reserved, data: d }));
				}
			}
			accessors(c, ty, t)
		},
		TagType::RiffInfo => {
			let t = roundtrip::riff_tag(s);
			accessors(c, ty, t)
		},
		TagType::AiffText => {
			let t = roundtrip::aiff_tag(s);
			accessors(c, ty, t)
		},
		_ => {
			let t = roundtrip::v1_tag(s);
			accessors(c, ty, t)
		},
	}
}

/// The same for the generic tag: each field is the item of its key.
fn c21_generic_access(c: &mut Case) -> R {
	let s = &mut c.src;
	let ty = *s.pick(&lg::ALL_TYPES);
	let mut t = Tag::new(ty);
	for _ in 0..s.usize(0, 8) {
		t.push_unchecked(item(s));
	}
	let keys = |f: Fld| match f {
		Fld::Title => ItemKey::TrackTitle,
		Fld::Artist => ItemKey::TrackArtist,
		Fld::Album => ItemKey::AlbumTitle,
		Fld::Genre => ItemKey::Genre,
		Fld::Comment => ItemKey::Comment,
		Fld::Track => ItemKey::TrackNumber,
		Fld::TrackTotal => ItemKey::TrackTotal,
		Fld::Disk => ItemKey::DiscNumber,
		Fld::DiskTotal => ItemKey::DiscTotal,
		Fld::Date => ItemKey::RecordingDate,
	};
	for _ in 0..s.usize(1, 12) {
		let s = &mut c.src;
		let f = *s.pick(&FLDS);
		let k = keys(f);
		let mut m: Vec<TagItem> = t.items().cloned().collect();
		let drop = |i: &TagItem| i.key() == k || f == Fld::Date && i.key() == ItemKey::Year;
		if s.chance(2, 3) {
			let v = field_value(s, TagType::VorbisComments, f);
			c.note(|| format!("{ty:?} {f:?} := {v}"));
			if accepts(ty, k) {
				m.retain(|i| !drop(i));
				m.push(TagItem::new(k, ItemValue::Text(v.clone())));
			} else if f == Fld::Date {
				m.retain(|i| i.key() != ItemKey::Year);
			}
			set(&mut t, f, &v);
			if accepts(ty, k) {
				let g = get(&t, f);
				ensure!(g.as_ref() == Some(&v), format!("generic {f:?} value"), "{f:?} set to {v:?} reads as {g:?}");
				c.nontrivial();
			}
		} else {
			c.note(|| format!("{ty:?} remove {f:?}"));
			m.retain(|i| !drop(i));
			unset(&mut t, f);
			let g = get(&t, f);
			ensure!(g.is_none(), format!("generic {f:?} removed"), "{f:?} removed reads as {g:?}");
		}
		let got: Vec<TagItem> = t.items().cloned().collect();
		ensure!(got == m, format!("generic accessor {f:?}"), "items {got:?}, expected {m:?}");
	}
	Ok(())
}

pub fn props() -> Vec<Property> {
	vec![
		Property {
			id: "C21",
			rule: "the history left more than one entry, or changed a supported field",
			assumptions: &[
				"fields are set to values they can hold (16 bit numbers in MP4, the genre list and 28 byte comments in ID3v1)",
				"the two numbers of a pair share one entry in ID3v2, APE and MP4 tags",
			],
			suites: vec![
				suite!("tag", 80_000, 3_000_000, c21_tag),
				suite!("vorbis", 60_000, 2_000_000, c21_vorbis),
				suite!("ape", 60_000, 2_000_000, c21_ape),
				suite!("ape-keys", 30_000, 500_000, c21_ape_key),
				suite!("riff", 60_000, 2_000_000, c21_riff),
				suite!("ilst", 60_000, 2_000_000, c21_ilst),
				suite!("frames", 60_000, 2_000_000, c21_frames),
				suite!("accessors", 60_000, 2_000_000, c21_access),
				suite!("generic-accessors", 60_000, 2_000_000, c21_generic_access),
			],
		},
		Property {
			id: "C22",
			rule: "a documented name was looked up, a name no format knows was refused, or an accepted item was added",
			assumptions: &["the reference table of names (src/names.rs) lists the documented names of every format"],
			suites: vec![
				suite!("keys", 200_000, 2_000_000, c22_keys),
				suite!("unknown", 200_000, 2_000_000, c22_unknown),
				suite!("accept", 150_000, 2_000_000, c22_accept),
			],
		},
	]
}
