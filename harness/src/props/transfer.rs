//! C36: tags copied from one format to another.

use super::generic::{Kd, canon_key, kind_of, value};
use super::model::accepts;
use super::roundtrip;
use crate::engine::{Case, Fail, Property, R, Src, Suite, fail, guard};
use crate::ensure;
use crate::fmt::{self, Kind};
use crate::lg::{self, Cs, NTag};
use crate::rd;
use crate::util::Mem;
use lofty::config::WriteOptions;
use lofty::file::{AudioFile, TaggedFile, TaggedFileExt};
use lofty::picture::{MimeType, Picture};
use lofty::probe::Probe;
use lofty::tag::{ItemKey, ItemValue, Tag, TagExt, TagItem, TagType};
use std::collections::BTreeMap;
use std::io::Cursor;

macro_rules! suite {
	($name:literal, $q:expr, $t:expr, $f:expr) => {
		Suite { name: $name, quick: $q, thorough: $t, run: $f }
	};
}

/// One stop of the journey: a file and the tag type used in it.
#[derive(Clone, Copy, Debug)]
struct Stop {
	k: Kind,
	ty: TagType,
}

/// the keys an item goes by at each stop, if every format has a place for it
fn names(stops: &[Stop], k: ItemKey) -> Option<Vec<ItemKey>> {
	let mut out = vec![];
	let mut k = k;
	for s in stops {
		if !accepts(s.ty, k) || (s.ty == TagType::VorbisComments && k == ItemKey::EncoderSoftware) {
			return None;
		}
		k = canon_key(s.ty, k);
		// ID3v1 knows the year only
		if s.ty == TagType::Id3v1 && k == ItemKey::RecordingDate {
			k = ItemKey::Year;
		}
		out.push(k);
	}
	Some(out)
}

/// Values every stop can hold (the strictest rules apply).
fn values(s: &mut Src, stops: &[Stop], kd: &[Kd]) -> Vec<String> {
	let has = |k: Kd| kd.contains(&k);
	let v1 = stops.iter().any(|x| x.ty == TagType::Id3v1);
	let one = has(Kd::Single) || v1;
	if has(Kd::Number) {
		let max = stops
			.iter()
			.map(|x| match x.ty {
				TagType::Mp4Ilst => 0xFFFF,
				TagType::Id3v1 => 255,
				_ => 0xFFFF_FFFFu64,
			})
			.min()
			.unwrap();
		let m = *s.pick(&[9u64, 255, 65535, 0xFFFF_FFFF]);
		return vec![s.range(1, m.min(max)).to_string()];
	}
	if has(Kd::Date) {
		let y = s.range(1000, 9999);
		return vec![match s.below(4) {
			_ if v1 => y.to_string(),
			0 => y.to_string(),
			1 => format!("{y}-{:02}", s.range(1, 12)),
			2 => format!("{y}-{:02}-{:02}", s.range(1, 12), s.range(1, 28)),
			_ => format!("{y}-{:02}-{:02}T{:02}:{:02}:{:02}", s.range(1, 12), s.range(1, 28), s.below(24), s.below(60), s.below(60)),
		}];
	}
	if has(Kd::Flag) {
		return vec![s.below(2).to_string()];
	}
	if has(Kd::Advisory) {
		return vec![s.below(3).to_string()];
	}
	if has(Kd::Rating) {
		let mail = *s.pick(&["MusicBee", "a@b.c", "Windows Media Player 9 Series", ""]);
		return vec![format!("{mail}|{}|{}", s.range(1, 5), s.below(1000))];
	}
	if has(Kd::Url) {
		let n = if one || s.bool() { 1 } else { s.usize(2, 3) };
		// one frame holds one address
		let n = if kd.iter().any(|k| *k == Kd::Url) { 1 } else { n };
		return (0..n).map(|_| format!("http://{}/{}", s.pick(&["example.com", "a.b", "x"]), s.below(1000))).collect();
	}
	if has(Kd::Ascii) {
		return vec![lg::text(s, Cs::Ascii, false)];
	}
	let n = if one || s.bool() { 1 } else { s.usize(2, 3) };
	if has(Kd::Genre) {
		return (0..n)
			.map(|_| if v1 || s.bool() { (*s.pick(&lofty::id3::v1::GENRES)).to_string() } else { lg::short(s) })
			.collect();
	}
	let ty = if v1 { TagType::Id3v1 } else { TagType::Ape };
	(0..n).map(|_| value(s, ty)).collect()
}

/// what is compared: texts by key (of a rating only the stars)
fn texts(ty: TagType, t: &Tag) -> BTreeMap<String, Vec<String>> {
	let mut g: BTreeMap<String, Vec<String>> = BTreeMap::new();
	for i in t.items() {
		let k = canon_key(ty, i.key());
		let v = match i.value() {
			ItemValue::Text(t) | ItemValue::Locator(t) => t.clone(),
			ItemValue::Binary(b) => format!("binary {}", lg::c_bytes(b)),
		};
		g.entry(format!("{k:?}")).or_default().push(seen(k, &v));
	}
	g
}

fn seen(k: ItemKey, v: &str) -> String {
	if k == ItemKey::Popularimeter {
		let mut p = v.rsplitn(3, '|');
		p.next();
		return format!("{} stars", p.next().unwrap_or("no"));
	}
	v.to_string()
}

fn load(k: Kind, d: &[u8]) -> Result<TaggedFile, Fail> {
	let r = guard(|| Probe::new(Cursor::new(d)).guess_file_type().map_err(|e| e.to_string())?.read().map_err(|e| rd::chain(&e)))?;
	r.or_else(|e| fail(format!("{}: unreadable after a save", k.name()), e))
}

fn copy(c: &mut Case) -> R {
	let s = &mut c.src;
	let n = [2, 3, 4][s.weighted(&[6, 2, 1])];
	let mut stops: Vec<Stop> = vec![];
	while stops.len() < n {
		let k = *s.pick(&fmt::ALL_KINDS);
		let ty = *s.pick(lg::writable(k));
		if stops.last().is_some_and(|l| l.ty == ty) {
			continue;
		}
		stops.push(Stop { k, ty });
	}
	let first = stops[0];
	let mut tag = Tag::new(first.ty);
	// the keys of each item at each stop, and its values
	let mut items: Vec<(Vec<ItemKey>, Vec<String>)> = vec![];
	// what all of them know
	let shared: Vec<(ItemKey, Vec<ItemKey>)> = lg::ALL_KEYS.iter().filter_map(|k| Some((*k, names(&stops, *k)?))).collect();
	for _ in 0..s.usize(2, 10) {
		if shared.is_empty() {
			break;
		}
		let (k, names) = s.pick(&shared).clone();
		if items.iter().any(|(o, _)| o.iter().zip(&names).any(|(a, b)| a == b)) {
			continue;
		}
		let mut kd: Vec<Kd> = vec![];
		let mut key = k;
		for (x, next) in stops.iter().zip(&names) {
			kd.push(kind_of(x.ty, key));
			kd.push(kind_of(x.ty, *next));
			key = *next;
		}
		let vals = values(s, &stops, &kd);
		let url = kind_of(first.ty, k) == Kd::Url || (first.ty == TagType::Ape && kd.contains(&Kd::Url) && s.bool());
		for v in &vals {
			let v = if url { ItemValue::Locator(v.clone()) } else { ItemValue::Text(v.clone()) };
			let mut i = TagItem::new(k, v);
			// what only some of the formats know about an item does not get in its way
			if vals.len() == 1 && s.chance(1, 3) {
				i.set_lang(**s.pick(&[b"eng", b"deu", b"XXX"]));
				i.set_description(lg::text(s, Cs::Any, true));
			}
			tag.push(i);
		}
		items.push((names, vals));
	}
	let pictured = stops.iter().all(|x| !matches!(x.ty, TagType::Id3v1 | TagType::RiffInfo | TagType::AiffText));
	let ilst = stops.iter().any(|x| x.ty == TagType::Mp4Ilst);
	let mut pics: Vec<Picture> = vec![];
	if pictured && s.bool() {
		let n = if ilst { 1 } else { s.usize(1, 3) };
		for _ in 0..n {
			let p = if ilst && s.bool() { roundtrip::ilst_picture(s) } else { lg::picture(s, Cs::Any).pic };
			if ilst && matches!(p.mime_type(), Some(MimeType::Tiff | MimeType::Unknown(_))) {
				continue;
			}
			// APE tags have no place for unlisted types
			if p.pic_type().as_ape_key().is_none() || p.mime_type().is_none() || pics.iter().any(|o| o.pic_type() == p.pic_type()) {
				continue;
			}
			if stops.iter().any(|x| x.ty == TagType::Ape) && !super::generic::known_image(p.data()) {
				continue;
			}
			tag.push_picture(p.clone());
			pics.push(p);
		}
	}
	if items.is_empty() && pics.is_empty() {
		return Ok(());
	}
	let note = stops.iter().map(|x| format!("{} {:?}", x.k.name(), x.ty)).collect::<Vec<_>>().join(" -> ");
	c.note(|| format!("{note}: {:?}", lg::c_tag(&tag)).chars().take(900).collect::<String>());
	c.class(super::model::lg_name(stops[1].ty));
	if items.len() > 1 || !pics.is_empty() {
		c.nontrivial();
	}
	for (i, stop) in stops.iter().enumerate() {
		let what = if i == 0 { format!("{:?}", stop.ty) } else { format!("{:?} to {:?}", stops[i - 1].ty, stop.ty) };
		if i > 0 {
			guard(|| tag.re_map(stop.ty))?;
		}
		let mut m = Mem::new(fmt::gen_plain(&mut c.src, stop.k));
		let o = WriteOptions::new();
		let way = c.src.below(4);
		let r = match way {
			0 => {
				let mut f = load(stop.k, &m.data)?;
				let t = tag.clone();
				guard(|| {
					f.insert_tag(t);
					f.save_to(&mut m, o).map_err(|e| rd::chain(&e))
				})?
			},
			1 => {
				let n = guard(|| NTag::from_generic(tag.clone()))?;
				guard(|| n.save(&mut m, o).map_err(|e| rd::chain(&e)))?
			},
			_ => guard(|| tag.save_to(&mut m, o).map_err(|e| rd::chain(&e)))?,
		};
		r.or_else(|e| fail(format!("{what}: not saved"), e))?;
		let f = load(stop.k, &m.data)?;
		let Some(t) = f.tag(stop.ty) else {
			return fail(format!("{what}: no tag in the new file"), format!("{} items", items.len()));
		};
		let mut got = texts(stop.ty, t);
		for (names, vals) in &items {
			let key = format!("{:?}", names[i]);
			let want: Vec<String> = vals.iter().map(|v| seen(names[i], v)).collect();
			let Some(g) = got.remove(&key) else {
				return fail(format!("{what}: {key} lost"), format!("{want:?} is gone; {got:?}").chars().take(900).collect::<String>());
			};
			ensure!(g == want, format!("{what}: {key} changed"), "had {want:?}, has {g:?}");
		}
		got.retain(|k, v| !(k.ends_with("Number") && *v == ["0"]) && !(stop.ty == TagType::VorbisComments && k == "EncoderSoftware"));
		if let Some((k, v)) = got.iter().next() {
			return fail(format!("{what}: {k} appeared"), format!("{v:?}"));
		}
		let show = |p: &Picture| {
			let head = if ilst { String::new() } else { format!("{:?} {:?} ", p.pic_type(), p.description().unwrap_or_default()) };
			format!("{head}{:?} {}", p.mime_type(), lg::c_bytes(p.data()))
		};
		let mut w: Vec<String> = pics.iter().map(show).collect();
		let mut g: Vec<String> = t.pictures().iter().map(show).collect();
		w.sort();
		g.sort();
		ensure!(w == g, format!("{what}: pictures changed"), "had {w:?}, has {g:?}");
		tag = t.clone();
		// the vendor belongs to the file that was left
		if stop.ty == TagType::VorbisComments {
			tag.remove_key(ItemKey::EncoderSoftware);
		}
	}
	Ok(())
}

pub fn props() -> Vec<Property> {
	vec![Property {
		id: "C36",
		rule: "at least two items, or a picture, were carried through two files or more",
		assumptions: &[
			"values are within what every format on the way can express",
			"of ratings only the stars are compared, of iTunes pictures only the data and its kind",
		],
		suites: vec![suite!("copy", 30_000, 600_000, copy)],
	}]
}
