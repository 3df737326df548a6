//! C19, C20: generic tags, their native counterparts, and files written from them.

use super::model::name_of;
use super::preserve::esig;
use super::roundtrip;
use crate::engine::{Case, Fail, Property, R, Src, Suite, fail, guard};
use crate::ensure;
use crate::fmt::{self, Kind, id3};
use crate::lg::{self, Cs, NTag};
use crate::util::{Mem, first_diff};
use lofty::TextEncoding;
use lofty::ape::{ApeItem, ApeTag};
use lofty::config::{ParseOptions, WriteOptions};
use lofty::id3::v2::{Frame, FrameId, Id3v2Tag, TimestampFrame};
use lofty::mp4::{AtomData, AtomIdent, DataType};
use lofty::ogg::OggPictureStorage;
use lofty::picture::{MimeType, Picture, PictureInformation, PictureType};
use lofty::tag::items::Timestamp;
use lofty::tag::{ItemKey, ItemValue, MergeTag, SplitTag, Tag, TagExt, TagItem, TagType};
use std::collections::BTreeMap;

macro_rules! suite {
	($name:literal, $q:expr, $t:expr, $f:expr) => {
		Suite { name: $name, quick: $q, thorough: $t, run: $f }
	};
}

/// Items of the ID3v2 people list and the MusicBrainz identifier, which are not fields of their own.
const ID3V2_EXTRA: &[ItemKey] = &[
	ItemKey::Producer,
	ItemKey::Arranger,
	ItemKey::Engineer,
	ItemKey::MixDj,
	ItemKey::MixEngineer,
	ItemKey::MusicBrainzRecordingId,
];

fn supported(ty: TagType, k: ItemKey) -> bool {
	name_of(ty, k).is_some() || (ty == TagType::Id3v2 && ID3V2_EXTRA.contains(&k))
}

/// The key an item comes back as: several keys may share a native field.
pub fn canon_key(ty: TagType, k: ItemKey) -> ItemKey {
	use ItemKey as K;
	if ty == TagType::Id3v2 && ID3V2_EXTRA.contains(&k) {
		return k;
	}
	// a number and its total share a field, but are told apart
	if matches!(k, K::TrackNumber | K::TrackTotal | K::DiscNumber | K::DiscTotal | K::MovementNumber | K::MovementTotal) {
		return k;
	}
	name_of(ty, k).and_then(|n| ItemKey::from_key(ty, n)).unwrap_or(k)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kd {
	Multi,
	Single,
	Number,
	Date,
	Flag,
	Url,
	Advisory,
	Rating,
	Langs,
	Genre,
	Ascii,
}

pub fn kind_of(ty: TagType, k: ItemKey) -> Kd {
	use ItemKey as K;
	match k {
		K::TrackNumber | K::TrackTotal | K::DiscNumber | K::DiscTotal | K::MovementNumber | K::MovementTotal => Kd::Number,
		K::RecordingDate | K::Year | K::ReleaseDate | K::OriginalReleaseDate | K::TaggingTime | K::EncodingTime => Kd::Date,
		K::FlagCompilation | K::FlagPodcast => Kd::Flag,
		K::Popularimeter => Kd::Rating,
		K::ParentalAdvisory => Kd::Advisory,
		K::ReplayGainAlbumGain | K::ReplayGainAlbumPeak | K::ReplayGainTrackGain | K::ReplayGainTrackPeak => Kd::Single,
		K::MusicBrainzRecordingId if ty == TagType::Id3v2 => Kd::Ascii,
		K::IntegerBpm | K::Length if ty == TagType::Id3v2 => Kd::Single,
		K::Genre if ty == TagType::Id3v2 || ty == TagType::Id3v1 => Kd::Genre,
		_ if ty == TagType::Id3v1 || ty == TagType::RiffInfo => Kd::Single,
		K::Comment if ty == TagType::AiffText => Kd::Multi,
		_ if ty == TagType::AiffText => Kd::Single,
		K::Comment | K::UnsyncLyrics if ty == TagType::Id3v2 => Kd::Langs,
		_ if ty == TagType::Id3v2 && name_of(ty, k).is_some_and(|n| n.len() == 4 && n.starts_with('W') && n != "WORK") => Kd::Url,
		_ => Kd::Multi,
	}
}

pub fn value(s: &mut Src, ty: TagType) -> String {
	match ty {
		TagType::Id3v1 => {
			let t: String = lg::text(s, Cs::Ascii, false).chars().filter(|c| !c.is_control()).take(28).collect();
			let t = t.trim_end().to_string();
			if t.is_empty() { "x".into() } else { t }
		},
		_ if s.chance(1, 3) => lg::short(s),
		_ => lg::text(s, Cs::Any, false),
	}
}

/// group of an item: its key, and in ID3v2 what distinguishes comments
fn group(ty: TagType, i: &TagItem) -> String {
	let k = canon_key(ty, i.key());
	if ty == TagType::Id3v2 && matches!(k, ItemKey::Comment | ItemKey::UnsyncLyrics) {
		format!("{k:?} {:?} {:?}", i.lang(), i.description())
	} else {
		format!("{k:?}")
	}
}

fn text_of(v: &ItemValue) -> String {
	match v {
		ItemValue::Text(t) | ItemValue::Locator(t) => format!("{t:?}"),
		ItemValue::Binary(b) => format!("binary {}", lg::c_bytes(b)),
	}
}

pub type Groups = BTreeMap<String, Vec<String>>;

pub fn groups(t: &Tag) -> Groups {
	let mut g = Groups::new();
	for i in t.items() {
		g.entry(group(t.tag_type(), i)).or_default().push(text_of(i.value()));
	}
	g
}

/// A generic tag of the type, and what of it the native format can hold.
pub struct Gen {
	pub tag: Tag,
	pub want: Groups,
	pub pics: Vec<Picture>,
	pub dropped: usize,
	pub multi: bool,
}

fn rating(s: &mut Src) -> (String, u64, u64) {
	let e = match s.below(5) {
		0 => "MusicBee".to_string(),
		1 => "users@musicbrainz.org".to_string(),
		2 => "Windows Media Player 9 Series".to_string(),
		3 => String::new(),
		_ => format!("{}@example.com", lg::short(s)),
	};
	let c = if s.bool() { 0 } else { s.below(1 << 33) };
	(e, s.range(1, 5), c)
}

pub fn gen_items(s: &mut Src, ty: TagType) -> Gen {
	let mut tag = Tag::new(ty);
	let mut items: Vec<TagItem> = vec![];
	let mut used: Vec<ItemKey> = vec![];
	let (mut dropped, mut multi) = (0, false);
	for _ in 0..s.usize(1, 10) {
		let k = *s.pick(lg::ALL_KEYS);
		let ck = canon_key(ty, k);
		if used.contains(&ck) {
			continue;
		}
		// the software is the vendor in Vorbis comments, which belongs to the file
		if ty == TagType::VorbisComments && k == ItemKey::EncoderSoftware {
			continue;
		}
		if !supported(ty, k) {
			// ID3v1 takes the year from any date it finds
			if ty == TagType::Id3v1 && kind_of(ty, k) == Kd::Date {
				continue;
			}
			dropped += 1;
			items.push(TagItem::new(k, ItemValue::Text(value(s, TagType::Ape))));
			used.push(k);
			continue;
		}
		used.push(ck);
		let kd = kind_of(ty, k);
		let max: u64 = match ty {
			TagType::Mp4Ilst => 0xFFFF,
			TagType::Id3v1 => 255,
			_ => 0xFFFF_FFFF,
		};
		let mut vals: Vec<ItemValue> = vec![];
		match kd {
			Kd::Number => {
				let m = *s.pick(&[9u64, 255, 65535, 0xFFFF_FFFF]);
				vals.push(ItemValue::Text(s.range(1, m.min(max)).to_string()));
			},
			Kd::Date => {
				let y = s.range(1000, 9999);
				vals.push(ItemValue::Text(match s.below(4) {
					_ if ty == TagType::Id3v1 => y.to_string(),
					0 => y.to_string(),
					1 => format!("{y}-{:02}", s.range(1, 12)),
					2 => format!("{y}-{:02}-{:02}", s.range(1, 12), s.range(1, 28)),
					_ => format!("{y}-{:02}-{:02}T{:02}:{:02}:{:02}", s.range(1, 12), s.range(1, 28), s.below(24), s.below(60), s.below(60)),
				}));
			},
			Kd::Flag => vals.push(ItemValue::Text(s.below(2).to_string())),
			Kd::Advisory => vals.push(ItemValue::Text(s.below(3).to_string())),
			Kd::Url => vals.push(ItemValue::Locator(format!("http://{}/{}", lg::short(s), s.below(100)))),
			Kd::Ascii => vals.push(ItemValue::Text(lg::text(s, Cs::Ascii, false))),
			Kd::Genre => {
				let n = if ty == TagType::Id3v2 { s.usize(1, 3) } else { 1 };
				for _ in 0..n {
					vals.push(ItemValue::Text(if ty == TagType::Id3v1 || s.bool() {
						(*s.pick(&lofty::id3::v1::GENRES)).to_string()
					} else {
						lg::short(s)
					}));
				}
			},
			Kd::Rating => {
				let n = if matches!(ty, TagType::Id3v2 | TagType::VorbisComments) { s.usize(1, 3) } else { 1 };
				let mut seen = vec![];
				for _ in 0..n {
					let (e, st, c) = rating(s);
					if !seen.contains(&e) {
						vals.push(ItemValue::Text(format!("{e}|{st}|{c}")));
						seen.push(e);
					}
				}
			},
			Kd::Single => vals.push(ItemValue::Text(value(s, ty))),
			Kd::Langs | Kd::Multi => {
				let n = if s.bool() { 1 } else { s.usize(2, 4) };
				// (the values of one item are of one kind)
				let urls = ty == TagType::Ape && n > 1 && s.chance(1, 10);
				for _ in 0..n {
					let v = value(s, ty);
					if urls {
						vals.push(ItemValue::Locator(v));
						continue;
					}
					vals.push(match s.below(12) {
						0 if ty == TagType::Ape && n == 1 => ItemValue::Binary({
							let n = s.size(600, &[0, 1]);
							s.blob(n)
						}),
						1 if ty == TagType::Ape && n == 1 => ItemValue::Locator(v),
						_ => ItemValue::Text(v),
					});
				}
			},
		}
		multi |= vals.len() > 1;
		let langs: Vec<([u8; 3], String)> = (0..2)
			.map(|_| {
				let l = *s.pick(&[*b"XXX", *b"eng", *b"deu"]);
				(l, if s.bool() { String::new() } else { lg::text(s, Cs::Any, false) })
			})
			.collect();
		for v in vals {
			let mut i = TagItem::new(k, v);
			if kd == Kd::Langs {
				let (l, d) = s.pick(&langs);
				i.set_lang(*l);
				i.set_description(d.clone());
			}
			items.push(i);
		}
	}
	// the values of different keys may be mixed, those of one key keep their order
	if s.chance(1, 3) {
		let mut keys: Vec<ItemKey> = vec![];
		for i in &items {
			if !keys.contains(&i.key()) {
				keys.push(i.key());
			}
		}
		let mut out = vec![];
		while !items.is_empty() {
			let k = *s.pick(&keys);
			match items.iter().position(|i| i.key() == k) {
				Some(p) => out.push(items.remove(p)),
				None => keys.retain(|x| *x != k),
			}
		}
		items = out;
	}
	for i in items {
		tag.push_unchecked(i);
	}
	let mut want = Groups::new();
	for i in tag.items() {
		if !supported(ty, i.key()) {
			continue;
		}
		let mut v = text_of(i.value());
		if i.key() == ItemKey::Popularimeter {
			let ItemValue::Text(t) = i.value() else { unreachable!() };
			let p: Vec<&str> = t.rsplitn(3, '|').collect();
			v = match ty {
				TagType::VorbisComments => format!("{:?}", format!("{}|{}|0", p[2], p[1])),
				TagType::RiffInfo if p[2].is_empty() => format!("{:?}", format!("|{}|0", p[1])),
				_ => v,
			};
		}
		want.entry(group(ty, i)).or_default().push(v);
	}
	let mut pics = vec![];
	if !matches!(ty, TagType::Id3v1 | TagType::RiffInfo | TagType::AiffText) && s.chance(1, 3) {
		for _ in 0..s.usize(1, 3) {
			let p = match ty {
				TagType::Mp4Ilst => roundtrip::ilst_picture(s),
				TagType::VorbisComments if s.chance(1, 4) => lg::raw_picture(s, Cs::Any),
				_ => lg::picture(s, Cs::Any).pic,
			};
			if pics.iter().all(|o: &Picture| o.pic_type() != p.pic_type()) || matches!(ty, TagType::Mp4Ilst | TagType::VorbisComments) {
				tag.push_picture(p.clone());
				pics.push(p);
			}
		}
	}
	Gen { tag, want, pics, dropped, multi }
}

fn pic_canon(ty: TagType, p: &Picture) -> String {
	if ty == TagType::Mp4Ilst {
		format!("{:?} {}", p.mime_type().map(MimeType::as_str), lg::c_bytes(p.data()))
	} else {
		lg::c_pic(p)
	}
}

fn cut(v: &impl std::fmt::Debug) -> String {
	let s = format!("{v:?}");
	let t: String = s.chars().take(400).collect();
	t
}

fn compare(what: &str, ty: TagType, want: &Groups, pics: &[Picture], got: &Tag) -> R {
	let mut g = groups(got);
	for (k, w) in want {
		let Some(v) = g.remove(k) else {
			return fail(
				format!("{ty:?}: {} lost by {what}", k.split(' ').next().unwrap()),
				format!("item {k} = {} is gone | others: {}", cut(w), cut(&g)),
			);
		};
		let n = k.split(' ').next().unwrap();
		ensure!(v.len() >= w.len(), format!("{ty:?}: a value of {n} lost by {what}"), "{k}: had {} | has {}", cut(w), cut(&v));
		ensure!(v == *w, format!("{ty:?}: {n} changed by {what}"), "{k}: had {} | has {}", cut(w), cut(&v));
	}
	// a total alone brings the number along
	g.retain(|k, v| !(k.ends_with("Number") && *v == ["\"0\""]));
	if ty == TagType::VorbisComments {
		g.remove("EncoderSoftware");
	}
	if let Some((k, v)) = g.iter().next() {
		return fail(format!("{ty:?}: {} appeared in {what}", k.split(' ').next().unwrap()), format!("{k} = {} was not in the tag", cut(v)));
	}
	if ty == TagType::Ape {
		// keyed by their type; the kind of image is told by the data
		let show = |p: &Picture| format!("{:?} {:?} {}", p.pic_type(), p.description().unwrap_or_default(), lg::c_bytes(p.data()));
		let mut w: Vec<String> = pics.iter().filter(|p| p.pic_type().as_ape_key().is_some() && known_image(p.data())).map(show).collect();
		let mut v: Vec<String> = got.pictures().iter().map(show).collect();
		w.sort();
		v.sort();
		ensure!(w == v, format!("{ty:?}: pictures changed by {what}"), "had {} | has {}", cut(&w), cut(&v));
		for p in got.pictures() {
			let m = p.mime_type();
			let d = p.data();
			let ok = match m {
				Some(MimeType::Png) => d[0] == 0x89,
				Some(MimeType::Jpeg) => d[0] == 0xFF,
				Some(MimeType::Gif) => d[0] == b'G',
				Some(MimeType::Bmp) => d[0] == b'B',
				Some(MimeType::Tiff) => d[0] == b'I' || d[0] == b'M',
				_ => false,
			};
			ensure!(ok, format!("{ty:?}: kind of a picture in {what}"), "{m:?} for {:02x?}", &d[..8]);
		}
		return Ok(());
	}
	let w: Vec<String> = pics.iter().map(|p| pic_canon(ty, p)).collect();
	let v: Vec<String> = got.pictures().iter().map(|p| pic_canon(ty, p)).collect();
	ensure!(w == v, format!("{ty:?}: pictures changed by {what}"), "had {} | has {}", cut(&w), cut(&v));
	Ok(())
}

/// an image whose kind can be told
pub fn known_image(d: &[u8]) -> bool {
	d.len() >= 8
		&& (d.starts_with(b"\x89PNG\r\n\x1a\n")
			|| d.starts_with(&[0xFF, 0xD8])
			|| d.starts_with(b"GIF87a")
			|| d.starts_with(b"GIF89a")
			|| d.starts_with(b"BM")
			|| d.starts_with(b"II*\0")
			|| d.starts_with(b"MM\0*"))
}

fn ape_pictures(what: &str, pics: &[Picture], t: &ApeTag) -> R {
	for p in pics {
		if p.pic_type() == PictureType::Undefined(0) {
			continue;
		}
		let pt = p.pic_type();
		let Some(key) = pt.as_ape_key() else { continue };
		match t.get(key).map(ApeItem::value) {
			Some(ItemValue::Binary(b)) if *b == p.as_ape_bytes() => {},
			o => return fail(format!("Ape: pictures changed by {what}"), format!("{key}: expected {} has {}", lg::c_pic(p), cut(&o))),
		}
	}
	Ok(())
}

fn c19_items(c: &mut Case) -> R {
	let ty = *c.src.pick(&lg::ALL_TYPES);
	let g = gen_items(&mut c.src, ty);
	c.class(super::model::lg_name(ty));
	c.note(|| format!("{ty:?} {:?}", lg::c_tag(&g.tag)).chars().take(700).collect());
	if g.want.is_empty() && g.pics.is_empty() {
		return Ok(());
	}
	if g.multi || g.dropped > 0 || g.want.len() > 1 {
		c.nontrivial();
	}
	let n = guard(|| NTag::from_generic(g.tag.clone()))?;
	if let NTag::Ape(t) = &n {
		ape_pictures("conversion", &g.pics, t)?;
	}
	let back = guard(|| n.generic())?;
	ensure!(back.tag_type() == ty, "the type changed", "{ty:?} became {:?}", back.tag_type());
	compare("conversion", ty, &g.want, &g.pics, &back)
}

// ------------------------------------------------------------------ native tags

/// (remainder as a tag, generic part, merged again)
fn split_merge(t: NTag) -> (Option<NTag>, Tag, NTag) {
	macro_rules! with {
		($t:expr, $v:ident) => {{
			let (r, g) = $t.split_tag();
			let rem = Some(NTag::$v(r.clone().into()));
			let m = r.merge_tag(g.clone());
			(rem, g, NTag::$v(m))
		}};
		($t:expr, $v:ident, bare) => {{
			let (r, g) = $t.split_tag();
			let m = r.merge_tag(g.clone());
			(None, g, NTag::$v(m))
		}};
	}
	match t {
		NTag::Id3v2(t) => with!(t, Id3v2),
		NTag::Ape(t) => with!(t, Ape),
		NTag::Vorbis(t) => with!(t, Vorbis),
		NTag::Ilst(t) => with!(t, Ilst),
		NTag::Id3v1(t) => with!(t, Id3v1, bare),
		NTag::Riff(t) => with!(t, Riff, bare),
		NTag::Aiff(t) => with!(t, Aiff, bare),
	}
}

fn af_fact(f: &Frame<'_>) -> String {
	let mut a = id3::af_of(f);
	if let id3::Af::Pairs { pairs, .. } = &mut a {
		pairs.sort();
	}
	format!("{} {}", a.brief(), crate::engine::fnv(format!("{a:?}").as_bytes()))
}

/// What a native tag says, regardless of the order of its entries and of how it is spelled.
fn facts(t: &NTag) -> Vec<String> {
	let mut v = match t {
		NTag::Id3v2(t) => t.into_iter().map(af_fact).collect(),
		NTag::Ape(t) => (&mut t.clone().into_iter())
			.map(|i| format!("{} {} {:?}", i.key().to_ascii_lowercase(), i.read_only, i.value()))
			.collect(),
		NTag::Vorbis(t) => {
			let mut v: Vec<String> = t.items().map(|(k, x)| format!("{}={x}", k.to_ascii_uppercase())).collect();
			v.push(format!("vendor={}", t.vendor()));
			v.extend(t.pictures().iter().map(|(p, i)| format!("{} {i:?}", lg::c_pic(p))));
			v
		},
		NTag::Ilst(t) => {
			let mut v = vec![];
			for a in t {
				for d in a.data() {
					let d = match d {
						AtomData::UTF8(x) | AtomData::UTF16(x) => format!("text {x:?}"),
						AtomData::Picture(p) => lg::c_pic(p),
						AtomData::Unknown { code: DataType::Reserved, data }
							if matches!(a.ident(), AtomIdent::Fourcc(f) if f == b"trkn" || f == b"disk") && data.len() >= 6 =>
						{
							format!("pair {:?}", &data[2..6])
						},
						x => format!("{x:?}"),
					};
					v.push(format!("{:?} {d}", a.ident()));
				}
			}
			v
		},
		NTag::Riff(t) => t.into_iter().map(|(k, v)| format!("{k}={v:?}")).collect(),
		NTag::Aiff(t) => {
			let mut v = vec![format!("{:?} {:?} {:?}", t.name, t.author, t.copyright)];
			v.extend(t.annotations.iter().flatten().map(|x| format!("note {x:?}")));
			v.extend(t.comments.iter().flatten().map(|x| format!("note {:?}", x.text)));
			v
		},
		NTag::Id3v1(t) => vec![format!("{t:?}")],
	};
	v.sort();
	v
}

fn canonical_name(ty: TagType, n: &str) -> bool {
	match ItemKey::from_key(ty, n) {
		None => true,
		Some(k) => name_of(ty, k).is_some_and(|c| c.eq_ignore_ascii_case(n)),
	}
}

fn number_pair(s: &mut Src) -> String {
	let n = s.range(1, 999);
	if s.bool() { n.to_string() } else { format!("{n}/{}", s.range(1, 999)) }
}

fn rate(s: &mut Src, email: &str, ty: TagType) -> u8 {
	use lofty::tag::items::popularimeter::{MusicBeeProvider, PicardProvider, RatingProvider, StarRating::*};
	let st = *s.pick(&[One, Two, Three, Four, Five]);
	match email {
		"users@musicbrainz.org" => PicardProvider.rate(ty, st),
		"Windows Media Player 9 Series" => MusicBeeProvider.rate(TagType::Id3v2, st),
		_ => MusicBeeProvider.rate(ty, st),
	}
}

/// A native tag whose fields hold what they are meant to hold, and anything in fields without a generic counterpart.
fn not_a_date(t: &Timestamp) -> bool {
	t.year > 9999 || t.month.is_some_and(|m| !(1..=12).contains(&m)) || t.day.is_some_and(|d| !(1..=31).contains(&d)) || t.hour.is_some_and(|h| h > 23)
}

fn native(s: &mut Src, ty: TagType) -> NTag {
	match ty {
		TagType::Id3v2 => {
			let mut out = Id3v2Tag::new();
			let mut afs = id3::gen_afs(s, Cs::Any, 1, 10);
			if s.chance(1, 3) {
				let pairs = (0..s.usize(1, 5))
					.map(|_| ((*s.pick(&["producer", "engineer", "DJ-mix", "mix", "arranger", "chef", "Producer"])).to_string(), lg::short(s)))
					.collect();
				afs.retain(|a| a.id() != "TIPL");
				afs.push(id3::Af::Pairs { id: "TIPL".into(), pairs });
			}
			for mut a in afs {
				match &mut a {
					id3::Af::Text { id, vals } => match id.as_str() {
						"TRCK" | "TPOS" | "MVIN" => {
							*vals = vec![match s.below(5) {
								0 => (*s.pick(&["A1", "B2/9", "1/x", "/3", "1/2/3", "five", "-1", "99999999999"])).to_string(),
								_ => number_pair(s),
							}]
						},
						"TCON" => {
							for v in vals.iter_mut() {
								*v = lg::short(s);
							}
						},
						"TBPM" | "TLEN" => vals.truncate(1),
						"TCMP" | "PCST" => {
							*vals = vec![match s.below(4) {
								0 => (*s.pick(&["yes", "2", "TRUE", "no", "x"])).to_string(),
								_ => s.below(2).to_string(),
							}]
						},
						_ => {},
					},
					id3::Af::User { desc, vals } => {
						if s.chance(1, 3) {
							*desc = (*s.pick(&["BARCODE", "ARTISTS", "Acoustid Id", "MusicBrainz Album Id", "WORK", "COLOR", "REPLAYGAIN_TRACK_GAIN"])).to_string();
							if desc == "REPLAYGAIN_TRACK_GAIN" {
								vals.truncate(1);
							}
						} else if s.chance(1, 10) {
							*desc = "ITUNESADVISORY".into();
							*vals = vec![(*s.pick(&["0", "1", "2", "3", "300", "explicit", "clean"])).to_string()];
						} else if s.chance(1, 4) {
							// the name of a frame is a description like any other
							*desc = (*s.pick(&["TIT2", "TALB", "TPE1", "WOAR", "TRCK", "COMM", "TXXX"])).to_string();
						} else if desc.len() != 4 && ItemKey::from_key(TagType::Id3v2, desc).is_some() {
							continue;
						}
					},
					id3::Af::UserUrl { desc, .. } => {
						if s.chance(1, 4) {
							*desc = (*s.pick(&["WOAR", "WCOM", "TIT2", "WXXX", "WORK"])).to_string();
						} else if desc.len() != 4 && ItemKey::from_key(TagType::Id3v2, desc).is_some() {
							continue;
						}
					},
					id3::Af::Lang { text, .. } if s.chance(1, 3) => *text = format!("{text}\0{}", lg::short(s)),
					id3::Af::Popm { email, rating, .. } => {
						if s.bool() {
							*email = self::rating(s).0;
						}
						*rating = rate(s, email, TagType::Id3v2);
					},
					id3::Af::Ufid { owner, data } if s.chance(1, 3) => {
						*owner = "http://musicbrainz.org".into();
						*data = lg::short(s).into_bytes();
						if s.chance(1, 3) {
							data.push(s.range(0xA1, 0xFE) as u8);
						}
					},
					_ => {},
				}
				out.insert(id3::to_frame(&a, TextEncoding::UTF8));
			}
			if s.chance(1, 8) {
				// a date that isn't one
				let mut t = super::model::stamp(s);
				match s.below(4) {
					0 => t.month = Some(*s.pick(&[0, 13, 99])),
					1 => {
						t.month = Some(2);
						t.day = Some(*s.pick(&[0, 32, 77]));
					},
					2 => t.year = *s.pick(&[10_000, u16::MAX]),
					_ => {
						(t.month, t.day) = (Some(1), Some(1));
						t.hour = Some(24);
					},
				}
				let id = *s.pick(&["TDRC", "TDRL", "TDOR", "TDEN", "TDTG"]);
				out.insert(Frame::Timestamp(TimestampFrame::new(FrameId::new(id).unwrap(), TextEncoding::UTF8, t)));
			}
			NTag::Id3v2(out)
		},
		TagType::Ape => {
			let t = roundtrip::ape_tag(s);
			let mut out = ApeTag::new();
			let mut it = t.into_iter();
			for mut i in &mut it {
				let key = i.key().to_string();
				match ItemKey::from_key(TagType::Ape, &key) {
					None => {},
					Some(_) if !canonical_name(TagType::Ape, &key) => continue,
					Some(k) => {
						i.read_only = false;
						match kind_of(TagType::Ape, k) {
							Kd::Number => {
								let p = match s.below(4) {
									_ if k == ItemKey::MovementNumber || k == ItemKey::MovementTotal => s.range(1, 99).to_string(),
									0 => (*s.pick(&["A1", "01", "1/?", "003/010"])).to_string(),
									_ => number_pair(s),
								};
								i = ApeItem::new(key, ItemValue::Text(p)).unwrap()
							},
							Kd::Flag => i = ApeItem::new(key, ItemValue::Text(s.below(2).to_string())).unwrap(),
							Kd::Multi if s.chance(1, 10) => {
								let urls: Vec<String> = (0..s.usize(1, 3)).map(|_| format!("http://{}/{}", lg::short(s), s.below(100))).collect();
								i = ApeItem::new(key, ItemValue::Locator(urls.join("\0"))).unwrap();
							},
							_ => {},
						}
					},
				}
				out.insert(i);
			}
			NTag::Ape(out)
		},
		TagType::VorbisComments => {
			let t = roundtrip::vc_tag(s);
			let mut out = lofty::ogg::tag::VorbisComments::new();
			out.set_vendor(t.vendor().to_string());
			for (k, v) in t.items() {
				// the software is the vendor
				if canonical_name(TagType::VorbisComments, k) && !k.eq_ignore_ascii_case("ENCODER") {
					out.push(k.to_string(), v.to_string());
				}
			}
			if s.chance(1, 4) {
				let (e, ..) = rating(s);
				let k = if e.is_empty() { "RATING".to_string() } else { format!("RATING:{e}") };
				let v = rate(s, &e, TagType::VorbisComments);
				out.push(k, v.to_string());
			}
			for (p, _) in t.pictures() {
				let i = PictureInformation::from_picture(p).unwrap_or_default();
				let _ = out.insert_picture(p.clone(), Some(i));
			}
			NTag::Vorbis(out)
		},
		TagType::Mp4Ilst => {
			let t = roundtrip::ilst_tag(s);
			let mut out = lofty::mp4::Ilst::new();
			for a in &t {
				let name = match a.ident() {
					AtomIdent::Fourcc(f) => f.iter().map(|b| char::from(*b)).collect::<String>(),
					AtomIdent::Freeform { mean, name } => format!("----:{mean}:{name}"),
				};
				match ItemKey::from_key(TagType::Mp4Ilst, &name) {
					Some(k) => {
						if !canonical_name(TagType::Mp4Ilst, &name) {
							continue;
						}
						let kd = kind_of(TagType::Mp4Ilst, k);
						if (name == "trkn" || name == "disk" || matches!(kd, Kd::Flag | Kd::Advisory)) && s.chance(1, 6) {
							// text where the format has none
							let v = (*s.pick(&["A1", "1/9", "yes", "explicit", "99", "x"])).to_string();
							out.replace_atom(lofty::mp4::Atom::new(a.ident().clone().into_owned(), AtomData::UTF8(if name == "trkn" || name == "disk" { "A1".into() } else { v })));
							continue;
						}
						match kd {
							Kd::Number if name == "trkn" || name == "disk" => {
								let d = vec![0, 0, s.u8(), s.range(1, 255) as u8, s.u8(), s.range(0, 255) as u8, 0, 0];
								out.replace_atom(lofty::mp4::Atom::new(a.ident().clone().into_owned(), AtomData::Unknown { code: DataType::Reserved, data: d }));
								continue;
							},
							Kd::Flag => {
								out.replace_atom(lofty::mp4::Atom::new(a.ident().clone().into_owned(), AtomData::Bool(s.bool())));
								continue;
							},
							Kd::Advisory => {
								let v = *s.pick(&[0, 1, 2, 77]);
								out.replace_atom(lofty::mp4::Atom::new(a.ident().clone().into_owned(), AtomData::SignedInteger(v)));
								continue;
							},
							_ if a.data().any(|d| matches!(d, AtomData::Bool(_))) => continue,
							_ => {},
						}
					},
					None => {},
				}
				out.insert(a.clone());
			}
			NTag::Ilst(out)
		},
		TagType::RiffInfo => {
			let mut t = lofty::iff::wav::RiffInfoList::new();
			for (k, v) in &roundtrip::riff_tag(s) {
				if canonical_name(TagType::RiffInfo, k) {
					let mut v = v.clone();
					if k == "IRTD" {
						v = rate(s, "", TagType::RiffInfo).to_string();
					}
					t.insert(k.clone(), v);
				}
			}
			NTag::Riff(t)
		},
		TagType::AiffText => NTag::Aiff(roundtrip::aiff_tag(s)),
		_ => NTag::Id3v1(roundtrip::v1_tag(s)),
	}
}

fn c19_native(c: &mut Case) -> R {
	let ty = *c.src.pick(&lg::ALL_TYPES);
	let t = native(&mut c.src, ty);
	c.class(super::model::lg_name(ty));
	c.note(|| t.describe());
	let (rem, g, m) = guard(|| split_merge(t.clone()))?;
	if g.item_count() > 1 {
		c.nontrivial();
	}
	if rem.as_ref().is_some_and(|r| !r.is_empty()) {
		c.class("with a remainder");
	}
	let (a, b) = (facts(&t), facts(&m));
	for x in &a {
		ensure!(b.contains(x), format!("{ty:?}: lost by split and merge: {}", head(ty, x)), "{} | merged: {}", cut(x), cut(&b));
	}
	for x in &b {
		ensure!(a.contains(x), format!("{ty:?}: added by split and merge: {}", head(ty, x)), "{} | before: {}", cut(x), cut(&a));
	}
	ensure!(a.len() == b.len(), format!("{ty:?}: entries duplicated or dropped by split and merge"), "{} | {}", cut(&a), cut(&b));
	Ok(())
}

fn head(ty: TagType, f: &str) -> String {
	if matches!(ty, TagType::RiffInfo | TagType::AiffText | TagType::Id3v1) {
		return "an entry".into();
	}
	f.split([' ', '=']).next().unwrap().chars().take(12).collect()
}

/// Splitting what was merged gives the same parts, for any tag whatsoever.
fn c19_again(c: &mut Case) -> R {
	let ty = *c.src.pick(&lg::ALL_TYPES);
	let s = &mut c.src;
	let t = match ty {
		TagType::Id3v2 => {
			let mut out = Id3v2Tag::new();
			for a in id3::gen_afs(s, Cs::Any, 1, 10) {
				let e = *s.pick(&[TextEncoding::UTF8, TextEncoding::UTF16, TextEncoding::UTF16BE]);
				out.insert(id3::to_frame(&a, e));
			}
			NTag::Id3v2(out)
		},
		TagType::Ape => NTag::Ape(roundtrip::ape_tag(s)),
		TagType::VorbisComments => NTag::Vorbis(roundtrip::vc_tag(s)),
		TagType::Mp4Ilst => NTag::Ilst(roundtrip::ilst_tag(s)),
		TagType::RiffInfo => NTag::Riff(roundtrip::riff_tag(s)),
		TagType::AiffText => NTag::Aiff(roundtrip::aiff_tag(s)),
		_ => NTag::Id3v1(roundtrip::v1_tag(s)),
	};
	c.class(super::model::lg_name(ty));
	c.note(|| t.describe());
	let (_, g1, m) = guard(|| split_merge(t.clone()))?;
	if g1.item_count() > 1 {
		c.nontrivial();
	}
	let (r2, g2, m2) = guard(|| split_merge(m.clone()))?;
	let _ = r2;
	let (a, b) = (facts(&m), facts(&m2));
	ensure!(a == b, format!("{ty:?}: merging again changes the tag"), "{} | {}", cut(&a), cut(&b));
	let p = |t: &Tag| t.pictures().iter().map(|p| pic_canon(ty, p)).collect::<Vec<_>>();
	ensure!(p(&g1) == p(&g2), format!("{ty:?}: pictures change when split again"), "{} | {}", cut(&p(&g1)), cut(&p(&g2)));
	Ok(())
}

// ------------------------------------------------------------------ C20

fn convert_saved(c: &mut Case, k: Kind, t: &Tag, o: WriteOptions, data: &[u8]) -> Result<Vec<u8>, Fail> {
	let n = guard(|| NTag::from_generic(t.clone()))?;
	roundtrip::save(c, k, &n, o, data.to_vec())
}

fn direct_saved(c: &mut Case, k: Kind, t: &Tag, o: WriteOptions, data: &[u8]) -> Result<Vec<u8>, Fail> {
	let mut f = Mem::new(data.to_vec());
	let ty = t.tag_type();
	match guard(|| t.save_to(&mut f, o)) {
		Err(p) => fail(format!("generic {ty:?} in {}: {}", k.name(), p.sig), p.msg),
		Ok(Err(e)) => fail(format!("generic {ty:?} in {} refused: {}", k.name(), esig(&e)), format!("a valid tag could not be saved: {e} ({e:?})")),
		Ok(Ok(())) => {
			c.class(k.name());
			Ok(f.data)
		},
	}
}

fn options(s: &mut Src, v23: bool) -> WriteOptions {
	let mut o = lg::write_options(s);
	if v23 {
		o.use_id3v23(true);
	}
	o
}

fn c20_save(c: &mut Case) -> R {
	let k = *c.src.pick(&fmt::ALL_KINDS);
	let ty = *c.src.pick(lg::writable(k));
	let mut g = gen_items(&mut c.src, ty);
	let v23 = ty == TagType::Id3v2 && c.src.chance(1, 4);
	let o = options(&mut c.src, v23);
	let data = fmt::gen_plain(&mut c.src, k);
	c.note(|| format!("{} {ty:?} {o:?} {:?}", k.name(), lg::c_tag(&g.tag)).chars().take(700).collect());
	if g.want.is_empty() && g.pics.is_empty() {
		return Ok(());
	}
	if g.multi || g.dropped > 0 || g.want.len() > 1 {
		c.nontrivial();
	}
	// only the stars of a rating are saved
	let named = ty == TagType::RiffInfo && g.tag.ratings().any(|r| r.email().is_some());
	if named && let Some(r) = g.tag.ratings().next() {
		g.want.insert("Popularimeter".into(), vec![format!("{:?}", format!("|{}|0", r.rating() as u8))]);
	}
	let a = direct_saved(c, k, &g.tag, o, &data)?;
	let n = roundtrip::read(k, &a, ParseOptions::new())?;
	if !v23 {
		// the pictures of FLAC are not part of the tag
		let mut flac_pics: Vec<String> = vec![];
		if k == Kind::Flac {
			flac_pics = n.extra.clone();
			let w: Vec<String> = g
				.pics
				.iter()
				.map(|p| format!("{} {:?}", lg::c_pic(p), PictureInformation::from_picture(p).unwrap_or_default()))
				.collect();
			ensure!(w == flac_pics, "VorbisComments: pictures changed by saving", "had {} | has {}", cut(&w), cut(&flac_pics));
			g.pics.clear();
		}
		if g.want.is_empty() && !flac_pics.is_empty() {
			return Ok(());
		}
		let Some(t) = n.get(ty) else {
			return fail(format!("{ty:?}: no tag in the saved file"), format!("wrote {} groups", g.want.len()));
		};
		if let NTag::Ape(t) = &t {
			ape_pictures("saving", &g.pics, t)?;
		}
		compare("saving", ty, &g.want, &g.pics, &guard(|| t.generic())?)?;
	}
	let b = convert_saved(c, k, &g.tag, o, &data)?;
	ensure!(
		named || a == b,
		format!("{ty:?}: saving differs from converting and saving"),
		"{} vs {} bytes, first difference at {:?}",
		a.len(),
		b.len(),
		first_diff(&a, &b)
	);
	Ok(())
}

/// A tag read from a file, seen as a generic tag and saved, is still the same tag.
fn c20_companion(c: &mut Case) -> R {
	let k = *c.src.pick(&fmt::ALL_KINDS);
	let ty = *c.src.pick(lg::writable(k));
	let t = native(&mut c.src, ty);
	let t = match t {
		// (dates that aren't dates cannot be written)
		NTag::Id3v2(mut x) => {
			x.retain(|f| !matches!(f, Frame::Timestamp(t) if not_a_date(&t.timestamp)));
			NTag::Id3v2(x)
		},
		t => t,
	};
	let o = options(&mut c.src, false);
	let data = fmt::gen_plain(&mut c.src, k);
	c.note(|| format!("{} {o:?} {}", k.name(), t.describe()));
	if t.is_empty() {
		return Ok(());
	}
	let g = guard(|| t.generic())?;
	if g.is_empty() {
		return Ok(());
	}
	if matches!(ty, TagType::Id3v2 | TagType::Mp4Ilst) {
		c.nontrivial();
	}
	let a = direct_saved(c, k, &g, o, &data)?;
	let b = convert_saved(c, k, &g, o, &data)?;
	if !(ty == TagType::VorbisComments && g.items().any(|i| i.key() == ItemKey::EncoderSoftware)) {
		ensure!(
			a == b,
			format!("{ty:?}: saving differs from converting and saving"),
			"{} vs {} bytes, first difference at {:?}",
			a.len(),
			b.len(),
			first_diff(&a, &b)
		);
	}
	let n = roundtrip::read(k, &b, ParseOptions::new())?;
	let got = n.get(ty);
	if let (NTag::Id3v2(_) | NTag::Ilst(_), Some(m)) = (&t, &got) {
		// compared with what the tag itself becomes when saved
		let direct = roundtrip::save(c, k, &t, o, data.clone())?;
		let want = roundtrip::read(k, &direct, ParseOptions::new())?;
		let w = want.get(ty).map(facts).unwrap_or_default();
		let v = facts(m);
		for x in &w {
			ensure!(v.contains(x), format!("{ty:?}: lost by saving as a generic tag: {}", head(ty, x)), "{} | saved: {}", cut(x), cut(&v));
		}
		ensure!(w.len() == v.len(), format!("{ty:?}: entries added by saving as a generic tag"), "{} | {}", cut(&w), cut(&v));
	}
	Ok(())
}

pub fn props() -> Vec<Property> {
	vec![
		Property {
			id: "C19",
			rule: "several items, several values of one key, or items the format cannot hold",
			assumptions: &[
				"numbers, dates, flags and ratings are well formed; keys that share a native field come back as the key of that field",
				"the encoder of Vorbis comments is the vendor string and compared only by split and merge",
				"text encodings and frame flags of converted ID3v2 frames are not part of the generic tag",
				"time stamps of AIFF comments are not part of the generic tag",
			],
			suites: vec![
				suite!("items", 200_000, 1_500_000, c19_items),
				suite!("native", 200_000, 1_500_000, c19_native),
				suite!("again", 100_000, 1_500_000, c19_again),
			],
		},
		Property {
			id: "C20",
			rule: "several items, several values of one key, items the format cannot hold, or format specific items",
			assumptions: &["as C19", "ID3v2.3 files are only compared between the two ways of writing"],
			suites: vec![
				suite!("save", 100_000, 500_000, c20_save),
				suite!("companion", 50_000, 250_000, c20_companion),
			],
		},
	]
}
