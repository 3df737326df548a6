//! Generators of tags, pictures and text for the library under test, and canonical forms.

use crate::engine::Src;
use crate::fmt::Kind;
use crate::util::Mem;
use lofty::ape::{ApeItem, ApeTag};
use lofty::config::WriteOptions;
use lofty::error::FileEncodingError;
use lofty::id3::v1::Id3v1Tag;
use lofty::id3::v2::*;
use lofty::iff::aiff::{AiffTextChunks, Comment};
use lofty::iff::wav::RiffInfoList;
use lofty::mp4::{Atom, AtomData, AtomIdent, Ilst};
use lofty::ogg::OggPictureStorage;
use lofty::ogg::tag::VorbisComments;
use lofty::picture::{MimeType, Picture, PictureInformation, PictureType};
use lofty::tag::{ItemKey, ItemValue, Tag, TagExt, TagItem, TagType};
use lofty::TextEncoding;
use std::borrow::Cow;

pub const ALL_KEYS: &[ItemKey] = &[ItemKey::AlbumTitle,ItemKey::SetSubtitle,ItemKey::ShowName,ItemKey::ContentGroup,ItemKey::TrackTitle,ItemKey::TrackSubtitle,ItemKey::OriginalAlbumTitle,ItemKey::OriginalArtist,ItemKey::OriginalLyricist,ItemKey::AlbumTitleSortOrder,ItemKey::AlbumArtistSortOrder,ItemKey::TrackTitleSortOrder,ItemKey::TrackArtistSortOrder,ItemKey::ShowNameSortOrder,ItemKey::ComposerSortOrder,ItemKey::AlbumArtist,ItemKey::AlbumArtists,ItemKey::TrackArtist,ItemKey::TrackArtists,ItemKey::Arranger,ItemKey::Writer,ItemKey::Composer,ItemKey::Conductor,ItemKey::Director,ItemKey::Engineer,ItemKey::Lyricist,ItemKey::MixDj,ItemKey::MixEngineer,ItemKey::Performer,ItemKey::Producer,ItemKey::Publisher,ItemKey::Label,ItemKey::InternetRadioStationName,ItemKey::InternetRadioStationOwner,ItemKey::Remixer,ItemKey::DiscNumber,ItemKey::DiscTotal,ItemKey::TrackNumber,ItemKey::TrackTotal,ItemKey::Popularimeter,ItemKey::ParentalAdvisory,ItemKey::RecordingDate,ItemKey::Year,ItemKey::ReleaseDate,ItemKey::OriginalReleaseDate,ItemKey::Isrc,ItemKey::Barcode,ItemKey::AcoustId,ItemKey::AcoustIdFingerprint,ItemKey::CatalogNumber,ItemKey::Work,ItemKey::Movement,ItemKey::MovementNumber,ItemKey::MovementTotal,ItemKey::ReleaseCountry,ItemKey::MusicBrainzRecordingId,ItemKey::MusicBrainzTrackId,ItemKey::MusicBrainzReleaseId,ItemKey::MusicBrainzReleaseGroupId,ItemKey::MusicBrainzArtistId,ItemKey::MusicBrainzReleaseArtistId,ItemKey::MusicBrainzWorkId,ItemKey::MusicBrainzReleaseType,ItemKey::FlagCompilation,ItemKey::FlagPodcast,ItemKey::FileOwner,ItemKey::TaggingTime,ItemKey::Length,ItemKey::OriginalFileName,ItemKey::OriginalMediaType,ItemKey::EncodedBy,ItemKey::EncoderSoftware,ItemKey::EncoderSettings,ItemKey::EncodingTime,ItemKey::ReplayGainAlbumGain,ItemKey::ReplayGainAlbumPeak,ItemKey::ReplayGainTrackGain,ItemKey::ReplayGainTrackPeak,ItemKey::R128TrackGain,ItemKey::R128AlbumGain,ItemKey::AudioFileUrl,ItemKey::AudioSourceUrl,ItemKey::CommercialInformationUrl,ItemKey::CopyrightUrl,ItemKey::TrackArtistUrl,ItemKey::RadioStationUrl,ItemKey::PaymentUrl,ItemKey::PublisherUrl,ItemKey::Genre,ItemKey::InitialKey,ItemKey::Color,ItemKey::Mood,ItemKey::Bpm,ItemKey::IntegerBpm,ItemKey::CopyrightMessage,ItemKey::License,ItemKey::PodcastDescription,ItemKey::PodcastSeriesCategory,ItemKey::PodcastUrl,ItemKey::PodcastGlobalUniqueId,ItemKey::PodcastKeywords,ItemKey::Comment,ItemKey::Description,ItemKey::Language,ItemKey::Script,ItemKey::Lyrics,ItemKey::UnsyncLyrics,ItemKey::AppleXid,ItemKey::AppleId3v2ContentGroup];

pub const ALL_TYPES: [TagType; 7] = [
	TagType::Id3v2,
	TagType::Id3v1,
	TagType::Ape,
	TagType::VorbisComments,
	TagType::Mp4Ilst,
	TagType::RiffInfo,
	TagType::AiffText,
];

/// Tag types that can be written to the kind.
pub fn writable(k: Kind) -> &'static [TagType] {
	match k {
		Kind::Aac => &[TagType::Id3v2, TagType::Id3v1],
		Kind::Ape | Kind::WavPack => &[TagType::Ape, TagType::Id3v1],
		Kind::Aiff => &[TagType::Id3v2, TagType::AiffText],
		Kind::Flac | Kind::Opus | Kind::Vorbis | Kind::Speex => &[TagType::VorbisComments],
		Kind::Mp3 => &[TagType::Id3v2, TagType::Id3v1, TagType::Ape],
		Kind::Mp4 => &[TagType::Mp4Ilst],
		Kind::Mpc => &[TagType::Ape],
		Kind::Wav => &[TagType::Id3v2, TagType::RiffInfo],
	}
}

/// Tag types that may be present (and removed) but not written.
pub fn read_only(k: Kind) -> &'static [TagType] {
	match k {
		Kind::Ape | Kind::Flac => &[TagType::Id3v2],
		Kind::Mpc => &[TagType::Id3v2, TagType::Id3v1],
		_ => &[],
	}
}

// ------------------------------------------------------------ text

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cs {
	Ascii,
	Latin1,
	Any,
}

/// what readers look for: markers of tags, containers and frames (the latter as Latin-1 text)
const LOOKALIKES: &[&str] = &[
	"TAG", "TAG+", "ID3\u{4}", "3DI", "APETAGEX", "LYRICSBEGIN", "LYRICS200", "000012LYRICS200", "OggS", "OpusHead", "\u{3}vorbis", "fLaC", "MAC ",
	"MPCK", "MP+\u{7}", "wvpk", "RIFF", "LIST", "INFO", "data", "FORM", "ID3 ", "free", "moov", "udta", "meta", "ilst", "stco", "Xing", "Info", "VBRI", "AP", "SE",
	"\u{FF}\u{FB}\u{90}d", "\u{FF}\u{FA}\u{90}d", "\u{FF}\u{F3}\u{40}\u{C0}", "\u{FF}\u{F1}P@", "\u{FF}\u{F9}L\u{80}", "\u{FF}\u{E0}", "=", ";", "/", "://", "(17)", "1/2",
];

/// Text without NUL or byte order marks. Never empty unless `empty`.
pub fn text(s: &mut Src, cs: Cs, empty: bool) -> String {
	let n = if empty && s.chance(1, 8) { 0 } else { s.size(400, &[29, 30, 31, 127, 128, 255, 256]).max(1) };
	let style = s.below(4);
	let mut r = crate::engine::Rng::new(s.below(1 << 20));
	let mut out = String::new();
	for i in 0..n {
		let v = r.next();
		let c = match (cs, style) {
			(_, 0) => (b'a' + (i % 26) as u8) as char,
			(_, 1) | (Cs::Ascii, _) => (0x20 + (v % 95) as u8) as char,
			(Cs::Latin1, _) => char::from((0xA0 + (v % 96)) as u8),
			(Cs::Any, 2) => char::from_u32(0x80 + (v % 0x700) as u32).unwrap_or('x'),
			_ => match v % 6 {
				0 => '\u{1F3B5}',
				1 => '\u{10FFFD}',
				2 => '\u{FFFD}',
				3 => '\u{3042}',
				4 => '\u{FF}',
				_ => 'z',
			},
		};
		out.push(c);
	}
	// text that looks like the start or the end of something else is still text
	if s.chance(1, 14) {
		let m = *s.pick(LOOKALIKES);
		let m = if cs == Cs::Ascii && !m.is_ascii() { "TAG" } else { m };
		match s.below(4) {
			0 => out = m.to_string(),
			1 => out.insert_str(0, m),
			2 => out.push_str(m),
			_ => out = m.repeat(s.usize(1, 5)),
		}
	}
	// whitespace at the ends is legal text
	if s.chance(1, 10) {
		out.insert(0, ' ');
	}
	if s.chance(1, 10) {
		out.push(' ');
	}
	if s.chance(1, 20) {
		out.push_str("\r\nline");
	}
	out
}

pub fn short(s: &mut Src) -> String {
	let n = s.usize(1, 12);
	let k = s.below(1000);
	(0..n).map(|i| (b'a' + ((i as u64 + k) % 26) as u8) as char).collect()
}

// ------------------------------------------------------------ pictures

/// (type, mime, description, data) with image data whose own header states dimensions
pub struct Pic {
	pub pic: Picture,
	pub info: Option<[u32; 4]>,
}

pub fn png(w: u32, h: u32, depth: u8, ctype: u8, plte: Option<u32>, pre: usize) -> Vec<u8> {
	let mut v = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
	let mut chunk = |id: &[u8; 4], d: &[u8]| {
		v.extend((d.len() as u32).to_be_bytes());
		v.extend(id);
		v.extend(d);
		v.extend([1, 2, 3, 4]);
	};
	let mut ih = w.to_be_bytes().to_vec();
	ih.extend(h.to_be_bytes());
	ih.extend([depth, ctype, 0, 0, 0]);
	chunk(b"IHDR", &ih);
	if pre > 0 {
		chunk(b"tEXt", &vec![b'P'; pre]);
	}
	if let Some(n) = plte {
		chunk(b"PLTE", &vec![7; n as usize * 3]);
	}
	chunk(b"IDAT", &[0; 16]);
	chunk(b"IEND", &[]);
	v
}

pub fn jpeg(w: u16, h: u16, precision: u8, comps: u8, sof: u8, app: usize) -> Vec<u8> {
	let mut v = vec![0xFF, 0xD8];
	let mut seg = |m: u8, d: &[u8]| {
		v.extend([0xFF, m]);
		v.extend((d.len() as u16 + 2).to_be_bytes());
		v.extend(d);
	};
	seg(0xE0, b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0");
	if app > 0 {
		seg(0xE1, &vec![0xC0; app]);
	}
	seg(0xDB, &[0; 65]);
	let mut f = vec![precision];
	f.extend(h.to_be_bytes());
	f.extend(w.to_be_bytes());
	f.push(comps);
	for i in 0..comps {
		f.extend([i + 1, 0x11, 0]);
	}
	seg(sof, &f);
	seg(0xDA, &[1, 1, 0, 0, 63, 0]);
	v.extend([0x12, 0x34, 0xFF, 0xD9]);
	v
}

pub fn image(s: &mut Src) -> (Vec<u8>, MimeType, Option<[u32; 4]>) {
	match s.below(6) {
		0 | 1 => {
			let w = s.range(1, 5000) as u32;
			let h = s.range(1, 5000) as u32;
			let (ct, d) = *s.pick(&[(2u8, 8u8), (0, 1), (0, 16), (3, 8), (3, 2), (4, 8), (6, 8), (6, 16)]);
			let plte = if ct == 3 { Some(s.range(1, 256) as u32) } else { None };
			let pre = if s.chance(1, 3) { s.usize(1, 100) } else { 0 };
			let depth = u32::from(d)
				* match ct {
					2 => 3,
					4 => 2,
					6 => 4,
					_ => 1,
				};
			(png(w, h, d, ct, plte, pre), MimeType::Png, Some([w, h, depth, plte.unwrap_or(0)]))
		},
		2 => {
			let w = s.range(1, 65535) as u16;
			let h = s.range(1, 65535) as u16;
			let c = *s.pick(&[3u8, 1, 4]);
			let sof = *s.pick(&[0xC0u8, 0xC2, 0xC1]);
			let p = *s.pick(&[8u8, 12]);
			let app = if s.chance(1, 2) { s.size(3000, &[]) } else { 0 };
			(
				jpeg(w, h, p, c, sof, app),
				MimeType::Jpeg,
				Some([u32::from(w), u32::from(h), u32::from(p) * u32::from(c), 0]),
			)
		},
		3 => {
			let n = s.size(3000, &[]);
			let mut v = if s.bool() { b"GIF89a".to_vec() } else { b"GIF87a".to_vec() };
			v.extend([1, 0, 1, 0]);
			v.extend(s.blob(n));
			(v, MimeType::Gif, None)
		},
		4 => {
			let n = s.size(3000, &[]);
			let mut v = b"BM\x40\0\0\0\0\0\0\0".to_vec();
			v.extend(s.blob(n));
			(v, MimeType::Bmp, None)
		},
		_ => {
			let n = s.size(3000, &[]);
			let mut v = if s.bool() { b"II*\0\x08\0\0\0".to_vec() } else { b"MM\0*\0\0\0\x08".to_vec() };
			v.extend(s.blob(n));
			(v, MimeType::Tiff, None)
		},
	}
}

pub fn pic_type(s: &mut Src) -> PictureType {
	match s.below(4) {
		0 => PictureType::CoverFront,
		_ => PictureType::from_u8(s.below(21) as u8),
	}
}

pub fn picture(s: &mut Src, cs: Cs) -> Pic {
	let (data, mime, info) = image(s);
	let desc = if s.bool() { Some(text(s, cs, false)) } else { None };
	let mut b = Picture::unchecked(data).pic_type(pic_type(s)).mime_type(mime);
	if let Some(d) = desc {
		b = b.description(d);
	}
	Pic { pic: b.build(), info }
}

/// a picture of arbitrary bytes and MIME type
pub fn raw_picture(s: &mut Src, cs: Cs) -> Picture {
	let n = s.size(3000, &[0, 1, 8]);
	let mut b = Picture::unchecked(s.blob(n)).pic_type(pic_type(s));
	match s.below(4) {
		0 => {},
		1 => b = b.mime_type(MimeType::Unknown("image/webp".into())),
		2 => b = b.mime_type(MimeType::Png),
		_ => b = b.mime_type(MimeType::Jpeg),
	}
	if s.bool() {
		b = b.description(text(s, cs, false));
	}
	b.build()
}

// ------------------------------------------------------------ canonical forms

pub fn c_pic(p: &Picture) -> String {
	format!(
		"pic({:?},{:?},{:?},{}:{:016x})",
		p.pic_type(),
		p.mime_type().map(MimeType::as_str),
		p.description(),
		p.data().len(),
		crate::engine::fnv(p.data())
	)
}

pub fn c_bytes(b: &[u8]) -> String {
	if b.len() <= 40 { format!("{b:02x?}") } else { format!("{}:{:016x}", b.len(), crate::engine::fnv(b)) }
}

pub fn c_frame(f: &Frame<'_>) -> String {
	match f {
		Frame::RelativeVolumeAdjustment(r) => {
			let mut ch: Vec<_> = r.channels.values().map(|c| format!("{c:?}")).collect();
			ch.sort();
			format!("RVA2 {:?} {:?} flags={:?}", r.identification, ch, f.flags())
		},
		Frame::Picture(p) => format!("APIC {:?} {} flags={:?}", p.encoding, c_pic(&p.picture), f.flags()),
		Frame::Chapter(c) => format!(
			"CHAP {:?} {:?} {:?} [{}] flags={:?}",
			c.id,
			c.times,
			c.offsets,
			c.children.iter().map(c_frame).collect::<Vec<_>>().join("; "),
			f.flags()
		),
		Frame::TableOfContents(c) => format!(
			"CTOC {:?} {:?} {:?} [{}] flags={:?}",
			c.id,
			c.flags,
			c.entries,
			c.children.iter().map(c_frame).collect::<Vec<_>>().join("; "),
			f.flags()
		),
		Frame::Private(p) if p.private_data.len() > 4096 => {
			format!("PRIV {:?} {} flags={:?}", p.owner, c_bytes(&p.private_data), f.flags())
		},
		Frame::Binary(p) if p.data.len() > 4096 => format!("{:?} {} flags={:?}", f.id(), c_bytes(&p.data), f.flags()),
		_ => format!("{f:?}"),
	}
}

pub fn c_id3v2(t: &Id3v2Tag) -> Vec<String> {
	t.into_iter().map(c_frame).collect()
}

pub fn c_ape(t: &ApeTag) -> Vec<String> {
	(&mut t.clone().into_iter()).map(|i| format!("{i:?}")).collect()
}

pub fn c_vorbis(t: &VorbisComments) -> Vec<String> {
	let mut v: Vec<String> = t.items().map(|(k, x)| format!("{k}={x}")).collect();
	v.extend(t.pictures().iter().map(|(p, i)| format!("{} {i:?}", c_pic(p))));
	v
}

pub fn c_ilst(t: &Ilst) -> Vec<String> {
	t.into_iter()
		.map(|a| {
			format!(
				"{:?} [{}]",
				a.ident(),
				a.data()
					.map(|d| match d {
						AtomData::Picture(p) => c_pic(p),
						x => format!("{x:?}"),
					})
					.collect::<Vec<_>>()
					.join(", ")
			)
		})
		.collect()
}

pub fn c_riff(t: &RiffInfoList) -> Vec<String> {
	t.into_iter().map(|(k, v)| format!("{k}={v}")).collect()
}

pub fn c_item(i: &TagItem) -> String {
	let v = match i.value() {
		ItemValue::Text(t) => format!("T{t:?}"),
		ItemValue::Locator(t) => format!("L{t:?}"),
		ItemValue::Binary(b) => format!("B{}", c_bytes(b)),
	};
	format!("{:?}={v} lang={:?} desc={:?}", i.key(), i.lang(), i.description())
}

pub fn c_tag(t: &Tag) -> Vec<String> {
	let mut v: Vec<String> = t.items().map(c_item).collect();
	v.extend(t.pictures().iter().map(c_pic));
	v
}

// ------------------------------------------------------------ native tags

#[derive(Clone, Debug)]
pub enum NTag {
	Id3v2(Id3v2Tag),
	Id3v1(Id3v1Tag),
	Ape(ApeTag),
	Vorbis(VorbisComments),
	Ilst(Ilst),
	Riff(RiffInfoList),
	Aiff(AiffTextChunks),
}

macro_rules! each {
	($s:expr, $t:ident => $e:expr) => {
		match $s {
			NTag::Id3v2($t) => $e,
			NTag::Id3v1($t) => $e,
			NTag::Ape($t) => $e,
			NTag::Vorbis($t) => $e,
			NTag::Ilst($t) => $e,
			NTag::Riff($t) => $e,
			NTag::Aiff($t) => $e,
		}
	};
}

impl NTag {
	pub fn empty(ty: TagType) -> NTag {
		match ty {
			TagType::Id3v2 => NTag::Id3v2(Default::default()),
			TagType::Id3v1 => NTag::Id3v1(Default::default()),
			TagType::Ape => NTag::Ape(Default::default()),
			TagType::VorbisComments => NTag::Vorbis(Default::default()),
			TagType::Mp4Ilst => NTag::Ilst(Default::default()),
			TagType::RiffInfo => NTag::Riff(Default::default()),
			TagType::AiffText => NTag::Aiff(Default::default()),
			_ => unreachable!(),
		}
	}
	pub fn ty(&self) -> TagType {
		match self {
			NTag::Id3v2(_) => TagType::Id3v2,
			NTag::Id3v1(_) => TagType::Id3v1,
			NTag::Ape(_) => TagType::Ape,
			NTag::Vorbis(_) => TagType::VorbisComments,
			NTag::Ilst(_) => TagType::Mp4Ilst,
			NTag::Riff(_) => TagType::RiffInfo,
			NTag::Aiff(_) => TagType::AiffText,
		}
	}
	pub fn is_empty(&self) -> bool {
		each!(self, t => t.is_empty())
	}
	pub fn save(&self, f: &mut Mem, o: WriteOptions) -> Result<(), FileEncodingError> {
		each!(self, t => t.save_to(f, o))
	}
	pub fn dump<W: std::io::Write>(&self, w: &mut W, o: WriteOptions) -> Result<(), String> {
		each!(self, t => t.dump_to(w, o).map_err(|e| e.to_string()))
	}
	pub fn remove(&self, f: &mut Mem, o: WriteOptions) -> Result<(), FileEncodingError> {
		each!(self, t => t.remove_from(f, o))
	}
	pub fn save_file(&self, f: &mut std::fs::File, o: WriteOptions) -> Result<(), FileEncodingError> {
		each!(self, t => t.save_to(f, o))
	}
	pub fn save_path(&self, p: &std::path::Path, o: WriteOptions) -> Result<(), FileEncodingError> {
		each!(self, t => t.save_to_path(p, o))
	}
	pub fn remove_path(&self, p: &std::path::Path, o: WriteOptions) -> Result<(), FileEncodingError> {
		each!(self, t => t.remove_from_path(p, o))
	}
	pub fn generic(&self) -> Tag {
		each!(self.clone(), t => t.into())
	}
	pub fn from_generic(t: Tag) -> NTag {
		match t.tag_type() {
			TagType::Id3v2 => NTag::Id3v2(t.into()),
			TagType::Id3v1 => NTag::Id3v1(t.into()),
			TagType::Ape => NTag::Ape(t.into()),
			TagType::VorbisComments => NTag::Vorbis(t.into()),
			TagType::Mp4Ilst => NTag::Ilst(t.into()),
			TagType::RiffInfo => NTag::Riff(t.into()),
			TagType::AiffText => NTag::Aiff(t.into()),
			_ => unreachable!(),
		}
	}
	pub fn canon(&self) -> Vec<String> {
		match self {
			NTag::Id3v2(t) => c_id3v2(t),
			NTag::Id3v1(t) => vec![format!("{t:?}")],
			NTag::Ape(t) => c_ape(t),
			NTag::Vorbis(t) => c_vorbis(t),
			NTag::Ilst(t) => c_ilst(t),
			NTag::Riff(t) => c_riff(t),
			NTag::Aiff(t) => {
				let mut v = vec![];
				v.extend(t.name.iter().map(|x| format!("NAME {x:?}")));
				v.extend(t.author.iter().map(|x| format!("AUTH {x:?}")));
				v.extend(t.copyright.iter().map(|x| format!("(c) {x:?}")));
				v.extend(t.annotations.iter().flatten().map(|x| format!("ANNO {x:?}")));
				v.extend(t.comments.iter().flatten().map(|x| format!("COMT {x:?}")));
				v
			},
		}
	}
	pub fn describe(&self) -> String {
		let c = self.canon();
		let mut d = format!("{:?}[", self.ty());
		for i in c.iter().take(12) {
			let mut s: String = i.chars().take(120).collect();
			if s.len() < i.len() {
				s.push('~');
			}
			d.push_str(&s);
			d.push_str("; ");
		}
		d.push(']');
		d
	}
}

fn fid(id: &'static str) -> FrameId<'static> {
	FrameId::new(id).unwrap()
}

/// A tag whose content every version of the format can hold and that the library must reproduce exactly.
pub fn plain_native(s: &mut Src, ty: TagType) -> NTag {
	match ty {
		TagType::Id3v2 => {
			let mut t = Id3v2Tag::new();
			for _ in 0..s.usize(1, 5) {
				let f = match s.below(8) {
					0 => {
						let id = *s.pick(&["TIT2", "TPE1", "TALB", "TCOM", "TPUB", "TIT3", "TCOP"]);
						Frame::Text(TextInformationFrame::new(fid(id), TextEncoding::UTF8, text(s, Cs::Any, false)))
					},
					1 => Frame::UserText(ExtendedTextFrame::new(TextEncoding::UTF16, short(s), text(s, Cs::Any, false))),
					2 => Frame::Comment(CommentFrame::new(TextEncoding::UTF8, *b"eng", short(s), text(s, Cs::Any, false))),
					3 => Frame::Picture(AttachedPictureFrame::new(TextEncoding::UTF8, picture(s, Cs::Any).pic)),
					4 => {
						let n = s.size(5000, &[127, 128]).max(1);
						Frame::Private(PrivateFrame::new(short(s), s.blob(n)))
					},
					5 => Frame::UniqueFileIdentifier(UniqueFileIdentifierFrame::new(short(s), vec![1, 2, 3])),
					6 => Frame::Url(UrlLinkFrame::new(fid(*s.pick(&["WOAF", "WPUB", "WCOM"])), short(s))),
					_ => Frame::Popularimeter(PopularimeterFrame::new(short(s), s.u8(), s.below(1 << 32))),
				};
				t.insert(f);
			}
			NTag::Id3v2(t)
		},
		TagType::Id3v1 => {
			let mut t = Id3v1Tag::new();
			let f = |s: &mut Src| {
				let mut x = text(s, Cs::Ascii, false).replace(['\r', '\n'], "_");
				x.truncate(28);
				let x = x.trim().to_string();
				if x.is_empty() { None } else { Some(x) }
			};
			t.title = Some(short(s));
			if s.bool() {
				t.artist = f(s);
			}
			if s.bool() {
				t.album = f(s);
			}
			if s.bool() {
				t.comment = f(s);
			}
			if s.bool() {
				t.year = Some(s.range(1000, 9999) as u16);
			}
			if s.bool() {
				t.track_number = Some(s.range(1, 255) as u8);
			}
			if s.bool() {
				t.genre = Some(s.below(192) as u8);
			}
			NTag::Id3v1(t)
		},
		TagType::Ape => {
			let mut t = ApeTag::new();
			for i in 0..s.usize(1, 5) {
				let key = match s.below(3) {
					0 => (*s.pick(&["Title", "Artist", "Album", "Comment", "Genre"])).to_string(),
					_ => format!("key{i}{}", short(s)),
				};
				let v = match s.below(6) {
					0 => {
						let n = s.size(5000, &[]);
						ItemValue::Binary(s.blob(n))
					},
					1 => ItemValue::Locator(format!("http://{}", short(s))),
					_ => ItemValue::Text(text(s, Cs::Any, false)),
				};
				t.insert(ApeItem::new(key, v).unwrap());
			}
			NTag::Ape(t)
		},
		TagType::VorbisComments => {
			let mut t = VorbisComments::new();
			t.set_vendor("vendor".to_string());
			for i in 0..s.usize(1, 5) {
				let key = match s.below(3) {
					0 => (*s.pick(&["TITLE", "ARTIST", "ALBUM", "COMMENT"])).to_string(),
					_ => format!("KEY{i}{}", short(s).to_uppercase()),
				};
				t.push(key, text(s, Cs::Any, false));
			}
			let big = if s.chance(1, 6) { s.size(70000, &[65025]) } else { 0 };
			if big > 0 {
				t.push("BIG".into(), "b".repeat(big));
			}
			for _ in 0..[0u64, 0, 1, 2][s.below(4) as usize] {
				let p = picture(s, Cs::Any);
				let i = PictureInformation::from_picture(&p.pic).unwrap_or_default();
				let _ = t.insert_picture(p.pic, Some(i));
			}
			NTag::Vorbis(t)
		},
		TagType::Mp4Ilst => {
			let mut t = Ilst::new();
			for i in 0..s.usize(1, 5) {
				let id = match s.below(3) {
					0 => AtomIdent::Fourcc(**s.pick(&[b"\xA9nam", b"\xA9ART", b"\xA9alb", b"\xA9cmt"])),
					1 => AtomIdent::Fourcc(*b"trkn"),
					_ => AtomIdent::Freeform { mean: Cow::Owned("com.apple.iTunes".into()), name: Cow::Owned(format!("n{i}{}", short(s))) },
				};
				let d = if id == AtomIdent::Fourcc(*b"trkn") {
					AtomData::Unknown { code: lofty::mp4::DataType::Reserved, data: vec![0, 0, 0, s.u8(), 0, s.u8(), 0, 0] }
				} else {
					let mut x = text(s, Cs::Any, false);
					if s.chance(1, 6) {
						let n = s.size(5000, &[1024, 2048]);
						x.push_str(&"q".repeat(n));
					}
					AtomData::UTF8(x)
				};
				t.replace_atom(Atom::new(id, d));
			}
			if s.chance(1, 3) {
				let n = s.size(4000, &[]);
				let mut d = vec![0xFF, 0xD8, 0xFF, 0xE0];
				d.extend(s.blob(n));
				t.insert_picture(Picture::unchecked(d).mime_type(MimeType::Jpeg).build());
			}
			NTag::Ilst(t)
		},
		TagType::RiffInfo => {
			let mut t = RiffInfoList::new();
			for _ in 0..s.usize(1, 5) {
				let k = *s.pick(&["INAM", "IART", "IPRD", "ICMT", "IGNR", "ISFT", "IABC", "IX12"]);
				let x = text(s, Cs::Any, false);
				t.insert(k.to_string(), x);
			}
			NTag::Riff(t)
		},
		TagType::AiffText => {
			let mut t = AiffTextChunks::default();
			t.name = Some(text(s, Cs::Any, false));
			if s.bool() {
				t.author = Some(text(s, Cs::Any, false));
			}
			if s.bool() {
				t.copyright = Some(text(s, Cs::Any, false));
			}
			if s.bool() {
				t.annotations = Some((0..s.usize(1, 3)).map(|_| text(s, Cs::Any, false)).collect());
			}
			if s.bool() {
				t.comments = Some(
					(0..s.usize(1, 3))
						.map(|_| Comment { timestamp: s.u32(), marker_id: s.below(65536) as u16, text: text(s, Cs::Any, false) })
						.collect(),
				);
			}
			NTag::Aiff(t)
		},
		_ => unreachable!(),
	}
}

/// A generic tag of plain text items, valid for the tag type.
pub fn plain_generic(s: &mut Src, ty: TagType) -> Tag {
	let mut t = Tag::new(ty);
	for _ in 0..s.usize(1, 5) {
		let k = *s.pick(&[ItemKey::TrackTitle, ItemKey::TrackArtist, ItemKey::AlbumTitle, ItemKey::Comment, ItemKey::Genre]);
		let x = if ty == TagType::Id3v1 { short(s) } else { text(s, Cs::Any, false) };
		t.insert(TagItem::new(k, ItemValue::Text(x)));
	}
	if s.chance(1, 4) && !matches!(ty, TagType::RiffInfo | TagType::AiffText | TagType::Id3v1) {
		let n = s.size(4000, &[]);
		let mut d = vec![0xFF, 0xD8, 0xFF, 0xE0];
		d.extend(s.blob(n));
		t.push_picture(Picture::unchecked(d).pic_type(PictureType::CoverFront).mime_type(MimeType::Jpeg).build());
	}
	t
}

pub fn write_options(s: &mut Src) -> WriteOptions {
	let mut o = WriteOptions::default();
	match s.below(4) {
		0 => {},
		1 => o = o.preferred_padding(0),
		2 => o = o.preferred_padding(s.range(1, 40) as u32),
		_ => o = o.preferred_padding(s.range(1, 5000) as u32),
	}
	o
}
