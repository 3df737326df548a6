//! C40: the numbers of the formats and the names of the library.

use crate::engine::{Case, Property, R, Suite, fail, guard};
use crate::ensure;
use crate::fmt;
use lofty::TextEncoding;
use lofty::id3::v2::{ChannelType, EventType, FrameId, SyncTextContentType, TagRestrictions, TimestampFormat};
use lofty::mp4::{AdvisoryRating, AudioObjectType, DataType};
use lofty::musepack::sv7::{Link, Profile};
use lofty::picture::{MimeType, PictureType};

macro_rules! suite {
	($name:literal, $q:expr, $t:expr, $f:expr) => {
		Suite { name: $name, quick: $q, thorough: $t, run: $f }
	};
}

/// ID3v2.4 native frames, 4.5
fn event(n: u8) -> &'static str {
	const LOW: [&str; 0x17] = [
		"Padding",
		"EndOfInitialSilence",
		"IntroStart",
		"MainPartStart",
		"OutroStart",
		"OutroEnd",
		"VerseStart",
		"RefrainStart",
		"InterludeStart",
		"ThemeStart",
		"VariationStart",
		"KeyChange",
		"TimeChange",
		"MomentaryUnwantedNoise",
		"SustainedNoise",
		"SustainedNoiseEnd",
		"IntroEnd",
		"MainPartEnd",
		"VerseEnd",
		"RefrainEnd",
		"ThemeEnd",
		"Profanity",
		"ProfanityEnd",
	];
	const USER: [&str; 16] = [
		"NotPredefinedSynch0",
		"NotPredefinedSynch1",
		"NotPredefinedSynch2",
		"NotPredefinedSynch3",
		"NotPredefinedSynch4",
		"NotPredefinedSynch5",
		"NotPredefinedSynch6",
		"NotPredefinedSynch7",
		"NotPredefinedSynch8",
		"NotPredefinedSynch9",
		"NotPredefinedSynchA",
		"NotPredefinedSynchB",
		"NotPredefinedSynchC",
		"NotPredefinedSynchD",
		"NotPredefinedSynchE",
		"NotPredefinedSynchF",
	];
	match n {
		0..0x17 => LOW[n as usize],
		0xE0..=0xEF => USER[n as usize - 0xE0],
		0xFD => "AudioEnd",
		0xFE => "AudioFileEnds",
		_ => "Reserved",
	}
}

/// 4.9
const CONTENT: [&str; 9] = ["Other", "Lyrics", "TextTranscription", "PartName", "Events", "Chord", "Trivia", "WebpageURL", "ImageURL"];
/// 4.11
const CHANNEL: [&str; 9] =
	["Other", "MasterVolume", "FrontRight", "FrontLeft", "BackRight", "BackLeft", "FrontCentre", "BackCentre", "Subwoofer"];
const ENCODING: [&str; 4] = ["Latin1", "UTF16", "UTF16BE", "UTF8"];
/// 4.14
const PICTURE: [&str; 21] = [
	"Other",
	"Icon",
	"OtherIcon",
	"CoverFront",
	"CoverBack",
	"Leaflet",
	"Media",
	"LeadArtist",
	"Artist",
	"Conductor",
	"Band",
	"Composer",
	"Lyricist",
	"RecordingLocation",
	"DuringRecording",
	"DuringPerformance",
	"ScreenCapture",
	"BrightFish",
	"Illustration",
	"BandLogo",
	"PublisherLogo",
];
/// QuickTime File Format, Well-Known Types
const DATA: [(u32, &str); 27] = [
	(0, "Reserved"),
	(1, "Utf8"),
	(2, "Utf16"),
	(3, "SJis"),
	(4, "Utf8Sort"),
	(5, "Utf16Sort"),
	(12, "Gif"),
	(13, "Jpeg"),
	(14, "Png"),
	(21, "BeSignedInteger"),
	(22, "BeUnsignedInteger"),
	(23, "BeFloat32"),
	(24, "BeFloat64"),
	(27, "Bmp"),
	(28, "QuicktimeMetadata"),
	(65, "Signed8BitInteger"),
	(66, "Be16BitSignedInteger"),
	(67, "Be32BitSignedInteger"),
	(70, "BePointF32"),
	(71, "BeDimensionsF32"),
	(72, "BeRectF32"),
	(74, "Be64BitSignedInteger"),
	(75, "Unsigned8BitInteger"),
	(76, "Be16BitUnsignedInteger"),
	(77, "Be32BitUnsignedInteger"),
	(78, "Be64BitUnsignedInteger"),
	(79, "AffineTransformF64"),
];
const PROFILE: [&str; 16] = [
	"None",
	"Unstable",
	"Unused",
	"Unused",
	"Unused",
	"BelowTelephone0",
	"BelowTelephone1",
	"Telephone",
	"Thumb",
	"Radio",
	"Standard",
	"Xtreme",
	"Insane",
	"BrainDead",
	"AboveBrainDead9",
	"AboveBrainDead10",
];
const LINK: [&str; 4] = ["VeryLowStartOrEnd", "LoudEnd", "LoudStart", "LoudStartAndEnd"];

fn known(what: &str, n: u8, got: Option<String>, want: Option<&str>) -> R {
	ensure!(got.as_deref() == want, format!("{what} {n}"), "{what} {n} is {got:?}, expected {want:?}");
	Ok(())
}

fn numbers(c: &mut Case) -> R {
	let n = c.src.u8();
	c.note(|| format!("number {n}"));
	let i = usize::from(n);
	guard(|| {
		known("event type", n, Some(format!("{:?}", EventType::from_u8(n))), Some(event(n)))?;
		if event(n) != "Reserved" {
			ensure!(EventType::from_u8(n) as u8 == n, "event type back", "{:?} is {} instead of {n}", EventType::from_u8(n), EventType::from_u8(n) as u8);
		}
		known("content type", n, SyncTextContentType::try_from(n).ok().map(|x| format!("{x:?}")), CONTENT.get(i).copied())?;
		known("channel type", n, ChannelType::try_from(n).ok().map(|x| format!("{x:?}")), CHANNEL.get(i).copied())?;
		known("timestamp format", n, TimestampFormat::try_from(n).ok().map(|x| format!("{x:?}")), ["", "MPEG", "MS"].get(i).copied().filter(|_| n > 0))?;
		known("text encoding", n, TextEncoding::try_from(n).ok().map(|x| format!("{x:?}")), ENCODING.get(i).copied())?;
		if let Ok(x) = SyncTextContentType::try_from(n) {
			ensure!(x as u8 == n, "content type back", "{x:?} is {}", x as u8);
		}
		if let Ok(x) = ChannelType::try_from(n) {
			ensure!(x as u8 == n, "channel type back", "{x:?} is {}", x as u8);
		}
		if let Ok(x) = TimestampFormat::try_from(n) {
			ensure!(x as u8 == n, "timestamp format back", "{x:?} is {}", x as u8);
		}
		if let Ok(x) = TextEncoding::try_from(n) {
			ensure!(x as u8 == n, "text encoding back", "{x:?} is {}", x as u8);
		}
		let p = PictureType::from_u8(n);
		let want = PICTURE.get(i).map_or(format!("Undefined({n})"), |x| x.to_string());
		known("picture type", n, Some(format!("{p:?}")), Some(&want))?;
		ensure!(p.as_u8() == n, "picture type back", "{p:?} is {}", p.as_u8());
		let want = match n {
			0 => Ok("Inoffensive"),
			1 | 4 => Ok("Explicit"),
			2 => Ok("Clean"),
			n => Err(n),
		};
		let got = AdvisoryRating::try_from(n);
		known("advisory rating", n, got.ok().map(|x| format!("{x:?}")), want.ok())?;
		match got {
			Ok(x) => ensure!(x.as_u8() == if n == 4 { 1 } else { n }, "advisory rating back", "{x:?} is {}", x.as_u8()),
			Err(e) => ensure!(e == n, "advisory rating error", "{n} gives the error {e}"),
		}
		known("profile", n, Profile::from_u8(n).map(|x| format!("{x:?}")), PROFILE.get(i).copied())?;
		known("link", n, Link::from_u8(n).map(|x| format!("{x:?}")), LINK.get(i).copied())?;
		let want = fmt::mp4::OBJECT_TYPES.iter().find(|x| x.0 == u32::from(n)).map(|x| x.1);
		known("audio object type", n, AudioObjectType::try_from(n).ok().map(|x| format!("{x:?}")), want)?;
		if let Ok(x) = AudioObjectType::try_from(n) {
			ensure!(x as u8 == n, "audio object type back", "{x:?} is {}", x as u8);
		}
		restrictions(n)
	})??;
	c.nontrivial();
	Ok(())
}

/// ID3v2.4 structure, 3.2 d: %ppqrrstt
fn restrictions(n: u8) -> R {
	let r = TagRestrictions::from_byte(n);
	let some = |o: Option<String>| o.unwrap_or_else(|| "none".into());
	let got = format!(
		"{:?} {} {} {} {}",
		r.size,
		r.text_encoding,
		some(r.text_fields_size.map(|x| format!("{x:?}"))),
		r.image_encoding,
		some(r.image_size.map(|x| format!("{x:?}")))
	);
	let want = format!(
		"{} {} {} {} {}",
		["S_128F_1M", "S_64F_128K", "S_32F_40K", "S_32F_4K"][usize::from(n >> 6)],
		n >> 5 & 1 == 1,
		["none", "C_1024", "C_128", "C_30"][usize::from(n >> 3 & 3)],
		n >> 2 & 1 == 1,
		["none", "P_256", "P_64", "P_64_64"][usize::from(n & 3)]
	);
	ensure!(got == want, "restrictions", "{n:#010b} is {got}, expected {want}");
	ensure!(r.as_bytes() == n, "restrictions back", "{n:#010b} is written as {:#010b}", r.as_bytes());
	Ok(())
}

fn data_types(c: &mut Case) -> R {
	let s = &mut c.src;
	let n = match s.below(4) {
		0 => s.u32(),
		1 => s.pick(&DATA).0 + *s.pick(&[1u32, 256, 65536, 0x100_0000]),
		_ => s.below(100) as u32,
	};
	c.note(|| format!("data type {n}"));
	let want = DATA.iter().find(|x| x.0 == n).map_or(format!("Other({n})"), |x| x.1.to_string());
	let d = DataType::from(n);
	ensure!(format!("{d:?}") == want, format!("data type {want}"), "{n} is {d:?}, expected {want}");
	ensure!(u32::from(d) == n, "data type back", "{d:?} is {} instead of {n}", u32::from(d));
	for (m, w, ext) in [
		(MimeType::Gif, 12, Some("gif")),
		(MimeType::Jpeg, 13, Some("jpg")),
		(MimeType::Png, 14, Some("png")),
		(MimeType::Bmp, 27, Some("bmp")),
		(MimeType::Tiff, 0, Some("tif")),
		(MimeType::Unknown("image/jpegx".into()), 0, None),
	] {
		ensure!(u32::from(DataType::from(&m)) == w && u32::from(DataType::from(m.clone())) == w, "image data type", "{m:?} is {:?}", DataType::from(&m));
		ensure!(m.ext() == ext, "image extension", "{m:?} has {:?}", m.ext());
	}
	c.nontrivial();
	Ok(())
}

fn frame_ids(c: &mut Case) -> R {
	let s = &mut c.src;
	let n = *s.pick(&[4, 4, 4, 3, 3, 0, 1, 2, 5, 6, 8]);
	let id: String = (0..n)
		.map(|_| match s.below(12) {
			0 => char::from(s.below(128) as u8),
			1 => *s.pick(&['a', 'z', '@', '[', '/', ':', ' ', '\0', 'é', 'Å', 'Ⅷ', '９', '\u{7f}']),
			2..6 => char::from(b'0' + s.below(10) as u8),
			_ => char::from(b'A' + s.below(26) as u8),
		})
		.collect();
	c.note(|| format!("frame ID {id:?}"));
	let good = id.bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit());
	let r = guard(|| FrameId::new(id.clone()))?;
	match (&r, good, id.len()) {
		(Ok(f), true, 3 | 4) => {
			ensure!(f.as_str() == id, "frame ID text", "{id:?} is {:?}", f.as_str());
			ensure!(f.is_outdated() == (id.len() == 3) && f.is_valid() == (id.len() == 4), "frame ID kind", "{id:?} is {f:?}");
			ensure!(matches!(f, FrameId::Outdated(_)) == f.is_outdated(), "frame ID kind", "{id:?} is {f:?}");
			c.class("taken");
		},
		(Ok(_), ..) => return fail("frame ID taken", format!("{id:?} is taken as {r:?}")),
		(Err(_), true, 3 | 4) => return fail("frame ID refused", format!("{id:?} is refused")),
		(Err(_), ..) => c.class("refused"),
	}
	c.nontrivial();
	Ok(())
}

pub fn props() -> Vec<Property> {
	vec![Property {
		id: "C40",
		rule: "every case: a number compared with the tables of all coded values, a data type, or a frame ID",
		assumptions: &["reserved event types have no number of their own in the library"],
		suites: vec![suite!("numbers", 20_000, 100_000, numbers), suite!("data", 40_000, 400_000, data_types), suite!("ids", 60_000, 600_000, frame_ids)],
	}]
}
