//! Reading files with the library, as one canonical outcome.

use crate::engine::Src;
use crate::fmt::Kind;
use crate::lg::{self, NTag};
use lofty::config::{ParseOptions, ParsingMode};
use lofty::file::{AudioFile, FileType, TaggedFile, TaggedFileExt};
use std::io::{Read, Seek};

/// What reading a file gave.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Out {
	pub props: String,
	/// in the order: Id3v2, Id3v1, Ape, Vorbis, Ilst, Riff, Aiff
	pub tags: Vec<Vec<String>>,
	pub extra: Vec<String>,
}

pub struct Native {
	pub kind: Kind,
	pub tags: Vec<NTag>,
	pub props: String,
	pub extra: Vec<String>,
	pub generic: Option<TaggedFile>,
}

impl Native {
	pub fn get(&self, ty: lofty::tag::TagType) -> Option<&NTag> {
		self.tags.iter().find(|t| t.ty() == ty)
	}
	pub fn out(&self) -> Out {
		Out {
			props: self.props.clone(),
			tags: self.tags.iter().map(|t| std::iter::once(format!("{:?}", t.ty())).chain(canon_full(t)).collect()).collect(),
			extra: self.extra.clone(),
		}
	}
}

/// canonical content plus whatever else the tag carries
pub fn canon_full(t: &NTag) -> Vec<String> {
	let mut v = t.canon();
	match t {
		NTag::Id3v2(t) => v.push(format!("flags {:?} version {:?}", t.flags(), t.original_version())),
		NTag::Vorbis(t) => v.push(format!("vendor {:?}", t.vendor())),
		_ => {},
	}
	v
}

pub fn read_native<R: Read + Seek>(k: Kind, r: &mut R, o: ParseOptions, generic: bool) -> Result<Native, String> {
	let mut tags = vec![];
	let mut extra = vec![];
	let props;
	let mut gen_file = None;
	macro_rules! go {
		($ty:ty, $f:ident, $($body:tt)*) => {{
			#[allow(unused_mut)]
			let mut $f = <$ty>::read_from(r, o).map_err(|e| chain(&e))?;
			props = format!("{:?}", $f.properties());
			$($body)*
			if generic {
				gen_file = Some(TaggedFile::from($f));
			}
		}};
	}
	macro_rules! tag {
		($f:ident, $($m:ident => $v:ident),*) => {
			$(if let Some(t) = $f.$m() {
				tags.push(NTag::$v(t.clone()));
			})*
		};
	}
	match k {
		Kind::Mp3 => go!(lofty::mpeg::MpegFile, f, tag!(f, id3v2 => Id3v2, id3v1 => Id3v1, ape => Ape);),
		Kind::Aac => go!(lofty::aac::AacFile, f, tag!(f, id3v2 => Id3v2, id3v1 => Id3v1);),
		Kind::Ape => go!(lofty::ape::ApeFile, f, tag!(f, id3v2 => Id3v2, id3v1 => Id3v1, ape => Ape);),
		Kind::Mpc => go!(lofty::musepack::MpcFile, f, tag!(f, id3v2 => Id3v2, id3v1 => Id3v1, ape => Ape);),
		Kind::WavPack => go!(lofty::wavpack::WavPackFile, f, tag!(f, id3v1 => Id3v1, ape => Ape);),
		Kind::Wav => go!(lofty::iff::wav::WavFile, f, tag!(f, id3v2 => Id3v2, riff_info => Riff);),
		Kind::Aiff => go!(lofty::iff::aiff::AiffFile, f, tag!(f, id3v2 => Id3v2, text_chunks => Aiff);),
		Kind::Mp4 => go!(lofty::mp4::Mp4File, f, tag!(f, ilst => Ilst); extra.push(format!("{:?}", f.ftyp()));),
		Kind::Flac => go!(lofty::flac::FlacFile, f, tag!(f, id3v2 => Id3v2, vorbis_comments => Vorbis);
			use lofty::ogg::OggPictureStorage;
			extra.extend(f.pictures().iter().map(|(p, i)| format!("{} {i:?}", lg::c_pic(p))));),
		Kind::Opus => go!(lofty::ogg::OpusFile, f, tags.push(NTag::Vorbis(f.vorbis_comments().clone()));),
		Kind::Vorbis => go!(lofty::ogg::VorbisFile, f, tags.push(NTag::Vorbis(f.vorbis_comments().clone()));),
		Kind::Speex => go!(lofty::ogg::SpeexFile, f, tags.push(NTag::Vorbis(f.vorbis_comments().clone()));),
	}
	Ok(Native { kind: k, tags, props, extra, generic: gen_file })
}

/// What the format's own properties state beyond the generic ones, by name
pub fn facts<R: Read + Seek>(k: Kind, r: &mut R, o: ParseOptions) -> Result<Vec<(&'static str, String)>, String> {
	let mut v: Vec<(&'static str, String)> = vec![];
	macro_rules! open {
		($ty:ty) => {
			<$ty>::read_from(r, o).map_err(|e| chain(&e))?
		};
	}
	macro_rules! put {
		($($n:literal: $e:expr),* $(,)?) => {
			{ $(v.push(($n, $e.to_string()));)* }
		};
	}
	match k {
		Kind::Mp3 => {
			let f = open!(lofty::mpeg::MpegFile);
			let p = f.properties();
			put!("version": format!("{:?}", p.version()), "layer": format!("{:?}", p.layer()),
				"channel_mode": format!("{:?}", p.channel_mode()), "mode_extension": format!("{:?}", p.mode_extension()),
				"copyright": p.is_copyright(), "original": p.is_original(), "emphasis": format!("{:?}", p.emphasis()),
				"channels": p.channels(), "sample_rate": p.sample_rate(), "duration": p.duration().as_millis(),
				"overall_bitrate": p.overall_bitrate(), "audio_bitrate": p.audio_bitrate());
		},
		Kind::Aac => {
			let f = open!(lofty::aac::AacFile);
			let p = f.properties();
			put!("version": format!("{:?}", p.version()), "audio_object_type": format!("{:?}", p.audio_object_type()),
				"copyright": p.copyright(), "original": p.original(),
				"channels": p.channels(), "sample_rate": p.sample_rate(), "duration": p.duration().as_millis(),
				"overall_bitrate": p.overall_bitrate(), "audio_bitrate": p.audio_bitrate());
		},
		Kind::Ape => {
			let f = open!(lofty::ape::ApeFile);
			let p = f.properties();
			put!("version": p.version(), "bit_depth": p.bit_depth(),
				"channels": p.channels(), "sample_rate": p.sample_rate(), "duration": p.duration().as_millis(),
				"overall_bitrate": p.overall_bitrate(), "audio_bitrate": p.bitrate());
		},
		Kind::WavPack => {
			let f = open!(lofty::wavpack::WavPackFile);
			let p = f.properties();
			put!("version": p.version(), "lossless": p.is_lossless(), "channel_mask": p.channel_mask().bits(), "bit_depth": p.bit_depth(),
				"channels": p.channels(), "sample_rate": p.sample_rate(), "duration": p.duration().as_millis(),
				"overall_bitrate": p.overall_bitrate(), "audio_bitrate": p.audio_bitrate());
		},
		Kind::Mpc => {
			let f = open!(lofty::musepack::MpcFile);
			match f.properties() {
				lofty::musepack::MpcProperties::Sv7(p) => put!("frame_count": p.frame_count(), "intensity_stereo": p.intensity_stereo(),
					"mid_side_stereo": p.mid_side_stereo(), "max_band": p.max_band(), "profile": format!("{:?}", p.profile()),
					"link": format!("{:?}", p.link()), "max_level": p.max_level(), "title_gain": p.title_gain(),
					"title_peak": p.title_peak(), "album_gain": p.album_gain(), "album_peak": p.album_peak(),
					"true_gapless": p.true_gapless(), "last_frame_length": p.last_frame_length(),
					"fast_seeking_safe": p.fast_seeking_safe(), "encoder_version": p.encoder_version(),
					"channels": p.channels(), "sample_rate": p.sample_rate(), "duration": p.duration().as_millis(),
					"overall_bitrate": p.average_bitrate()),
				lofty::musepack::MpcProperties::Sv8(p) => {
					let (h, g) = (&p.stream_header, &p.replay_gain);
					put!("version": p.version(),
						"stream_header": format!("{} {} {} {} {} {} {} {} {}", h.crc, h.stream_version, h.sample_count, h.beginning_silence,
							h.sample_rate, h.max_used_bands, h.channels, h.ms_used, h.audio_block_frames),
						"replay_gain": format!("{} {} {} {} {}", g.version, g.title_gain, g.title_peak, g.album_gain, g.album_peak),
						"encoder_info": match &p.encoder_info {
							Some(i) => format!("Some({} {} {} {} {})", i.profile, i.pns_tool, i.major, i.minor, i.build),
							None => "None".into(),
						},
						"channels": p.channels(), "sample_rate": p.sample_rate(), "duration": p.duration().as_millis(),
						"overall_bitrate": p.average_bitrate());
				},
				lofty::musepack::MpcProperties::Sv4to6(p) => put!("mid_side_stereo": p.mid_side_stereo(), "stream_version": p.stream_version(),
					"max_band": p.max_band(), "frame_count": p.frame_count(),
					"channels": p.channels(), "sample_rate": p.sample_rate(), "duration": p.duration().as_millis(),
					"overall_bitrate": p.average_bitrate()),
			}
		},
		Kind::Wav => {
			let f = open!(lofty::iff::wav::WavFile);
			let p = f.properties();
			put!("format": format!("{:?}", p.format()), "bit_depth": p.bit_depth(),
				"channels": p.channels(), "sample_rate": p.sample_rate(), "duration": p.duration().as_millis(),
				"overall_bitrate": p.overall_bitrate(), "audio_bitrate": p.bitrate());
		},
		Kind::Aiff => {
			let f = open!(lofty::iff::aiff::AiffFile);
			let p = f.properties();
			use lofty::iff::aiff::AiffCompressionType as T;
			put!("sample_size": p.sample_size(),
				"compression_type": match p.compression_type() {
					Some(T::Other { compression_type, compression_name }) => {
						format!("Some(Other {:?} {compression_name:?})", String::from_utf8_lossy(compression_type))
					},
					t => format!("{t:?}"),
				},
				"channels": p.channels(), "sample_rate": p.sample_rate(), "duration": p.duration().as_millis(),
				"overall_bitrate": p.overall_bitrate(), "audio_bitrate": p.audio_bitrate());
		},
		Kind::Flac => {
			let f = open!(lofty::flac::FlacFile);
			let p = f.properties();
			put!("signature": p.signature(), "bit_depth": p.bit_depth(),
				"channels": p.channels(), "sample_rate": p.sample_rate(), "duration": p.duration().as_millis(),
				"overall_bitrate": p.overall_bitrate(), "audio_bitrate": p.audio_bitrate());
		},
		Kind::Mp4 => {
			let f = open!(lofty::mp4::Mp4File);
			let p = f.properties();
			put!("codec": format!("{:?}", p.codec()), "audio_object_type": format!("{:?}", p.audio_object_type()),
				"drm": p.is_drm_protected(), "ftyp": p.ftyp(), "file_ftyp": f.ftyp(), "duration": p.duration().as_millis());
			let num = |n: Option<u32>| n.map_or("None".to_string(), |n| n.to_string());
			put!("channels": num(p.channels().map(u32::from)), "sample_rate": num(p.sample_rate()),
				"bit_depth": num(p.bit_depth().map(u32::from)), "overall_bitrate": num(p.overall_bitrate()),
				"audio_bitrate": num(p.audio_bitrate()));
		},
		Kind::Opus => {
			let f = open!(lofty::ogg::OpusFile);
			let p = f.properties();
			put!("version": p.version(), "input_sample_rate": p.input_sample_rate(), "output_gain": p.output_gain_db(),
				"channel_mask": p.channel_mask().bits(),
				"channels": p.channels(), "sample_rate": p.input_sample_rate(), "duration": p.duration().as_millis(),
				"overall_bitrate": p.overall_bitrate(), "audio_bitrate": p.audio_bitrate());
		},
		Kind::Vorbis => {
			let f = open!(lofty::ogg::VorbisFile);
			let p = f.properties();
			put!("version": p.version(), "bitrate_min": p.bitrate_min(), "bitrate_max": p.bitrate_max(), "bitrate_nominal": p.bitrate_nominal(),
				"channels": p.channels(), "sample_rate": p.sample_rate(), "duration": p.duration().as_millis(),
				"overall_bitrate": p.overall_bitrate(), "audio_bitrate": p.audio_bitrate());
		},
		Kind::Speex => {
			let f = open!(lofty::ogg::SpeexFile);
			let p = f.properties();
			put!("version": p.version(), "mode": p.mode(), "vbr": p.vbr(), "nominal_bitrate": p.nominal_bitrate(),
				"channels": p.channels(), "sample_rate": p.sample_rate(), "duration": p.duration().as_millis(),
				"overall_bitrate": p.overall_bitrate(), "audio_bitrate": p.audio_bitrate());
		},
	}
	Ok(v)
}

pub fn probe_read<R: Read + Seek>(r: R, o: ParseOptions) -> Result<TaggedFile, String> {
	lofty::probe::Probe::new(std::io::BufReader::new(r))
		.options(o)
		.guess_file_type()
		.map_err(|e| chain(&e))?
		.read()
		.map_err(|e| chain(&e))
}

/// detection without buffering
pub fn detect<R: Read + Seek>(r: R, o: ParseOptions) -> Result<Option<FileType>, String> {
	Ok(lofty::probe::Probe::new(r).options(o).guess_file_type().map_err(|e| chain(&e))?.file_type())
}

pub fn c_tagged(f: &TaggedFile) -> Out {
	Out {
		props: format!("{:?}", f.properties()),
		tags: f
			.tags()
			.iter()
			.map(|t| std::iter::once(format!("{:?}", t.tag_type())).chain(lg::c_tag(t)).collect())
			.collect(),
		extra: vec![format!("{:?}", f.file_type())],
	}
}

pub fn parse_options(s: &mut Src) -> ParseOptions {
	let mut o = ParseOptions::new();
	if s.chance(1, 8) {
		o = o.read_properties(false);
	}
	if s.chance(1, 8) {
		o = o.read_tags(false);
	}
	if s.chance(1, 6) {
		o = o.read_cover_art(false);
	}
	if s.chance(1, 6) {
		o = o.implicit_conversions(false);
	}
	match s.below(4) {
		1 => o = o.parsing_mode(ParsingMode::Strict),
		2 => o = o.parsing_mode(ParsingMode::Relaxed),
		_ => {},
	}
	if s.chance(1, 8) {
		o = o.max_junk_bytes(*s.pick(&[0usize, 1, 10, 100, 5000, 1_000_000]));
	}
	o
}

pub fn all_kind(ft: FileType) -> Option<Kind> {
	crate::fmt::ALL_KINDS.iter().copied().find(|k| k.file_type() == ft)
}

pub fn chain(e: &dyn std::error::Error) -> String {
	let mut s = e.to_string();
	let mut e = e;
	while let Some(n) = e.source() {
		s.push_str(&format!(" <- {n}"));
		e = n;
	}
	s
}
