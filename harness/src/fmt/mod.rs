//! Independent builders and parsers for every container. Nothing here calls the library.

pub mod flac;
pub mod id3;
pub mod mp4;
pub mod ogg;
pub mod raw;
pub mod riff;
pub mod tags;

use crate::engine::Src;
use lofty::file::FileType;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
	Aac,
	Aiff,
	Ape,
	Flac,
	Mp3,
	Mp4,
	Mpc,
	Opus,
	Vorbis,
	Speex,
	Wav,
	WavPack,
}

pub const ALL_KINDS: [Kind; 12] = [
	Kind::Mp3,
	Kind::Aac,
	Kind::Aiff,
	Kind::Ape,
	Kind::Flac,
	Kind::Mp4,
	Kind::Mpc,
	Kind::Opus,
	Kind::Vorbis,
	Kind::Speex,
	Kind::Wav,
	Kind::WavPack,
];

impl Kind {
	pub fn name(self) -> &'static str {
		match self {
			Kind::Aac => "aac",
			Kind::Aiff => "aiff",
			Kind::Ape => "ape",
			Kind::Flac => "flac",
			Kind::Mp3 => "mp3",
			Kind::Mp4 => "mp4",
			Kind::Mpc => "mpc",
			Kind::Opus => "opus",
			Kind::Vorbis => "vorbis",
			Kind::Speex => "speex",
			Kind::Wav => "wav",
			Kind::WavPack => "wavpack",
		}
	}
	pub fn file_type(self) -> FileType {
		match self {
			Kind::Aac => FileType::Aac,
			Kind::Aiff => FileType::Aiff,
			Kind::Ape => FileType::Ape,
			Kind::Flac => FileType::Flac,
			Kind::Mp3 => FileType::Mpeg,
			Kind::Mp4 => FileType::Mp4,
			Kind::Mpc => FileType::Mpc,
			Kind::Opus => FileType::Opus,
			Kind::Vorbis => FileType::Vorbis,
			Kind::Speex => FileType::Speex,
			Kind::Wav => FileType::Wav,
			Kind::WavPack => FileType::WavPack,
		}
	}
	pub fn is_raw(self) -> bool {
		matches!(self, Kind::Aac | Kind::Ape | Kind::Mp3 | Kind::Mpc | Kind::WavPack)
	}
	pub fn is_ogg(self) -> bool {
		matches!(self, Kind::Opus | Kind::Vorbis | Kind::Speex)
	}
}

/// Expected audio properties of a generated file, where the format defines them.
#[derive(Clone, Debug, Default)]
pub struct Expect {
	pub sample_rate: Option<u32>,
	pub channels: Option<u8>,
	pub bit_depth: Option<u8>,
	/// milliseconds
	pub duration_ms: Option<f64>,
	/// kbit/s
	pub audio_bitrate: Option<f64>,
	/// bitrates within this absolute tolerance
	pub bitrate_tol: f64,
	pub duration_tol: f64,
	/// what else the headers state: (name, value as `rd::facts` gives it)
	pub facts: Vec<(&'static str, String)>,
	/// bits of the channel mask the generic properties give, where defined
	pub mask: Option<Option<u32>>,
	pub desc: String,
}

/// A well formed, untagged file of the kind.
pub fn gen_plain(s: &mut Src, k: Kind) -> Vec<u8> {
	match k {
		Kind::Mp3 => raw::gen_mp3(s).0,
		Kind::Aac => raw::gen_aac(s).0,
		Kind::Ape => raw::gen_ape(s).0,
		Kind::Mpc => {
			if s.bool() {
				raw::gen_mpc8(s).0
			} else {
				raw::gen_mpc7(s).0
			}
		},
		Kind::WavPack => raw::gen_wavpack(s).0,
		Kind::Wav => riff::gen_wav(s).0.to_bytes(),
		Kind::Aiff => riff::gen_aiff(s).0.to_bytes(),
		Kind::Flac => flac::gen_flac(s).0.to_bytes(),
		Kind::Opus | Kind::Vorbis | Kind::Speex => ogg::gen_ogg(s, k).0.to_bytes(),
		Kind::Mp4 => mp4::gen_mp4(s, &mp4::Shape::default()).0,
	}
}

/// Everything in the file that tagging must not touch, as labelled byte strings,
/// after validating the container structure. `Err` describes a structural defect.
pub fn essence(k: Kind, data: &[u8]) -> Result<Vec<(String, Vec<u8>)>, String> {
	match k {
		k if k.is_raw() => {
			let p = raw::split(k, data)?;
			Ok(vec![("audio".into(), p.audio)])
		},
		Kind::Wav | Kind::Aiff => riff::essence(k, data),
		Kind::Flac => flac::essence(data),
		Kind::Opus | Kind::Vorbis | Kind::Speex => ogg::essence(k, data),
		Kind::Mp4 => mp4::essence(data),
		_ => unreachable!(),
	}
}

pub fn be32(v: u32) -> [u8; 4] {
	v.to_be_bytes()
}
pub fn le32(v: u32) -> [u8; 4] {
	v.to_le_bytes()
}
pub fn rd_be32(b: &[u8]) -> u32 {
	u32::from_be_bytes([b[0], b[1], b[2], b[3]])
}
pub fn rd_le32(b: &[u8]) -> u32 {
	u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}
pub fn rd_be64(b: &[u8]) -> u64 {
	u64::from_be_bytes(b[..8].try_into().unwrap())
}
pub fn rd_le64(b: &[u8]) -> u64 {
	u64::from_le_bytes(b[..8].try_into().unwrap())
}
