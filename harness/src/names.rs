// The native names of every item key: (tag type, key, names; the first is the one written).
// Written down from the format documentation (ID3v2.4, APEv2, Vorbis comment field names, the
// MP4 and Picard tables, RIFF INFO) as an independent reference.
use lofty::tag::ItemKey as K;
use lofty::tag::TagType::{self, *};

#[rustfmt::skip]
pub const NAMES: &[(TagType, K, &[&str])] = &[
	(AiffText, K::TrackTitle, &["NAME"]),
	(AiffText, K::TrackArtist, &["AUTH"]),
	(AiffText, K::CopyrightMessage, &["(c) "]),
	(AiffText, K::Comment, &["COMM", "ANNO"]),
	(Ape, K::AlbumTitle, &["Album"]),
	(Ape, K::SetSubtitle, &["DiscSubtitle"]),
	(Ape, K::ContentGroup, &["Grouping"]),
	(Ape, K::TrackTitle, &["Title"]),
	(Ape, K::TrackSubtitle, &["Subtitle"]),
	(Ape, K::Work, &["WORKTITLE"]),
	(Ape, K::Movement, &["MOVEMENTNAME"]),
	(Ape, K::MovementNumber, &["MOVEMENT"]),
	(Ape, K::MovementTotal, &["MOVEMENTTOTAL"]),
	(Ape, K::ReleaseCountry, &["RELEASECOUNTRY"]),
	(Ape, K::AlbumTitleSortOrder, &["ALBUMSORT"]),
	(Ape, K::AlbumArtistSortOrder, &["ALBUMARTISTSORT"]),
	(Ape, K::TrackTitleSortOrder, &["TITLESORT"]),
	(Ape, K::TrackArtistSortOrder, &["ARTISTSORT"]),
	(Ape, K::AlbumArtist, &["Album Artist", "ALBUMARTIST"]),
	(Ape, K::AlbumArtists, &["ALBUMARTISTS", "ALBUM ARTISTS"]),
	(Ape, K::TrackArtist, &["Artist"]),
	(Ape, K::TrackArtists, &["Artists"]),
	(Ape, K::Arranger, &["Arranger"]),
	(Ape, K::Writer, &["Writer"]),
	(Ape, K::Composer, &["Composer"]),
	(Ape, K::Conductor, &["Conductor"]),
	(Ape, K::Director, &["Director"]),
	(Ape, K::Engineer, &["Engineer"]),
	(Ape, K::Lyricist, &["Lyricist"]),
	(Ape, K::MixDj, &["DjMixer"]),
	(Ape, K::MixEngineer, &["Mixer"]),
	(Ape, K::Performer, &["Performer"]),
	(Ape, K::Producer, &["Producer"]),
	(Ape, K::Label, &["Label"]),
	(Ape, K::Remixer, &["MixArtist"]),
	(Ape, K::DiscNumber, &["Disc"]),
	(Ape, K::DiscTotal, &["Disc"]),
	(Ape, K::TrackNumber, &["Track"]),
	(Ape, K::TrackTotal, &["Track"]),
	(Ape, K::RecordingDate, &["Year"]),
	(Ape, K::Year, &["Year"]),
	(Ape, K::OriginalReleaseDate, &["ORIGINALYEAR"]),
	(Ape, K::ReleaseDate, &["RELEASEDATE"]),
	(Ape, K::Isrc, &["ISRC"]),
	(Ape, K::Barcode, &["Barcode"]),
	(Ape, K::AcoustId, &["ACOUSTID_ID"]),
	(Ape, K::AcoustIdFingerprint, &["ACOUSTID_FINGERPRINT"]),
	(Ape, K::CatalogNumber, &["CatalogNumber"]),
	(Ape, K::FlagCompilation, &["Compilation"]),
	(Ape, K::OriginalMediaType, &["Media"]),
	(Ape, K::EncodedBy, &["EncodedBy"]),
	(Ape, K::ReplayGainAlbumGain, &["REPLAYGAIN_ALBUM_GAIN"]),
	(Ape, K::ReplayGainAlbumPeak, &["REPLAYGAIN_ALBUM_PEAK"]),
	(Ape, K::ReplayGainTrackGain, &["REPLAYGAIN_TRACK_GAIN"]),
	(Ape, K::ReplayGainTrackPeak, &["REPLAYGAIN_TRACK_PEAK"]),
	(Ape, K::Genre, &["Genre"]),
	(Ape, K::Color, &["Color"]),
	(Ape, K::Mood, &["Mood"]),
	(Ape, K::CopyrightMessage, &["Copyright"]),
	(Ape, K::Comment, &["Comment"]),
	(Ape, K::Language, &["language"]),
	(Ape, K::Script, &["Script"]),
	(Ape, K::Lyrics, &["Lyrics"]),
	(Ape, K::UnsyncLyrics, &["UnsyncedLyrics"]),
	(Ape, K::MusicBrainzRecordingId, &["MUSICBRAINZ_TRACKID"]),
	(Ape, K::MusicBrainzTrackId, &["MUSICBRAINZ_RELEASETRACKID"]),
	(Ape, K::MusicBrainzReleaseId, &["MUSICBRAINZ_ALBUMID"]),
	(Ape, K::MusicBrainzReleaseGroupId, &["MUSICBRAINZ_RELEASEGROUPID"]),
	(Ape, K::MusicBrainzArtistId, &["MUSICBRAINZ_ARTISTID"]),
	(Ape, K::MusicBrainzReleaseArtistId, &["MUSICBRAINZ_ALBUMARTISTID"]),
	(Ape, K::MusicBrainzWorkId, &["MUSICBRAINZ_WORKID"]),
	(Ape, K::MusicBrainzReleaseType, &["MUSICBRAINZ_ALBUMTYPE"]),
	(Id3v2, K::AlbumTitle, &["TALB"]),
	(Id3v2, K::SetSubtitle, &["TSST"]),
	(Id3v2, K::ContentGroup, &["TIT1"]),
	(Id3v2, K::AppleId3v2ContentGroup, &["GRP1"]),
	(Id3v2, K::TrackTitle, &["TIT2"]),
	(Id3v2, K::TrackSubtitle, &["TIT3"]),
	(Id3v2, K::OriginalAlbumTitle, &["TOAL"]),
	(Id3v2, K::OriginalArtist, &["TOPE"]),
	(Id3v2, K::OriginalLyricist, &["TOLY"]),
	(Id3v2, K::AlbumTitleSortOrder, &["TSOA"]),
	(Id3v2, K::AlbumArtistSortOrder, &["TSO2"]),
	(Id3v2, K::TrackTitleSortOrder, &["TSOT"]),
	(Id3v2, K::TrackArtistSortOrder, &["TSOP"]),
	(Id3v2, K::ComposerSortOrder, &["TSOC"]),
	(Id3v2, K::AlbumArtist, &["TPE2", "ALBUMARTIST", "ALBUM ARTIST"]),
	(Id3v2, K::AlbumArtists, &["ALBUMARTISTS", "ALBUM ARTISTS"]),
	(Id3v2, K::TrackArtist, &["TPE1"]),
	(Id3v2, K::TrackArtists, &["ARTISTS"]),
	(Id3v2, K::Writer, &["TEXT"]),
	(Id3v2, K::Composer, &["TCOM"]),
	(Id3v2, K::Conductor, &["TPE3"]),
	(Id3v2, K::Director, &["DIRECTOR"]),
	(Id3v2, K::Lyricist, &["TEXT"]),
	(Id3v2, K::Publisher, &["TPUB"]),
	(Id3v2, K::Label, &["TPUB"]),
	(Id3v2, K::InternetRadioStationName, &["TRSN"]),
	(Id3v2, K::InternetRadioStationOwner, &["TRSO"]),
	(Id3v2, K::Remixer, &["TPE4"]),
	(Id3v2, K::DiscNumber, &["TPOS"]),
	(Id3v2, K::DiscTotal, &["TPOS"]),
	(Id3v2, K::TrackNumber, &["TRCK"]),
	(Id3v2, K::TrackTotal, &["TRCK"]),
	(Id3v2, K::Popularimeter, &["POPM"]),
	(Id3v2, K::ParentalAdvisory, &["ITUNESADVISORY"]),
	(Id3v2, K::RecordingDate, &["TDRC"]),
	(Id3v2, K::OriginalReleaseDate, &["TDOR"]),
	(Id3v2, K::Isrc, &["TSRC"]),
	(Id3v2, K::Barcode, &["BARCODE"]),
	(Id3v2, K::AcoustId, &["Acoustid Id"]),
	(Id3v2, K::AcoustIdFingerprint, &["Acoustid Fingerprint"]),
	(Id3v2, K::CatalogNumber, &["CATALOGNUMBER"]),
	(Id3v2, K::Work, &["WORK"]),
	(Id3v2, K::Movement, &["MVNM"]),
	(Id3v2, K::MovementNumber, &["MVIN"]),
	(Id3v2, K::MovementTotal, &["MVIN"]),
	(Id3v2, K::FlagCompilation, &["TCMP"]),
	(Id3v2, K::FlagPodcast, &["PCST"]),
	(Id3v2, K::FileOwner, &["TOWN"]),
	(Id3v2, K::TaggingTime, &["TDTG"]),
	(Id3v2, K::Length, &["TLEN"]),
	(Id3v2, K::OriginalFileName, &["TOFN"]),
	(Id3v2, K::OriginalMediaType, &["TMED"]),
	(Id3v2, K::EncodedBy, &["TENC"]),
	(Id3v2, K::EncoderSoftware, &["TSSE"]),
	(Id3v2, K::EncoderSettings, &["TSSE"]),
	(Id3v2, K::EncodingTime, &["TDEN"]),
	(Id3v2, K::ReplayGainAlbumGain, &["REPLAYGAIN_ALBUM_GAIN"]),
	(Id3v2, K::ReplayGainAlbumPeak, &["REPLAYGAIN_ALBUM_PEAK"]),
	(Id3v2, K::ReplayGainTrackGain, &["REPLAYGAIN_TRACK_GAIN"]),
	(Id3v2, K::ReplayGainTrackPeak, &["REPLAYGAIN_TRACK_PEAK"]),
	(Id3v2, K::AudioFileUrl, &["WOAF"]),
	(Id3v2, K::AudioSourceUrl, &["WOAS"]),
	(Id3v2, K::CommercialInformationUrl, &["WCOM"]),
	(Id3v2, K::CopyrightUrl, &["WCOP"]),
	(Id3v2, K::TrackArtistUrl, &["WOAR"]),
	(Id3v2, K::RadioStationUrl, &["WORS"]),
	(Id3v2, K::PaymentUrl, &["WPAY"]),
	(Id3v2, K::PublisherUrl, &["WPUB"]),
	(Id3v2, K::Genre, &["TCON"]),
	(Id3v2, K::InitialKey, &["TKEY"]),
	(Id3v2, K::Color, &["COLOR"]),
	(Id3v2, K::Mood, &["TMOO"]),
	(Id3v2, K::IntegerBpm, &["TBPM"]),
	(Id3v2, K::CopyrightMessage, &["TCOP"]),
	(Id3v2, K::PodcastDescription, &["TDES"]),
	(Id3v2, K::PodcastSeriesCategory, &["TCAT"]),
	(Id3v2, K::PodcastUrl, &["WFED"]),
	(Id3v2, K::ReleaseDate, &["TDRL"]),
	(Id3v2, K::PodcastGlobalUniqueId, &["TGID"]),
	(Id3v2, K::PodcastKeywords, &["TKWD"]),
	(Id3v2, K::Comment, &["COMM"]),
	(Id3v2, K::Language, &["TLAN"]),
	(Id3v2, K::UnsyncLyrics, &["USLT"]),
	(Id3v2, K::MusicBrainzTrackId, &["MusicBrainz Release Track Id"]),
	(Id3v2, K::MusicBrainzReleaseId, &["MusicBrainz Album Id"]),
	(Id3v2, K::MusicBrainzReleaseGroupId, &["MusicBrainz Release Group Id"]),
	(Id3v2, K::MusicBrainzArtistId, &["MusicBrainz Artist Id"]),
	(Id3v2, K::MusicBrainzReleaseArtistId, &["MusicBrainz Album Artist Id"]),
	(Id3v2, K::MusicBrainzWorkId, &["MusicBrainz Work Id"]),
	(Id3v2, K::MusicBrainzReleaseType, &["MusicBrainz Album Type"]),
	(Id3v2, K::ReleaseCountry, &["MusicBrainz Album Release Country"]),
	(Mp4Ilst, K::AlbumTitle, &["\u{a9}alb"]),
	(Mp4Ilst, K::SetSubtitle, &["----:com.apple.iTunes:DISCSUBTITLE"]),
	(Mp4Ilst, K::ShowName, &["tvsh"]),
	(Mp4Ilst, K::ContentGroup, &["\u{a9}grp"]),
	(Mp4Ilst, K::TrackTitle, &["\u{a9}nam"]),
	(Mp4Ilst, K::TrackSubtitle, &["----:com.apple.iTunes:SUBTITLE"]),
	(Mp4Ilst, K::Work, &["\u{a9}wrk"]),
	(Mp4Ilst, K::Movement, &["\u{a9}mvn"]),
	(Mp4Ilst, K::MovementNumber, &["\u{a9}mvi"]),
	(Mp4Ilst, K::MovementTotal, &["\u{a9}mvc"]),
	(Mp4Ilst, K::AlbumTitleSortOrder, &["soal"]),
	(Mp4Ilst, K::AlbumArtistSortOrder, &["soaa"]),
	(Mp4Ilst, K::TrackTitleSortOrder, &["sonm"]),
	(Mp4Ilst, K::TrackArtistSortOrder, &["soar"]),
	(Mp4Ilst, K::ShowNameSortOrder, &["sosn"]),
	(Mp4Ilst, K::ComposerSortOrder, &["soco"]),
	(Mp4Ilst, K::AlbumArtist, &["aART"]),
	(Mp4Ilst, K::AlbumArtists, &["----:com.apple.iTunes:ALBUMARTISTS"]),
	(Mp4Ilst, K::TrackArtist, &["\u{a9}ART"]),
	(Mp4Ilst, K::TrackArtists, &["----:com.apple.iTunes:ARTISTS"]),
	(Mp4Ilst, K::Composer, &["\u{a9}wrt"]),
	(Mp4Ilst, K::Director, &["\u{a9}dir"]),
	(Mp4Ilst, K::Conductor, &["----:com.apple.iTunes:CONDUCTOR"]),
	(Mp4Ilst, K::Engineer, &["----:com.apple.iTunes:ENGINEER"]),
	(Mp4Ilst, K::Lyricist, &["----:com.apple.iTunes:LYRICIST"]),
	(Mp4Ilst, K::MixDj, &["----:com.apple.iTunes:DJMIXER"]),
	(Mp4Ilst, K::MixEngineer, &["----:com.apple.iTunes:MIXER"]),
	(Mp4Ilst, K::Producer, &["----:com.apple.iTunes:PRODUCER"]),
	(Mp4Ilst, K::Label, &["----:com.apple.iTunes:LABEL"]),
	(Mp4Ilst, K::Remixer, &["----:com.apple.iTunes:REMIXER"]),
	(Mp4Ilst, K::DiscNumber, &["disk"]),
	(Mp4Ilst, K::DiscTotal, &["disk"]),
	(Mp4Ilst, K::TrackNumber, &["trkn"]),
	(Mp4Ilst, K::TrackTotal, &["trkn"]),
	(Mp4Ilst, K::Popularimeter, &["rate"]),
	(Mp4Ilst, K::ParentalAdvisory, &["rtng"]),
	(Mp4Ilst, K::RecordingDate, &["\u{a9}day"]),
	(Mp4Ilst, K::OriginalReleaseDate, &["----:com.apple.iTunes:ORIGINALDATE"]),
	(Mp4Ilst, K::ReleaseDate, &["----:com.apple.iTunes:RELEASEDATE"]),
	(Mp4Ilst, K::Isrc, &["----:com.apple.iTunes:ISRC"]),
	(Mp4Ilst, K::Barcode, &["----:com.apple.iTunes:BARCODE"]),
	(Mp4Ilst, K::AcoustId, &["----:com.apple.iTunes:Acoustid Id"]),
	(Mp4Ilst, K::AcoustIdFingerprint, &["----:com.apple.iTunes:Acoustid Fingerprint"]),
	(Mp4Ilst, K::CatalogNumber, &["----:com.apple.iTunes:CATALOGNUMBER"]),
	(Mp4Ilst, K::FlagCompilation, &["cpil"]),
	(Mp4Ilst, K::FlagPodcast, &["pcst"]),
	(Mp4Ilst, K::OriginalMediaType, &["----:com.apple.iTunes:MEDIA"]),
	(Mp4Ilst, K::EncodedBy, &["\u{a9}enc"]),
	(Mp4Ilst, K::EncoderSoftware, &["\u{a9}too"]),
	(Mp4Ilst, K::Genre, &["\u{a9}gen"]),
	(Mp4Ilst, K::Color, &["----:com.apple.iTunes:COLOR"]),
	(Mp4Ilst, K::Mood, &["----:com.apple.iTunes:MOOD"]),
	(Mp4Ilst, K::IntegerBpm, &["tmpo"]),
	(Mp4Ilst, K::Bpm, &["----:com.apple.iTunes:BPM"]),
	(Mp4Ilst, K::InitialKey, &["----:com.apple.iTunes:initialkey"]),
	(Mp4Ilst, K::ReplayGainAlbumGain, &["----:com.apple.iTunes:replaygain_album_gain"]),
	(Mp4Ilst, K::ReplayGainAlbumPeak, &["----:com.apple.iTunes:replaygain_album_peak"]),
	(Mp4Ilst, K::ReplayGainTrackGain, &["----:com.apple.iTunes:replaygain_track_gain"]),
	(Mp4Ilst, K::ReplayGainTrackPeak, &["----:com.apple.iTunes:replaygain_track_peak"]),
	(Mp4Ilst, K::CopyrightMessage, &["cprt"]),
	(Mp4Ilst, K::License, &["----:com.apple.iTunes:LICENSE"]),
	(Mp4Ilst, K::PodcastDescription, &["ldes"]),
	(Mp4Ilst, K::PodcastSeriesCategory, &["catg"]),
	(Mp4Ilst, K::PodcastUrl, &["purl"]),
	(Mp4Ilst, K::PodcastGlobalUniqueId, &["egid"]),
	(Mp4Ilst, K::PodcastKeywords, &["keyw"]),
	(Mp4Ilst, K::Comment, &["\u{a9}cmt"]),
	(Mp4Ilst, K::Description, &["desc"]),
	(Mp4Ilst, K::Language, &["----:com.apple.iTunes:LANGUAGE"]),
	(Mp4Ilst, K::Script, &["----:com.apple.iTunes:SCRIPT"]),
	(Mp4Ilst, K::Lyrics, &["\u{a9}lyr"]),
	(Mp4Ilst, K::UnsyncLyrics, &["\u{a9}lyr"]),
	(Mp4Ilst, K::AppleXid, &["xid "]),
	(Mp4Ilst, K::MusicBrainzRecordingId, &["----:com.apple.iTunes:MusicBrainz Track Id"]),
	(Mp4Ilst, K::MusicBrainzTrackId, &["----:com.apple.iTunes:MusicBrainz Release Track Id"]),
	(Mp4Ilst, K::MusicBrainzReleaseId, &["----:com.apple.iTunes:MusicBrainz Album Id"]),
	(Mp4Ilst, K::MusicBrainzReleaseGroupId, &["----:com.apple.iTunes:MusicBrainz Release Group Id"]),
	(Mp4Ilst, K::MusicBrainzArtistId, &["----:com.apple.iTunes:MusicBrainz Artist Id"]),
	(Mp4Ilst, K::MusicBrainzReleaseArtistId, &["----:com.apple.iTunes:MusicBrainz Album Artist Id"]),
	(Mp4Ilst, K::MusicBrainzWorkId, &["----:com.apple.iTunes:MusicBrainz Work Id"]),
	(Mp4Ilst, K::MusicBrainzReleaseType, &["----:com.apple.iTunes:MusicBrainz Album Type"]),
	(Mp4Ilst, K::ReleaseCountry, &["----:com.apple.iTunes:MusicBrainz Album Release Country"]),
	(RiffInfo, K::AlbumTitle, &["IPRD"]),
	(RiffInfo, K::TrackTitle, &["INAM"]),
	(RiffInfo, K::TrackArtist, &["IART"]),
	(RiffInfo, K::Writer, &["IWRI"]),
	(RiffInfo, K::Composer, &["IMUS"]),
	(RiffInfo, K::Producer, &["IPRO"]),
	(RiffInfo, K::TrackNumber, &["IPRT", "ITRK"]),
	(RiffInfo, K::TrackTotal, &["IFRM"]),
	(RiffInfo, K::Popularimeter, &["IRTD"]),
	(RiffInfo, K::RecordingDate, &["ICRD"]),
	(RiffInfo, K::Length, &["TLEN"]),
	(RiffInfo, K::OriginalMediaType, &["ISRF"]),
	(RiffInfo, K::EncodedBy, &["ITCH"]),
	(RiffInfo, K::EncoderSoftware, &["ISFT"]),
	(RiffInfo, K::Genre, &["IGNR"]),
	(RiffInfo, K::CopyrightMessage, &["ICOP"]),
	(RiffInfo, K::Comment, &["ICMT"]),
	(RiffInfo, K::Language, &["ILNG"]),
	(RiffInfo, K::ReleaseCountry, &["ICNT"]),
	(VorbisComments, K::AlbumTitle, &["ALBUM"]),
	(VorbisComments, K::SetSubtitle, &["DISCSUBTITLE"]),
	(VorbisComments, K::ContentGroup, &["GROUPING"]),
	(VorbisComments, K::TrackTitle, &["TITLE"]),
	(VorbisComments, K::TrackSubtitle, &["SUBTITLE"]),
	(VorbisComments, K::Work, &["WORK"]),
	(VorbisComments, K::Movement, &["MOVEMENTNAME"]),
	(VorbisComments, K::MovementNumber, &["MOVEMENT"]),
	(VorbisComments, K::MovementTotal, &["MOVEMENTTOTAL"]),
	(VorbisComments, K::ReleaseCountry, &["RELEASECOUNTRY"]),
	(VorbisComments, K::AlbumTitleSortOrder, &["ALBUMSORT"]),
	(VorbisComments, K::AlbumArtistSortOrder, &["ALBUMARTISTSORT"]),
	(VorbisComments, K::TrackTitleSortOrder, &["TITLESORT"]),
	(VorbisComments, K::TrackArtistSortOrder, &["ARTISTSORT"]),
	(VorbisComments, K::AlbumArtist, &["ALBUMARTIST", "ALBUM ARTIST"]),
	(VorbisComments, K::AlbumArtists, &["ALBUMARTISTS", "ALBUM ARTISTS"]),
	(VorbisComments, K::TrackArtist, &["ARTIST"]),
	(VorbisComments, K::TrackArtists, &["ARTISTS"]),
	(VorbisComments, K::Arranger, &["ARRANGER"]),
	(VorbisComments, K::Writer, &["AUTHOR", "WRITER"]),
	(VorbisComments, K::Composer, &["COMPOSER"]),
	(VorbisComments, K::Conductor, &["CONDUCTOR"]),
	(VorbisComments, K::Director, &["DIRECTOR"]),
	(VorbisComments, K::Engineer, &["ENGINEER"]),
	(VorbisComments, K::Lyricist, &["LYRICIST"]),
	(VorbisComments, K::MixDj, &["DJMIXER"]),
	(VorbisComments, K::MixEngineer, &["MIXER"]),
	(VorbisComments, K::Performer, &["PERFORMER"]),
	(VorbisComments, K::Producer, &["PRODUCER"]),
	(VorbisComments, K::Publisher, &["PUBLISHER"]),
	(VorbisComments, K::Label, &["LABEL", "ORGANIZATION"]),
	(VorbisComments, K::Remixer, &["REMIXER", "MIXARTIST"]),
	(VorbisComments, K::DiscNumber, &["DISCNUMBER"]),
	(VorbisComments, K::DiscTotal, &["DISCTOTAL", "TOTALDISCS"]),
	(VorbisComments, K::TrackNumber, &["TRACKNUMBER"]),
	(VorbisComments, K::TrackTotal, &["TRACKTOTAL", "TOTALTRACKS"]),
	(VorbisComments, K::Popularimeter, &["RATING"]),
	(VorbisComments, K::RecordingDate, &["DATE"]),
	(VorbisComments, K::Year, &["YEAR"]),
	(VorbisComments, K::OriginalReleaseDate, &["ORIGINALDATE", "ORIGINALYEAR"]),
	(VorbisComments, K::ReleaseDate, &["RELEASEDATE"]),
	(VorbisComments, K::Isrc, &["ISRC"]),
	(VorbisComments, K::Barcode, &["BARCODE"]),
	(VorbisComments, K::AcoustId, &["ACOUSTID_ID"]),
	(VorbisComments, K::AcoustIdFingerprint, &["ACOUSTID_FINGERPRINT"]),
	(VorbisComments, K::CatalogNumber, &["CATALOGNUMBER"]),
	(VorbisComments, K::FlagCompilation, &["COMPILATION"]),
	(VorbisComments, K::OriginalMediaType, &["MEDIA"]),
	(VorbisComments, K::EncodedBy, &["ENCODEDBY", "ENCODED-BY", "ENCODED_BY"]),
	(VorbisComments, K::EncoderSoftware, &["ENCODER"]),
	(VorbisComments, K::EncoderSettings, &["ENCODING", "ENCODERSETTINGS"]),
	(VorbisComments, K::ReplayGainAlbumGain, &["REPLAYGAIN_ALBUM_GAIN"]),
	(VorbisComments, K::ReplayGainAlbumPeak, &["REPLAYGAIN_ALBUM_PEAK"]),
	(VorbisComments, K::ReplayGainTrackGain, &["REPLAYGAIN_TRACK_GAIN"]),
	(VorbisComments, K::ReplayGainTrackPeak, &["REPLAYGAIN_TRACK_PEAK"]),
	(VorbisComments, K::R128TrackGain, &["R128_TRACK_GAIN"]),
	(VorbisComments, K::R128AlbumGain, &["R128_ALBUM_GAIN"]),
	(VorbisComments, K::Genre, &["GENRE"]),
	(VorbisComments, K::Color, &["COLOR"]),
	(VorbisComments, K::Mood, &["MOOD"]),
	(VorbisComments, K::Bpm, &["BPM"]),
	(VorbisComments, K::InitialKey, &["INITIALKEY", "KEY"]),
	(VorbisComments, K::CopyrightMessage, &["COPYRIGHT"]),
	(VorbisComments, K::License, &["LICENSE"]),
	(VorbisComments, K::Comment, &["COMMENT"]),
	(VorbisComments, K::Description, &["DESCRIPTION"]),
	(VorbisComments, K::Language, &["LANGUAGE"]),
	(VorbisComments, K::Script, &["SCRIPT"]),
	(VorbisComments, K::Lyrics, &["LYRICS"]),
	(VorbisComments, K::UnsyncLyrics, &["UNSYNCEDLYRICS"]),
	(VorbisComments, K::MusicBrainzRecordingId, &["MUSICBRAINZ_TRACKID"]),
	(VorbisComments, K::MusicBrainzTrackId, &["MUSICBRAINZ_RELEASETRACKID"]),
	(VorbisComments, K::MusicBrainzReleaseId, &["MUSICBRAINZ_ALBUMID"]),
	(VorbisComments, K::MusicBrainzReleaseGroupId, &["MUSICBRAINZ_RELEASEGROUPID"]),
	(VorbisComments, K::MusicBrainzArtistId, &["MUSICBRAINZ_ARTISTID"]),
	(VorbisComments, K::MusicBrainzReleaseArtistId, &["MUSICBRAINZ_ALBUMARTISTID"]),
	(VorbisComments, K::MusicBrainzWorkId, &["MUSICBRAINZ_WORKID"]),
	(VorbisComments, K::MusicBrainzReleaseType, &["RELEASETYPE"]),
];
