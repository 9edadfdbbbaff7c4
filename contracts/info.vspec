// What both codecs share: the description of a stream, and positions
//@ file src/codec.rs
//@ type StreamInfo keep_derives
//@ global
#[verifier::external_type_specification]
pub struct ExSeekFrom(std::io::SeekFrom);
use std::io::SeekFrom;
pub assume_specification [<SeekFrom as PartialEq>::eq](x: &SeekFrom, y: &SeekFrom) -> (r: bool)
    ensures r == (*x == *y);
//@ fn StreamInfo::channels
//@ ret r
//@ spec
    ensures r as int == self.channels
//@ fn StreamInfo::new
//@ ret r
//@ spec
    ensures r.sample_rate == sample_rate, r.channels == channels
