//! What the contracts of WavCodec assume about unsafe code and floating point, decided on the real code.
use super::*;
fn b4(x: u32) -> [u8; 4] { x.to_le_bytes() }
fn b2(x: i16) -> [u8; 2] { x.to_le_bytes() }
fn any_header() -> RawWavHeader {
    RawWavHeader { riff: kani::any(), file_size: kani::any(), wave: kani::any(), fmt: kani::any(), cksize: kani::any(), audio_format: kani::any(), num_channels: kani::any(), frequncy: kani::any(),
        bytes_per_sec: kani::any(), block_align: kani::any(), bits_per_sample: kani::any(), data_header: kani::any(), file_size_data: kani::any() }
}
fn bytes_of(h: &RawWavHeader) -> [u8; 44] {
    let mut b = [0u8; 44];
    b[0..4].copy_from_slice(&h.riff); b[4..8].copy_from_slice(&b4(h.file_size)); b[8..12].copy_from_slice(&h.wave); b[12..16].copy_from_slice(&h.fmt);
    b[16..20].copy_from_slice(&b4(h.cksize)); b[20..22].copy_from_slice(&b2(h.audio_format)); b[22..24].copy_from_slice(&b2(h.num_channels));
    b[24..28].copy_from_slice(&b4(h.frequncy as u32)); b[28..32].copy_from_slice(&b4(h.bytes_per_sec as u32)); b[32..34].copy_from_slice(&b2(h.block_align));
    b[34..36].copy_from_slice(&b2(h.bits_per_sample)); b[36..40].copy_from_slice(&h.data_header); b[40..44].copy_from_slice(&b4(h.file_size_data));
    b
}
/// as_bytes: hdr_bytes of contracts/wav.vspec
#[kani::proof]
fn wav_header_bytes() {
    let h = any_header();
    let want = bytes_of(&h);
    let got = h.as_bytes();
    assert!(got.len() == 44);
    let i: usize = kani::any();
    kani::assume(i < 44);
    assert!(got[i] == want[i]);
}
/// as_bytes_mut: what is written there is what the header has
#[kani::proof]
fn wav_header_bytes_mut() {
    let mut h = any_header();
    let before = bytes_of(&h);
    let new: [u8; 44] = kani::any();
    let i: usize = kani::any();
    kani::assume(i < 44);
    {
        let m = h.as_bytes_mut();
        assert!(m.len() == 44);
        assert!(m[i] == before[i]);
        m.copy_from_slice(&new);
    }
    assert!(bytes_of(&h)[i] == new[i]);
}
/// a seek to 0 ms is a seek to the start at any rate
#[kani::proof]
fn leaf_wav_rewind() {
    let rate: u32 = kani::any();
    assert!(((rate as f32 / 1000.0) * (0u64 as f32)) as i64 == 0);
    assert!(((rate as f32 / 1000.0) * (0i64 as f32)) as i64 == 0);
}
/// an 8-bit sample (`wide` of contracts/wav.vspec) is its value scaled from 0..255 to -1..1, up to two 16-bit steps
#[kani::proof]
fn leaf_wav_wide() {
    let x: u8 = kani::any();
    let v = (((x as f32 / 255.0) * 2.0 - 1.0).clamp(-1.0, 1.0) * (32766i16 as f32)) as i16;
    let d = v as f64 / 32767.0 - (x as f64 / 255.0 * 2.0 - 1.0);
    assert!(d <= 2.0 / 32767.0 && d >= -2.0 / 32767.0);
    assert!(v >= -32767);
}
