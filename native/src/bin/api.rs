//! Oracles over the public interface, one per property.
use adhoc_audio::codec::{adhoc::AdhocCodec, wav::WavCodec, StreamInfo, Streamable};
use oracle::*;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

/* ---------- helpers ---------- */
fn channels(r: &mut Rng) -> usize {
    r.pick(&[1, 1, 1, 2, 2, 2, 3, 4, 5, 6, 8, 17])
}
fn rate(r: &mut Rng) -> u32 {
    r.pick(&[1000, 8000, 11025, 22050, 44100, 48000, 96000, 2000, 500, 999, 192000, 1])
}
/// frames (sets of channels) in one encode call
fn block_len(r: &mut Rng, size: usize) -> usize {
    match size {
        0 => r.below(5) as usize,
        1 => r.below(40) as usize,
        2 => r.pick(&[0, 1, 2, 3, 4, 7, 64, 100, 333, 512]) + r.below(4) as usize,
        3 => r.below(3000) as usize,
        _ => r.pick(&[65533, 65534, 65535, 65536, 65537, 65539, 70000, 131069, 131070, 131071, 131073]),
    }
}
struct Clip {
    ch: usize,
    rate: u32,
    level: u32,
    blocks: Vec<Vec<f32>>,
}
fn clip_with(r: &mut Rng, size: usize, level: u32, ch: usize, wild: bool) -> Clip {
    if size == 5 {
        // more frames than sixteen bits can count
        let ch = ch.min(2);
        let n = 65500 / (if r.chance(1, 2) { ch } else { 1 }) as u64 + r.below(300);
        let blocks = (0..n).map(|_| { let len = 1 + r.below(12) as usize / 11; interleave(r, len, ch, wild) }).collect();
        return Clip { ch, rate: rate(r), level, blocks };
    }
    let n = if size == 4 { 1 + r.below(2) } else { 1 + r.below(5) };
    let ch = if size == 4 { ch.min(3) } else { ch };
    let blocks = (0..n)
        .map(|i| {
            let len = if size == 4 && i > 0 { r.below(70) as usize } else { block_len(r, size) };
            interleave(r, len, ch, wild)
        })
        .collect();
    Clip { ch, rate: rate(r), level, blocks }
}
fn clip(r: &mut Rng, size: usize, level: u32) -> Clip {
    let ch = channels(r);
    clip_with(r, size, level, ch, true)
}
fn interleave(r: &mut Rng, len: usize, ch: usize, wild: bool) -> Vec<f32> {
    let chans: Vec<Vec<f32>> = (0..ch).map(|_| gen_samples(r, len, wild)).collect();
    let mut v = Vec::with_capacity(len * ch);
    for i in 0..len {
        for c in 0..ch {
            v.push(chans[c][i]);
        }
    }
    v
}
fn info(c: &Clip) -> StreamInfo {
    StreamInfo::new(c.rate, c.ch as u32)
}
fn fresh(c: &Clip) -> AdhocCodec {
    AdhocCodec::new().with_compression_level(c.level).with_info(info(c))
}
/// encodes all blocks; a stray partial set of channels must not matter
fn feed(r: &mut Rng, a: &mut dyn Streamable, c: &Clip) -> Result<Vec<f32>, String> {
    let mut all = vec![];
    for b in &c.blocks {
        let mut give = b.clone();
        if c.ch > 1 && r.chance(1, 4) {
            for _ in 0..r.range(1, c.ch as i64 - 1) {
                give.push(0.3);
            }
        }
        match a.encode(&give) {
            Some(n) if n == b.len() => {}
            other => return Err(format!("encode of {} samples ({} whole) reported {:?}", give.len(), b.len(), other)),
        }
        all.extend_from_slice(b);
    }
    Ok(all)
}
fn encoded(r: &mut Rng, c: &Clip) -> Result<(AdhocCodec, Vec<f32>), String> {
    let mut a = fresh(c);
    let all = feed(r, &mut a, c)?;
    a.seek(SeekFrom::Start(0));
    Ok((a, all))
}
/// reads everything with a plain big buffer
fn drain(a: &mut dyn Streamable) -> Result<Vec<f32>, String> {
    let ch = a.info().channels().max(1);
    let mut out = vec![];
    let mut buf = vec![0.0; 1024 * ch];
    let mut calls = 0u64;
    while let Some(n) = a.decode(&mut buf) {
        if n == 0 || n > buf.len() {
            return Err(format!("decode returned Some({})", n));
        }
        out.extend_from_slice(&buf[..n]);
        calls += 1;
        if calls > 2_000_000 {
            return Err("decoding does not come to an end".into());
        }
    }
    Ok(out)
}
fn same(what: &str, got: &[f32], want: &[f32]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{}: got {} samples, expected {}", what, got.len(), want.len()));
    }
    for i in 0..got.len() {
        if got[i] != want[i] && !(got[i].is_nan() && want[i].is_nan()) {
            return Err(format!("{}: sample {} is {:?}, expected {:?}", what, i, got[i], want[i]));
        }
    }
    Ok(())
}
fn near(what: &str, got: &[f32], input: &[f32], level: u32) -> Result<(), String> {
    if got.len() != input.len() {
        return Err(format!("{}: got {} samples, expected {}", what, got.len(), input.len()));
    }
    let bound = (1u32 << level) as f64 / 32767.0 + 0.001 + 1e-5;
    for i in 0..got.len() {
        let d = (got[i] as f64 - input[i] as f64).abs();
        if !(d <= bound) {
            return Err(format!("{}: sample {} is {:?}, encoded from {:?}, further apart than {}", what, i, got[i], input[i], bound));
        }
    }
    Ok(())
}
fn lossless(v: &[f32]) -> Vec<f32> {
    v.iter().map(|&s| deq(q16(s))).collect()
}
fn show(c: &Clip) -> String {
    let lens: Vec<usize> = c.blocks.iter().map(|b| b.len() / c.ch).collect();
    let head: Vec<f32> = c.blocks.iter().flatten().take(4).cloned().collect();
    format!("{} channels at {} Hz, level {}, {} blocks of {:?}, starts {:?}", c.ch, c.rate, c.level, lens.len(), &lens[..lens.len().min(8)], head)
}
fn fails<T>(c: &Clip, r: Result<T, String>) -> Result<T, String> {
    r.map_err(|e| {
        let dump: String = if c.blocks.iter().map(|b| b.len()).sum::<usize>() <= 64 {
            format!("{:?}", c.blocks)
        } else {
            "(regenerated from the case seed)".into()
        };
        format!("{}; {}; input {}", e, show(c), dump)
    })
}
fn saved(a: &AdhocCodec) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    a.save_to(&mut v).ok_or("save_to failed")?;
    Ok(v)
}
fn reload(bytes: &[u8]) -> Result<AdhocCodec, String> {
    AdhocCodec::load(Cursor::new(bytes)).ok_or_else(|| "load rejected a file that save_to wrote".to_string())
}
/// positions (in sets of channels) a seek to `ms` may mean
fn positions(rate: u32, ms: u64) -> [u64; 2] {
    let single = ((rate as f32 / 1000.0) * (ms as f32)) as u64;
    let exact = ((rate as u128) * (ms as u128) / 1000).min(u64::MAX as u128) as u64;
    [single, exact]
}
fn seek_time(r: &mut Rng, c: &Clip, total: usize) -> u64 {
    let dur = (total as u64 * 1000) / c.rate as u64;
    match r.below(10) {
        0 => 0,
        1 => dur,
        2 => dur + 1,
        3 => dur + r.below(100000),
        4 => 1,
        5 => r.pick(&[u64::MAX, u64::MAX / 2, 1 << 40, 1 << 62]),
        _ => r.below(dur + 2),
    }
}

/* ---------- the ADHOC codec ---------- */
fn c01(r: &mut Rng, size: usize) -> Outcome {
    let c = clip(r, size, 0);
    fails(&c, (|| {
        let (mut a, all) = encoded(r, &c)?;
        same("lossless round trip", &drain(&mut a)?, &lossless(&all))
    })())?;
    Ok(show(&c))
}
fn c02(r: &mut Rng, size: usize) -> Outcome {
    let level = 1 + r.below(10) as u32;
    let ch = channels(r);
    let c = clip_with(r, size, level, ch, false);
    fails(&c, (|| {
        let (mut a, all) = encoded(r, &c)?;
        near("lossy round trip", &drain(&mut a)?, &all, level)
    })())?;
    Ok(show(&c))
}
fn c03(r: &mut Rng, size: usize) -> Outcome {
    let level = r.pick(&[0, 0, 3, 10]);
    let c = clip(r, size, level);
    fails(&c, (|| {
        let (mut a, _) = encoded(r, &c)?;
        let want = drain(&mut a)?;
        a.seek(SeekFrom::Start(0));
        let total: usize = c.blocks.iter().map(|b| b.len()).sum();
        if want.len() != total {
            return Err(format!("{} samples delivered of {}", want.len(), total));
        }
        let mut pos = 0;
        let mut idle = 0;
        while idle < 4 {
            let len = match r.below(6) {
                0 => r.below(3) as usize,
                1 => r.below(c.ch as u64 + 2) as usize,
                2 => c.ch,
                3 => r.below(5000) as usize,
                4 => (total - pos) + r.below(3) as usize,
                _ => r.below(60) as usize,
            };
            let mut buf = vec![77.5f32; len];
            let legal = len / c.ch * c.ch;
            let expect = legal.min(total - pos);
            let got = a.decode(&mut buf);
            if got != (if expect > 0 { Some(expect) } else { None }) {
                return Err(format!("decode into {} samples at position {} of {} reported {:?}, expected {}", len, pos, total, got, expect));
            }
            same("delivered samples", &buf[..expect], &want[pos..pos + expect])?;
            if buf[expect..].iter().any(|&x| x != 77.5) {
                return Err(format!("decode into {} samples at position {} of {} changed the buffer past the {} reported samples", len, pos, total, expect));
            }
            pos += expect;
            if pos == total {
                idle += 1;
            }
        }
        Ok(())
    })())?;
    Ok(show(&c))
}
fn c04(r: &mut Rng, size: usize) -> Outcome {
    let level = r.below(11) as u32;
    let c = clip(r, size, level);
    fails(&c, (|| {
        let (mut a, all) = encoded(r, &c)?;
        let full = drain(&mut a)?;
        if r.chance(1, 2) {
            a.seek(SeekFrom::Start(r.below(50)));
        }
        let mut b = reload(&saved(&a)?)?;
        if b.info().channels() != c.ch || b.info().frequency() != c.rate as usize {
            return Err(format!("loaded as {} channels at {} Hz", b.info().channels(), b.info().frequency()));
        }
        same("decoding the loaded file", &drain(&mut b)?, &full)?;
        if b.calculate_sample_count_per_channel() != (all.len() / c.ch) as u64 {
            return Err(format!("loaded file reports {} samples per channel", b.calculate_sample_count_per_channel()));
        }
        for _ in 0..3 {
            let t = seek_time(r, &c, full.len() / c.ch);
            a.seek(SeekFrom::Start(t));
            b.seek(SeekFrom::Start(t));
            same(&format!("after seeking both to {} ms", t), &drain(&mut b)?, &drain(&mut a)?)?;
        }
        Ok(())
    })())?;
    Ok(show(&c))
}
fn c05(r: &mut Rng, size: usize) -> Outcome {
    let level = r.pick(&[0, 0, 5]);
    let mut c = clip(r, size, level);
    if size < 3 && r.chance(2, 3) {
        c.rate = r.pick(&[1000, 2000, 8000]);
    }
    let mut ops = vec![];
    fails(&c, (|| {
        let (mut a, _) = encoded(r, &c)?;
        let full = drain(&mut a)?;
        if full.len() != c.blocks.iter().map(|b| b.len()).sum::<usize>() {
            return Err("whole stream not delivered".into());
        }
        if r.chance(1, 3) {
            a = reload(&saved(&a)?)?;
        }
        for _ in 0..4 {
            let t = seek_time(r, &c, full.len() / c.ch);
            a.seek(SeekFrom::Start(t));
            ops.push(t);
            let part = if r.chance(1, 3) { Some(r.below(40) as usize) } else { None };
            let got = match part {
                None => drain(&mut a)?,
                Some(n) => {
                    let mut buf = vec![0.0; n];
                    let k = a.decode(&mut buf).unwrap_or(0);
                    buf.truncate(k);
                    buf
                }
            };
            let fits = positions(c.rate, t).iter().any(|&p| {
                let from = (p.saturating_mul(c.ch as u64)).min(full.len() as u64) as usize;
                let mut want = &full[from..];
                if let Some(n) = part {
                    want = &want[..want.len().min(n / c.ch * c.ch)];
                }
                same("", &got, want).is_ok()
            });
            if !fits {
                return Err(format!("after seeking to {} ms (position {}) the stream goes on with {} samples {:?}", t, positions(c.rate, t)[1], got.len(), &got[..got.len().min(6)]));
            }
        }
        Ok(())
    })()).map_err(|e| format!("{}; seeks {:?}", e, ops))?;
    Ok(format!("{}; seeks {:?}", show(&c), ops))
}
fn c06(r: &mut Rng, size: usize) -> Outcome {
    let level = r.pick(&[0, 0, 0, 4]);
    let ch = channels(r);
    let wild = level == 0;
    let (s1, s2) = if size == 5 && r.chance(1, 2) { (1, 5) } else { (size, size.min(3)) };
    let ch = if size == 5 { ch.min(2) } else { ch };
    let c1 = clip_with(r, s1, level, ch, wild);
    let mut c2 = clip_with(r, s2, level, c1.ch, wild);
    c2.rate = c1.rate;
    let mut trail = String::new();
    fails(&c2, (|| {
        let (mut a, _) = encoded(r, &c1)?;
        for _ in 0..r.below(3) {
            match r.below(3) {
                0 => {
                    let mut b = vec![0.0; r.below(300) as usize];
                    a.decode(&mut b);
                    trail += "decode,";
                }
                1 => {
                    a.seek(SeekFrom::Start(r.below(400)));
                    trail += "seek,";
                }
                _ => {
                    a = reload(&saved(&a)?)?;
                    trail += "save+load,";
                }
            }
        }
        if r.chance(1, 2) {
            a.seek(SeekFrom::Start(0));
        } else {
            a.init();
        }
        let all = feed(r, &mut a, &c2)?;
        let count = a.calculate_sample_count_per_channel();
        if !all.is_empty() && count != (all.len() / c1.ch) as u64 {
            return Err(format!("reports {} samples per channel", count));
        }
        if all.is_empty() {
            return Ok(());
        }
        let check = |what: &str, got: Vec<f32>| if level == 0 { same(what, &got, &lossless(&all)) } else { near(what, &got, &all, level) };
        let mut b = reload(&saved(&a)?)?;
        a.seek(SeekFrom::Start(0));
        check("re-encoded stream", drain(&mut a)?)?;
        check("re-encoded, saved and loaded stream", drain(&mut b)?)?;
        let t = seek_time(r, &c2, all.len() / c1.ch);
        a.seek(SeekFrom::Start(t));
        let got = drain(&mut a)?;
        let ok = positions(c2.rate, t).iter().any(|&p| {
            let from = p.saturating_mul(c1.ch as u64).min(all.len() as u64) as usize;
            (if level == 0 { same("", &got, &lossless(&all[from..])) } else { near("", &got, &all[from..], level) }).is_ok()
        });
        if !ok && t != 0 {
            return Err(format!("after re-encoding, a seek to {} ms delivers {} samples", t, got.len()));
        }
        Ok(())
    })()).map_err(|e| format!("{}; the earlier recording: {} then {}", e, show(&c1), trail))?;
    Ok(format!("{} | {} | {}", show(&c1), trail, show(&c2)))
}
fn c07(r: &mut Rng, size: usize) -> Outcome {
    if r.chance(1, 3) {
        let ch = channels(r);
        let c = clip_with(r, size.min(3), 0, ch, true);
        let mut w = WavCodec::new(info(&c));
        feed(r, &mut w, &c)?;
        let mut v = vec![];
        w.save_to(&mut v).map_err(|e| e.to_string())?;
        if w.filesize_upperbound() != v.len() as u64 * 8 {
            return Err(format!("WAV of {} bytes, {} bits announced; {}", v.len(), w.filesize_upperbound(), show(&c)));
        }
        return Ok(format!("wav {}", show(&c)));
    }
    let level = r.below(11) as u32;
    let c = clip(r, size, level);
    fails(&c, (|| {
        let (mut a, _) = encoded(r, &c)?;
        for step in 0..4 {
            let up = Streamable::filesize_upperbound(&a);
            let len = saved(&a)?.len() as u64;
            if up < len * 8 {
                return Err(format!("step {}: saved file has {} bits, only {} announced", step, len * 8, up));
            }
            match r.below(4) {
                0 => { drain(&mut a)?; }
                1 => a.seek(SeekFrom::Start(seek_time(r, &c, 100))),
                2 => a = reload(&saved(&a)?)?,
                _ => { a.init(); feed(r, &mut a, &c)?; }
            }
        }
        Ok(())
    })())?;
    Ok(show(&c))
}
fn c08(r: &mut Rng, size: usize) -> Outcome {
    let level = r.pick(&[0, 0, 0, 2, 10]);
    let c = clip(r, size, level);
    fails(&c, (|| {
        let (a, all) = encoded(r, &c)?;
        let len = saved(&a)?.len() as u64;
        let blocks: u64 = c.blocks.iter().map(|b| ((b.len() / c.ch) as u64 + 65534) / 65535 * c.ch as u64).sum();
        let bound = all.len() as u64 * 18 / 8 + blocks * 17 + 256;
        if len > bound {
            return Err(format!("{} samples in {} frames take {} bytes, more than {}", all.len(), blocks, len, bound));
        }
        Ok(())
    })())?;
    Ok(show(&c))
}
fn c19(r: &mut Rng, size: usize) -> Outcome {
    let level = r.below(11) as u32;
    let c = clip(r, size, level);
    fails(&c, (|| {
        let mut a = fresh(&c);
        let mut n = 0;
        for b in &c.blocks {
            if a.encode_counted(b) != b.len() {
                return Err(format!("encode of {} samples reported something else", b.len()));
            }
            n += b.len() / c.ch;
            if size == 5 && !r.chance(1, 9000) {
                continue;
            }
            let k = a.calculate_sample_count_per_channel();
            if k != n as u64 {
                return Err(format!("{} samples per channel encoded, {} reported", n, k));
            }
        }
        if r.chance(1, 2) {
            a = reload(&saved(&a)?)?;
        } else {
            a.seek(SeekFrom::Start(r.below(100)));
        }
        if a.calculate_sample_count_per_channel() != n as u64 {
            return Err(format!("{} samples per channel encoded, {} reported later", n, a.calculate_sample_count_per_channel()));
        }
        a.seek(SeekFrom::Start(0));
        let d = drain(&mut a)?;
        if d.len() != n * c.ch {
            return Err(format!("{} samples per channel reported, {} delivered in all", n, d.len()));
        }
        if size == 5 {
            // the file of a recording of more than 2^32 samples, but for the samples themselves
            let mut v = saved(&a)?;
            if !long_frames(&c, &mut v).is_empty() {
                if let Some(b) = AdhocCodec::load(Cursor::new(&v)) {
                    let want = c.blocks.len() as u64 * 65535;
                    if b.calculate_sample_count_per_channel() != want {
                        return Err(format!("{} frames of 65535 samples in each channel of a file, {} samples per channel reported", c.blocks.len(), b.calculate_sample_count_per_channel()));
                    }
                }
            }
        }
        Ok(())
    })())?;
    Ok(show(&c))
}
trait Counted {
    fn encode_counted(&mut self, b: &[f32]) -> usize;
}
impl Counted for AdhocCodec {
    fn encode_counted(&mut self, b: &[f32]) -> usize {
        Streamable::encode(self, b).unwrap_or(usize::MAX)
    }
}
/// makes every frame of a saved file 65535 samples long, going by its list of frame sizes
fn long_frames(c: &Clip, v: &mut [u8]) -> &'static str {
    let frames: Vec<u16> = c.blocks.iter().flat_map(|b| vec![(b.len() / c.ch) as u16; c.ch]).collect();
    let n = frames.len();
    let head = (n as u64).to_le_bytes();
    for i in 0..v.len().saturating_sub(8 + 2 * n) {
        if v[i..i + 8] == head && frames.iter().enumerate().all(|(k, f)| v[i + 8 + 2 * k..i + 10 + 2 * k] == f.to_le_bytes()) {
            v[i + 8..i + 8 + 2 * n].fill(0xff);
            return "every frame 65535 samples long ";
        }
    }
    ""
}
/// takes elements away from, or adds some to, something that looks like a list (a length in eight bytes, then elements of s bytes)
fn resize_list(r: &mut Rng, v: &mut Vec<u8>) -> String {
    let mut lists = vec![];
    for i in 0..v.len().saturating_sub(8) {
        let l = u64::from_le_bytes(v[i..i + 8].try_into().unwrap()) as usize;
        if l > 0 && l < 5000 {
            for s in [1usize, 2, 6, 8, 16] {
                if i + 8 + l * s <= v.len() {
                    lists.push((i, l, s));
                }
            }
        }
    }
    if lists.is_empty() {
        return String::new();
    }
    // the lists are near the front, where the lengths of the smaller ones are
    let (i, l, s) = if r.chance(1, 2) { lists[r.below(lists.len() as u64) as usize] } else { lists[r.below(lists.len().min(12) as u64) as usize] };
    let n = if r.chance(1, 3) { 0 } else if r.chance(1, 2) { l - 1 - r.below(l.min(3) as u64) as usize } else { l + 1 + r.below(3) as usize };
    v[i..i + 8].copy_from_slice(&(n as u64).to_le_bytes());
    if n < l {
        v.drain(i + 8 + n * s..i + 8 + l * s);
    } else {
        for _ in 0..(n - l) * s {
            v.insert(i + 8 + l * s, r.next() as u8);
        }
    }
    format!("list of {} elements of {} bytes at {} resized to {} ", l, s, i, n)
}
fn mutate(r: &mut Rng, v: &mut Vec<u8>) -> String {
    let mut what = String::new();
    for _ in 0..1 + r.below(4) {
        if v.is_empty() {
            break;
        }
        match r.below(10) {
            6 | 7 => what += &resize_list(r, v),
            8 => {
                // a number a little off, or far off
                let i = r.below(v.len().min(200) as u64) as usize;
                let d = r.pick(&[1i32, -1, 2, -2, 16, 64]);
                what += &format!("[{}]+={} ", i, d);
                v[i] = (v[i] as i32 + d) as u8;
            }
            9 => {
                let i = r.below(v.len() as u64) as usize;
                let n = (r.below(400) as usize).min(v.len() - i);
                let x = r.pick(&[0u8, 0xff]);
                what += &format!("[{}..+{}]={} ", i, n, x);
                for b in &mut v[i..i + n] {
                    *b = x;
                }
            }
            0 => {
                let i = r.below(v.len() as u64) as usize;
                let x = r.next() as u8;
                what += &format!("[{}]={} ", i, x);
                v[i] = x;
            }
            1 => {
                let i = r.below(v.len().min(120) as u64) as usize;
                let x = r.pick(&[0u8, 1, 0xff, 0x7f, 0x80, 2]);
                what += &format!("[{}]={} ", i, x);
                v[i] = x;
            }
            2 => {
                let n = r.below(v.len() as u64 + 1) as usize;
                what += &format!("cut to {} ", n);
                v.truncate(n);
            }
            3 => {
                let i = r.below(v.len() as u64) as usize;
                let n = (r.pick(&[1u64, 4, 8, 16, 3]) as usize).min(v.len() - i);
                let x = r.pick(&[0u8, 0xff, 0x7f]);
                what += &format!("[{}..+{}]={} ", i, n, x);
                for b in &mut v[i..i + n] {
                    *b = x;
                }
            }
            4 => {
                let i = r.below(v.len() as u64 + 1) as usize;
                let x = r.next() as u8;
                v.insert(i, x);
                what += &format!("insert {} at {} ", x, i);
            }
            _ => {
                let i = v.len() - 1 - r.below(v.len().min(60) as u64) as usize;
                let x = r.next() as u8;
                what += &format!("[{}]={} ", i, x);
                v[i] = x;
            }
        }
    }
    what
}
fn hex(v: &[u8]) -> String {
    let s: String = v.iter().take(3000).map(|b| format!("{:02x}", b)).collect();
    format!("{} bytes {}", v.len(), s)
}
fn c18(r: &mut Rng, size: usize) -> Outcome {
    let level = r.below(11) as u32;
    let c = clip(r, if size == 5 { 5 } else { size.min(2) }, level);
    let (bytes, what) = if size == 5 {
        let (a, _) = encoded(r, &c)?;
        let mut v = saved(&a)?;
        let mut w = long_frames(&c, &mut v).to_string();
        if r.chance(1, 3) {
            w += &mutate(r, &mut v);
        }
        (v, w)
    } else if r.chance(1, 10) {
        let n = r.below(400) as usize;
        ((0..n).map(|_| r.next() as u8).collect::<Vec<u8>>(), "random bytes".to_string())
    } else {
        let (a, _) = encoded(r, &c)?;
        let mut v = saved(&a)?;
        let w = mutate(r, &mut v);
        (v, w)
    };
    let mut step = "load";
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if let Some(mut a) = AdhocCodec::load(Cursor::new(&bytes)) {
            step = "info";
            let ch = a.info().channels();
            a.calculate_sample_count_per_channel();
            step = "filesize_upperbound";
            Streamable::filesize_upperbound(&a);
            step = "decode";
            let mut buf = vec![0.0f32; 600];
            for _ in 0..30 {
                if let Some(n) = a.decode(&mut buf) {
                    if n > 600 || n % ch.max(1) != 0 {
                        panic!("decode reported {}", n);
                    }
                }
            }
            step = "save";
            saved(&a).unwrap();
            for t in [0, 1, 30, 100000, 1 << 40, u64::MAX] {
                step = "seek";
                a.seek(SeekFrom::Start(t));
                step = "decode after seek";
                a.decode(&mut buf);
            }
            true
        } else {
            false
        }
    }));
    match res {
        Ok(ok) => Ok(format!("{} -> {}", what, if ok { "accepted" } else { "rejected" })),
        Err(e) => {
            let t = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("{} of a damaged file ({}) panicked: {}; {}", step, what, t, hex(&bytes)))
        }
    }
}

/* ---------- WAV ---------- */
/// a writer that takes a few bytes at a time and gets interrupted
struct Trickle {
    got: Vec<u8>,
    rng: Rng,
    limit: usize,
}
impl Write for Trickle {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.rng.chance(1, 5) {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.got.len() >= self.limit {
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        let n = (1 + self.rng.below(9) as usize).min(b.len()).min(self.limit - self.got.len());
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// a reader that gives a few bytes at a time
struct Drip<'a> {
    c: Cursor<&'a [u8]>,
    rng: Rng,
    whole: bool,
}
impl<'a> Read for Drip<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = if self.whole { b.len() } else { b.len().min(1 + self.rng.below(60) as usize) };
        self.c.read(&mut b[..n])
    }
}
impl<'a> Seek for Drip<'a> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.c.seek(p)
    }
}
fn wav_load(r: &mut Rng, v: &[u8]) -> Result<WavCodec, &'static str> {
    let whole = r.chance(1, 2);
    WavCodec::load(Drip { c: Cursor::new(v), rng: r.clone(), whole })
}
fn wav_clip(r: &mut Rng, size: usize) -> Clip {
    let size = size.min(4);
    let ch = channels(r);
    clip_with(r, size.min(3), 0, ch, true)
}
fn c12(r: &mut Rng, size: usize) -> Outcome {
    let c = wav_clip(r, size);
    fails(&c, (|| {
        let mut w = WavCodec::new(info(&c));
        let all = feed(r, &mut w, &c)?;
        let want = lossless(&all);
        let mut v = vec![];
        w.save_to(&mut v).map_err(|e| e.to_string())?;
        w.seek(SeekFrom::Start(0));
        same("encode then decode", &drain(&mut w)?, &want)?;
        let mut l = wav_load(r, &v).map_err(|e| format!("load of a saved file failed: {}", e))?;
        if l.info().channels() != c.ch || l.info().frequency() != c.rate as usize {
            return Err(format!("loaded as {} channels at {} Hz", l.info().channels(), l.info().frequency()));
        }
        same("save, load, decode", &drain(&mut l)?, &want)?;
        let mut v2 = vec![];
        l.save_to(&mut v2).map_err(|e| e.to_string())?;
        if v2 != v {
            return Err("saving the loaded file gives other bytes".into());
        }
        // any buffer sizes
        l.seek(SeekFrom::Start(0));
        let mut pos = 0;
        for _ in 0..60 {
            let len = r.below(3 * c.ch as u64 + 40) as usize;
            let mut b = vec![9.25f32; len];
            let expect = (len / c.ch * c.ch).min(want.len() - pos);
            let got = l.decode(&mut b);
            if got != (if expect > 0 { Some(expect) } else { None }) {
                return Err(format!("decode into {} at {} of {} reported {:?}", len, pos, want.len(), got));
            }
            same("piecewise decode", &b[..expect], &want[pos..pos + expect])?;
            if b[expect..].iter().any(|&x| x != 9.25) {
                return Err("decode changed the buffer past the reported samples".into());
            }
            pos += expect;
        }
        Ok(())
    })())?;
    Ok(show(&c))
}
fn c13(r: &mut Rng, size: usize) -> Outcome {
    let mut c = wav_clip(r, size);
    if r.chance(1, 8) {
        let ch = r.pick(&[200, 255, 2047, 2048, 5000, 16383, 16384, 32767]);
        c = clip_with(r, if ch > 255 { 0 } else { 1 }, 0, ch, false);
    }
    if r.chance(1, 6) {
        c.rate = r.pick(&[384000, 705600, 100_000_000, 134_217_728, 2_000_000_000, u32::MAX]);
    }
    c.rate = c.rate.min(u32::MAX / 2 / c.ch as u32);
    fails(&c, (|| {
        let mut w = WavCodec::new(info(&c));
        let all = feed(r, &mut w, &c)?;
        let n = (all.len() * 2) as u32;
        let mut want = vec![];
        want.extend_from_slice(b"RIFF");
        want.extend_from_slice(&(36 + n).to_le_bytes());
        want.extend_from_slice(b"WAVEfmt ");
        want.extend_from_slice(&16u32.to_le_bytes());
        want.extend_from_slice(&1u16.to_le_bytes());
        want.extend_from_slice(&(c.ch as u16).to_le_bytes());
        want.extend_from_slice(&c.rate.to_le_bytes());
        want.extend_from_slice(&(c.rate * c.ch as u32 * 2).to_le_bytes());
        want.extend_from_slice(&(c.ch as u16 * 2).to_le_bytes());
        want.extend_from_slice(&16u16.to_le_bytes());
        want.extend_from_slice(b"data");
        want.extend_from_slice(&n.to_le_bytes());
        for &s in &all {
            want.extend_from_slice(&q16(s).to_le_bytes());
        }
        if r.chance(1, 2) {
            w.seek(SeekFrom::Start(r.below(20)));
        }
        let mut t = Trickle { got: vec![], rng: r.clone(), limit: usize::MAX };
        w.save_to(&mut t).map_err(|e| e.to_string())?;
        if t.got != want {
            let i = t.got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(t.got.len().min(want.len()));
            return Err(format!("saved file ({} bytes, expected {}) is wrong at byte {}", t.got.len(), want.len(), i));
        }
        let limit = r.below(want.len() as u64) as usize;
        let mut t = Trickle { got: vec![], rng: r.clone(), limit };
        if w.save_to(&mut t).is_ok() {
            return Err(format!("saving succeeded although only {} bytes could be written", limit));
        }
        Ok(())
    })())?;
    Ok(show(&c))
}
/// a WAV file made by hand: (bytes, channels, rate, expected samples)
fn wav_file(r: &mut Rng, size: usize) -> (Vec<u8>, usize, u32, Vec<f32>, String) { wav_file_of(r, size.min(2)) }
fn wav_file_of(r: &mut Rng, size: usize) -> (Vec<u8>, usize, u32, Vec<f32>, String) {
    let ch = channels(r);
    let rt = rate(r);
    let bits8 = r.chance(1, 3);
    let sets = block_len(r, size);
    let extra = r.pick(&[0usize, 0, 0, 2, 18, 26, 120, 200]);
    let mut data = vec![];
    let mut want = vec![];
    for _ in 0..sets * ch {
        if bits8 {
            let b = if r.chance(1, 3) { r.pick(&[0u8, 255, 128, 127]) } else { r.next() as u8 };
            data.push(b);
            want.push(((b as f32 / 255.0) * 2.0 - 1.0).clamp(-1.0, 1.0));
        } else {
            let v = if r.chance(1, 4) { r.pick(&[i16::MIN, i16::MAX, 0, -1, 1]) } else { r.next() as i16 };
            data.extend_from_slice(&v.to_le_bytes());
            want.push(v as f32 / 32767.0);
        }
    }
    let mut v = vec![];
    v.extend_from_slice(b"RIFF");
    v.extend_from_slice(&(36 + data.len() as u32 + extra as u32).to_le_bytes());
    v.extend_from_slice(b"WAVEfmt ");
    v.extend_from_slice(&16u32.to_le_bytes());
    v.extend_from_slice(&1u16.to_le_bytes());
    v.extend_from_slice(&(ch as u16).to_le_bytes());
    v.extend_from_slice(&rt.to_le_bytes());
    let bps = if bits8 { 1 } else { 2 };
    v.extend_from_slice(&(rt * ch as u32 * bps).to_le_bytes());
    v.extend_from_slice(&(ch as u16 * bps as u16).to_le_bytes());
    v.extend_from_slice(&(if bits8 { 8u16 } else { 16 }).to_le_bytes());
    if extra >= 8 {
        v.extend_from_slice(b"LIST");
        v.extend_from_slice(&((extra - 8) as u32).to_le_bytes());
        for _ in 0..extra - 8 {
            v.push((r.next() as u8) & 0x3f);
        }
    } else {
        v.extend(std::iter::repeat(0u8).take(extra));
    }
    let tail = r.pick(&[0usize, 0, 1, 8, 40]);
    v.extend_from_slice(b"data");
    v.extend_from_slice(&(data.len() as u32).to_le_bytes());
    v.extend_from_slice(&data);
    for _ in 0..tail {
        v.push(r.next() as u8);
    }
    let d = format!("{}-bit wav, {} channels at {} Hz, {} sets, {} bytes before data, {} after", if bits8 { 8 } else { 16 }, ch, rt, sets, extra, tail);
    (v, ch, rt, want, d)
}
fn c14(r: &mut Rng, size: usize) -> Outcome {
    let (mut v, ch, rt, want, mut d) = wav_file(r, size);
    if r.chance(1, 3) {
        let mut l = wav_load(r, &v).map_err(|e| format!("{} rejected: {}; {}", d, e, hex(&v)))?;
        if l.info().channels() != ch || l.info().frequency() != rt as usize {
            return Err(format!("{} loaded as {} channels at {} Hz", d, l.info().channels(), l.info().frequency()));
        }
        let got = drain(&mut l)?;
        if got.len() != want.len() {
            return Err(format!("{}: {} samples loaded, expected {}; {}", d, got.len(), want.len(), hex(&v)));
        }
        for i in 0..got.len() {
            if (got[i] - want[i]).abs() > 1.2e-4 {
                return Err(format!("{}: sample {} is {}, expected {}; {}", d, i, got[i], want[i], hex(&v)));
            }
        }
        return Ok(d);
    }
    if r.chance(1, 10) {
        let n = r.below(400) as usize;
        v = (0..n).map(|_| r.next() as u8).collect();
        if r.chance(1, 2) && n > 60 {
            let at = 36 + r.below(20) as usize;
            v[at..at + 4].copy_from_slice(b"data");
        }
        d = "random bytes".into();
    } else {
        let w = mutate(r, &mut v);
        d = format!("{} damaged: {}", d, w);
    }
    let mut step = "load";
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<&str, String> {
        if let Ok(mut l) = wav_load(r, &v) {
            step = "decode";
            let ch = l.info().channels();
            if ch == 0 {
                return Err("accepted with 0 channels".into());
            }
            let mut buf = vec![0.0f32; 4096];
            let mut total = 0;
            while let Some(n) = l.decode(&mut buf) {
                if n % ch != 0 {
                    return Err(format!("delivers a partial set: {} samples for {} channels", n, ch));
                }
                if buf[..n].iter().any(|x| !(x.abs() <= 1.0001)) {
                    return Err("delivers a sample outside [-1,1]".into());
                }
                total += n;
            }
            if total > v.len() {
                return Err(format!("delivers {} samples from {} bytes", total, v.len()));
            }
            step = "seek";
            l.seek(SeekFrom::Start(3));
            l.seek(SeekFrom::End(-3));
            step = "save";
            l.save_to(&mut vec![]).ok();
            Ok("accepted")
        } else {
            Ok("rejected")
        }
    }));
    match res {
        Ok(Ok(s)) => Ok(format!("{} -> {}", d, s)),
        Ok(Err(e)) => Err(format!("{}: {}; {}", d, e, hex(&v))),
        Err(e) => {
            let t = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if step == "save" && t.contains("overflow") {
                return Ok(format!("{} -> accepted, header fields too big to save", d));
            }
            Err(format!("{} of {} panicked: {}; {}", step, d, t, hex(&v)))
        }
    }
}
fn seek_offsets(rate: u32, ms: i64) -> [i64; 2] {
    let single = ((rate as f32 / 1000.0) * (ms as f32)) as i64;
    let exact = ((rate as i128) * (ms as i128) / 1000).clamp(i64::MIN as i128, i64::MAX as i128) as i64;
    [single, exact]
}
fn c15(r: &mut Rng, size: usize) -> Outcome {
    let size = size.min(4);
    let mut c = wav_clip(r, size);
    if r.chance(1, 2) {
        c.rate = r.pick(&[1000, 2000, 8000]);
    }
    let mut log = vec![];
    fails(&c, (|| {
        let mut w = WavCodec::new(info(&c));
        let all = feed(r, &mut w, &c)?;
        let want = lossless(&all);
        let sets = (want.len() / c.ch) as i64;
        let dur = sets * 1000 / c.rate as i64;
        // candidates for the position (in sets); they only differ when single precision rounds
        let mut poss = vec![sets];
        for _ in 0..6 {
            let k = r.below(3);
            let t: i64 = match r.below(8) {
                0 => 0,
                1 => dur,
                2 => dur + 1 + r.below(1000) as i64,
                3 => r.pick(&[i64::MAX, 1 << 40]),
                _ => r.below(dur as u64 + 2) as i64,
            };
            let (p, base) = match k {
                0 => (SeekFrom::Start(t as u64), 0),
                1 => {
                    let t = if r.chance(1, 2) { -t } else { t };
                    (SeekFrom::Current(t), 1)
                }
                _ => {
                    let t = if r.chance(3, 4) { -t } else { t };
                    (SeekFrom::End(t), 2)
                }
            };
            let d = match p { SeekFrom::Start(t) => t as i64, SeekFrom::Current(t) | SeekFrom::End(t) => t };
            log.push(format!("{:?}", p));
            w.seek(p);
            let mut next = vec![];
            for o in seek_offsets(c.rate, d) {
                for &b in &poss {
                    let from = match base { 0 => 0, 1 => b, _ => sets };
                    next.push((from as i128 + o as i128).clamp(0, sets as i128) as i64);
                }
            }
            next.sort();
            next.dedup();
            let n = r.below(5) as usize * c.ch + r.below(c.ch as u64) as usize;
            let mut buf = vec![0.0f32; n];
            let got = w.decode(&mut buf).unwrap_or(0);
            let whole = n / c.ch;
            poss = next
                .iter()
                .filter(|&&p| {
                    let k = (whole as i64).min(sets - p) as usize;
                    got == k * c.ch && same("", &buf[..got], &want[p as usize * c.ch..p as usize * c.ch + got]).is_ok()
                })
                .map(|&p| p + (got / c.ch) as i64)
                .collect();
            if poss.is_empty() {
                return Err(format!("after {:?} decode delivers {} samples {:?}; expected position(s) {:?} of {}", log, got, &buf[..got.min(6)], next, sets));
            }
        }
        Ok(())
    })())?;
    Ok(format!("{}; {:?}", show(&c), log))
}
fn c16(r: &mut Rng, size: usize) -> Outcome {
    let size = size.min(4);
    let mut c = wav_clip(r, size);
    c.rate = 1000;
    let mut log = vec![];
    fails(&c, (|| {
        let mut w = WavCodec::new(info(&c));
        let mut model: Vec<f32> = lossless(&feed(r, &mut w, &c)?);
        for _ in 0..4 {
            let sets = model.len() / c.ch;
            let p = r.below(sets as u64 + 2).min(16_000_000) as usize;
            w.seek(SeekFrom::Start(p as u64));
            let at = p.min(sets) * c.ch;
            let skip = r.below(3) as usize * c.ch;
            let mut buf = vec![0.0; skip];
            let got = w.decode(&mut buf).unwrap_or(0);
            let at = at + got;
            let len = block_len(r, size.min(2)).min(r.below(2 * sets as u64 + 6) as usize);
            let patch = interleave(r, len, c.ch, true);
            let n = w.encode(&patch);
            if n != Some(patch.len()) {
                return Err(format!("encode of {} samples reported {:?}", patch.len(), n));
            }
            log.push((at / c.ch, len));
            let pl = lossless(&patch);
            if at + pl.len() > model.len() {
                model.resize(at + pl.len(), 0.0);
            }
            model[at..at + pl.len()].copy_from_slice(&pl);
            // it goes on right behind the patch
            let mut buf = vec![0.0; 2 * c.ch];
            let got = w.decode(&mut buf).unwrap_or(0);
            let rest = &model[at + pl.len()..];
            same("right behind the patch", &buf[..got], &rest[..rest.len().min(2 * c.ch)])?;
            w.seek(SeekFrom::Start(0));
            same("after overwriting", &drain(&mut w)?, &model)?;
        }
        Ok(())
    })()).map_err(|e| format!("{}; patches (position, length) {:?}", e, log))?;
    Ok(format!("{}; patches {:?}", show(&c), log))
}
/// every float there is: share k of 6, in increasing order, by single-precision values through the WAV codec
fn every_float(share: u64) -> Outcome {
    let total = 1u64 << 32;
    let (lo, hi) = (total * share / 6, total * (share + 1) / 6);
    // key k is the k-th float in the total order
    let at = |k: u64| {
        let k = k as u32;
        f32::from_bits(if k < 0x8000_0000 { !k } else { k ^ 0x8000_0000 })
    };
    let mut last = (f32::NEG_INFINITY, -2.0f32);
    let mut k = lo.saturating_sub(1);
    while k < hi {
        let n = (hi - k).min(1 << 18);
        let v: Vec<f32> = (k..k + n).map(at).collect();
        let mut w = WavCodec::new(StreamInfo::new(8000, 1));
        w.encode(&v);
        w.seek(SeekFrom::Start(0));
        let mut got = vec![0f32; v.len()];
        if w.decode(&mut got) != Some(v.len()) {
            return Err("samples lost".to_string());
        }
        check_monotone(0, &v, &got, &mut last)?;
        k += n;
    }
    Ok(format!("every float from {:?} to {:?}", at(lo), at(hi - 1)))
}
fn check_monotone(kind: usize, v: &[f32], got: &[f32], last: &mut (f32, f32)) -> Result<(), String> {
    for (&s, &g) in v.iter().zip(got) {
        let ok = if s.is_nan() { g == 0.0 } else {
            let cl = s.max(-1.0).min(1.0);
            g.abs() <= 1.0 && (g as f64 - cl as f64).abs() <= 1.0 / 32767.0 + 1e-9 && g.abs() as f64 <= cl.abs() as f64 + 1e-7
        };
        if !ok {
            return Err(format!("codec {} turns the sample {:?} (bits {:08x}) into {:?}", kind, s, s.to_bits(), g));
        }
        if !s.is_nan() {
            if s >= last.0 && g < last.1 {
                return Err(format!("codec {}: {:?} -> {:?} but the smaller {:?} -> {:?}", kind, s, g, last.0, last.1));
            }
            *last = (s, g);
        }
    }
    Ok(())
}
static EVERY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);
fn c17(r: &mut Rng, _size: usize) -> Outcome {
    if EVERY.swap(false, std::sync::atomic::Ordering::Relaxed) {
        if let Some(k) = std::env::var("VERIF_SHARE").ok().and_then(|s| s.parse::<u64>().ok()) {
            if k < 6 {
                return every_float(k);
            }
        }
    }
    let mut v: Vec<f32> = (0..200).map(|_| match r.below(4) {
        0 => f32::from_bits(r.next() as u32),
        1 => r.unit() * 2.2 - 1.1,
        2 => {
            let b = ((r.range(-32768, 32768) as f32) / 32767.0).to_bits();
            f32::from_bits((b as i64 + r.range(-2, 2)).max(0) as u32)
        }
        _ => r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, 0.0, -0.0, 1.0, -1.0, 1.0000001, -1.0000001, 1e-40]),
    }).collect();
    v.sort_by(|a, b| a.total_cmp(b));
    for kind in 0..2 {
        let i = StreamInfo::new(8000, 1);
        let mut w: Box<dyn Streamable> = if kind == 0 { Box::new(WavCodec::new(i)) } else { Box::new(AdhocCodec::new().with_info(i)) };
        w.encode(&v);
        w.seek(SeekFrom::Start(0));
        let got = drain(&mut *w)?;
        if got.len() != v.len() {
            return Err(format!("codec {}: {} of {} samples", kind, got.len(), v.len()));
        }
        let mut last = (f32::NEG_INFINITY, -2.0f32);
        check_monotone(kind, &v, &got, &mut last)?;
    }
    Ok(format!("{:?}..", &v[..3]))
}

/// the command line tool, run on files in a scratch directory: there and back
fn c20(r: &mut Rng, size: usize) -> Outcome {
    use std::path::{Path, PathBuf};
    use std::process::{Command, Stdio};
    let tool = match std::env::var("VERIF_CLI") { Ok(t) => t, Err(_) => return Ok("trivial".into()) };
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    struct Scratch(PathBuf);
    impl Drop for Scratch { fn drop(&mut self) { std::fs::remove_dir_all(&self.0).ok(); } }
    let base = std::env::var("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let s = Scratch(base.join(format!("c20_{}_{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed))));
    let (inp, mid, back) = (s.0.join("in"), s.0.join("mid"), s.0.join("back"));
    for d in [&inp, &mid, &back] { std::fs::create_dir_all(d).map_err(|e| e.to_string())?; }
    let mut names = vec!["a", "take.1", "take.2", "my song", "x.wav", "v.adhoc", ".hidden", "B", "1.2.3", "long name with many words in it - final (2)", "\u{e4}\u{f6}"];
    let n = 1 + r.below(4) as usize;
    let level = if r.chance(1, 6) { None } else { Some(r.below(13) as u32) };
    let lvl = level.unwrap_or(5).min(10);
    let mut files = vec![];
    let mut text = String::new();
    for _ in 0..n {
        let name = names.remove(r.below(names.len() as u64) as usize);
        let (v, ch, rt, want, d) = if r.chance(1, 8) { wide_file(r) } else { wav_file_of(r, size.min(3)) };
        std::fs::write(inp.join(format!("{}.wav", name)), &v).map_err(|e| e.to_string())?;
        text += &format!("{:?}: {}; ", name, d);
        files.push((name, ch, rt, want));
    }
    let mut args: Vec<PathBuf> = files.iter().map(|f| inp.join(format!("{}.wav", f.0))).collect();
    if r.chance(1, 5) {
        std::fs::write(inp.join("junk.wav"), b"this is not a sound file").ok();
        args.push(inp.join("junk.wav"));
        args.push(inp.join("nothing.wav"));
    }
    let run = |args: &[PathBuf], dir: &Path, level: Option<u32>| -> Result<(), String> {
        let mut c = Command::new(&tool);
        c.args(args).arg("-o").arg(dir);
        if let Some(l) = level { c.arg("-c").arg(l.to_string()); }
        let o = c.stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
        if !o.status.success() {
            return Err(format!("the tool ended with {}: {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>()));
        }
        Ok(())
    };
    (|| -> Result<(), String> {
        run(&args, &mid, level)?;
        let mut heard = vec![];
        for (name, ch, rt, want) in &files {
            let b = std::fs::read(mid.join(format!("{}.adhoc", name))).map_err(|e| format!("no {}.adhoc is made: {}", name, e))?;
            let mut a = reload(&b).map_err(|e| format!("{}.adhoc: {}", name, e))?;
            if a.info().channels() != *ch || a.info().frequency() != *rt as usize {
                return Err(format!("{}.adhoc has {} channels at {} Hz", name, a.info().channels(), a.info().frequency()));
            }
            let got = drain(&mut a)?;
            close(&format!("{}.adhoc", name), &got, want, lvl, 2e-4)?;
            // a level has steps of 2^level sixteen-bit units
            if let Some(x) = got.iter().find(|&&x| { let k = x as f64 * 32767.0 / (1u32 << lvl) as f64; (k - k.round()).abs() > 0.02 }) {
                return Err(format!("{}.adhoc is not coded at level {}: it plays {:?}", name, lvl, x));
            }
            heard.push(got);
        }
        let args: Vec<PathBuf> = files.iter().map(|f| mid.join(format!("{}.adhoc", f.0))).collect();
        run(&args, &back, level)?;
        for ((name, ch, rt, want), heard) in files.iter().zip(&heard) {
            let b = std::fs::read(back.join(format!("{}.wav", name))).map_err(|e| format!("no {}.wav is made: {}", name, e))?;
            let le4 = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
            let le2 = |i: usize| u16::from_le_bytes([b[i], b[i + 1]]);
            if b.len() != 44 + 2 * want.len() || &b[0..4] != b"RIFF" || le2(22) as usize != *ch || le4(24) != *rt || le2(34) != 16 || le4(40) as usize != 2 * want.len() {
                return Err(format!("{}.wav: {} bytes for {} samples, {:?}", name, b.len(), want.len(), &b[..b.len().min(44)]));
            }
            let got: Vec<f32> = b[44..].chunks(2).map(|x| deq(i16::from_le_bytes([x[0], x[1]]))).collect();
            close(&format!("{}.wav", name), &got, want, lvl, 2e-4)?;
            same(&format!("{}.wav against what {}.adhoc plays", name, name), &got, &lossless(heard))?;
        }
        Ok(())
    })().map_err(|e| format!("{}; level {:?}; {}", e, level, text))?;
    Ok(format!("level {:?}; {}", level, text))
}
fn close(what: &str, got: &[f32], want: &[f32], level: u32, slack: f64) -> Result<(), String> {
    if got.len() != want.len() { return Err(format!("{}: {} samples, expected {}", what, got.len(), want.len())); }
    let bound = slack + if level == 0 { 0.0 } else { (1u32 << level) as f64 / 32767.0 + 0.001 };
    for i in 0..got.len() {
        let d = (got[i] as f64 - want[i].max(-1.0) as f64).abs();
        if !(d <= bound) { return Err(format!("{}: sample {} is {:?}, was {:?}", what, i, got[i], want[i])); }
    }
    Ok(())
}
/// a WAV file of very many channels
fn wide_file(r: &mut Rng) -> (Vec<u8>, usize, u32, Vec<f32>, String) {
    let ch = r.pick(&[341usize, 1000, 1023, 1024, 1025, 1500, 2048, 3000]);
    let sets = r.range(0, 5) as usize;
    let mut data = vec![];
    let mut want = vec![];
    for _ in 0..sets * ch {
        let v = r.next() as i16;
        data.extend_from_slice(&v.to_le_bytes());
        want.push(v as f32 / 32767.0);
    }
    let mut v = vec![];
    v.extend_from_slice(b"RIFF");
    v.extend_from_slice(&(36 + data.len() as u32).to_le_bytes());
    v.extend_from_slice(b"WAVEfmt ");
    v.extend_from_slice(&16u32.to_le_bytes());
    v.extend_from_slice(&1u16.to_le_bytes());
    v.extend_from_slice(&(ch as u16).to_le_bytes());
    v.extend_from_slice(&8000u32.to_le_bytes());
    v.extend_from_slice(&(8000 * ch as u32 * 2).to_le_bytes());
    v.extend_from_slice(&((ch * 2) as u16).to_le_bytes());
    v.extend_from_slice(&16u16.to_le_bytes());
    v.extend_from_slice(b"data");
    v.extend_from_slice(&(data.len() as u32).to_le_bytes());
    v.extend_from_slice(&data);
    let d = format!("16-bit wav, {} channels, {} sets", ch, sets);
    (v, ch, 8000, want, d)
}

fn main() {
    const P: &[Property] = &[
        Property { id: "C01", rule: "clips of 1-17 channels, 1-5 encode calls of 0..131073 sets, 13 kinds of signal, a stray partial set now and then; encode, rewind, decode; compared with the 16-bit value of every sample", case: c01 },
        Property { id: "C02", rule: "as C01 with samples in [-1,1] and level 1-10; every sample within 2^L/32767+0.001 of what was encoded", case: c02 },
        Property { id: "C03", rule: "random clips read through random buffer sizes; counts, contents, tail of the buffer and the end of the stream", case: c03 },
        Property { id: "C04", rule: "random clips saved and loaded; info, count, full decode and decode after three seeks against the original", case: c04 },
        Property { id: "C05", rule: "random clips, four random seeks with full or partial decodes in between", case: c05 },
        Property { id: "C06", rule: "random clip, random use, rewind, encode another clip; only the second one may be heard, counted, saved or sought", case: c06 },
        Property { id: "C07", rule: "announced size against the saved size, over decode/seek/reload/re-encode", case: c07 },
        Property { id: "C08", rule: "saved size at most 18 bits a sample plus 17 bytes a frame plus 256", case: c08 },
        Property { id: "C12", rule: "random clips through the WAV codec, through save and load, through random buffer sizes", case: c12 },
        Property { id: "C13", rule: "saved WAV bytes against a reference header, through a writer that takes few bytes at a time; a writer that fails", case: c13 },
        Property { id: "C14", rule: "hand made WAV files (8/16 bit, extra chunks, tails), intact and damaged, and random bytes", case: c14 },
        Property { id: "C15", rule: "random sequences of the three kinds of seek with partial decodes in between", case: c15 },
        Property { id: "C16", rule: "random in-place overwrites against a list model", case: c16 },
        Property { id: "C17", rule: "random and special f32 values, sorted, through both codecs", case: c17 },
        Property { id: "C18", rule: "saved files with 1-4 random changes, and random bytes; load, decode, seek, save", case: c18 },
        Property { id: "C20", rule: "the built command line tool on 1-4 WAV files (8/16 bit, extra chunks, up to 3000 channels, names with dots and blanks, sometimes with files among them that are none), level 0-12 or none; the ADHOC files, and the WAV files they are converted back to", case: c20 },
        Property { id: "C19", rule: "reported against encoded samples per channel", case: c19 },
    ];
    main_with("api", P)
}
