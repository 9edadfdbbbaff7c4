//! Oracles over the private building blocks. This file is compiled as a module at the end of a copy of
//! /repo's own crate root (see tools/inner.py), so that it can see the private modules without a hook.
use crate::{codec, collections};
use codec::adhoc::{AudioStream, FrameCodec, FrameHeader, FrameHeaders};
use collections::*;
use oracle::*;

fn mask(n: usize) -> u128 {
    if n >= 128 { !0 } else { (1u128 << n) - 1 }
}
/// bits that depend on their position
fn filler(at: u64, n: usize) -> u128 {
    let x = (at + 128) / 128;
    let chunk = (x as u128).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835);
    (chunk >> (at % 128)) & mask(n)
}
/// stores 2^23 or 2^32 bits, a few less or more
fn fill(r: &mut Rng, s: &mut BitStream) -> usize {
    let chunks = if r.chance(1, 3) { 1u64 << 25 } else { 1 << 16 } - r.below(3);
    for i in 0..chunks {
        s.write_bits(filler(i * 128, 128), 128);
    }
    chunks as usize * 128
}
/// the store is a string of bits; nothing below the write changes, what was written reads back
fn c09(r: &mut Rng, size: usize) -> Outcome {
    let mut s = BitStream::new();
    let mut model: Vec<u8> = vec![];
    let mut log = String::new();
    let ops = [12, 40, 120, 400, 1500, 600][size];
    // very long storage: positions are counted from here
    let base = if size == 5 { fill(r, &mut s) } else { 0 };
    if base > 0 {
        log += &format!("{} bits written before;", base);
    }
    for _ in 0..ops {
        match r.below(9) {
            0..=3 => {
                let n = r.pick(&[1usize, 2, 3, 7, 8, 15, 16, 17, 31, 32, 63, 64, 65, 100, 127, 128, 0]);
                let v = (((r.next() as u128) << 64) | r.next() as u128) & mask(n);
                let v = if r.chance(1, 4) { mask(n) } else { v };
                let at = s.bit_cursor() as usize - base;
                log += &format!("write({:#x},{})@{};", v, n, at);
                s.write_bits(v, n);
                model.resize(model.len().max(at + n), 0);
                for j in 0..n {
                    model[at + j] = ((v >> j) & 1) as u8;
                }
                model.truncate(at + n);
            }
            4 => {
                let b = r.below(2) as u8;
                let at = s.bit_cursor() as usize - base;
                log += &format!("bit({})@{};", b, at);
                s.write_bit(b);
                model.resize(model.len().max(at + 1), 0);
                model[at] = b;
                model.truncate(at + 1);
            }
            5 => {
                let at = s.bit_cursor() as usize - base;
                log += &format!("u16@{};", at);
                let v = r.next() as u16;
                s.write::<u16>(v);
                model.resize(model.len().max(at + 16), 0);
                for j in 0..16 {
                    model[at + j] = ((v >> j) & 1) as u8;
                }
                model.truncate(at + 16);
            }
            6 => {
                let at = r.below(model.len() as u64 + 1) as usize;
                log += &format!("cursor={};", at);
                s.set_bit_cursor((base + at) as u128);
            }
            _ => {
                let at = s.bit_cursor() as usize - base;
                let n = r.below(129).min((model.len() - at.min(model.len())) as u64) as usize;
                let want = (0..n).fold(0u128, |acc, j| acc | ((model[at + j] as u128) << j));
                let got = match r.below(3) {
                    0 => s.peek_bits(n),
                    1 if n >= 1 => {
                        let g = s.read_bit();
                        if g != want & 1 {
                            return Err(format!("bit {} reads as {} after {}", at, g, log));
                        }
                        if s.bit_cursor() as usize != base + at + 1 {
                            return Err(format!("cursor at {} after one bit at {}", s.bit_cursor(), at));
                        }
                        continue;
                    }
                    _ => {
                        let g = s.read_bits(n);
                        if s.bit_cursor() as usize != base + at + n {
                            return Err(format!("cursor at {} after {} bits at {}", s.bit_cursor(), n, at));
                        }
                        g
                    }
                };
                if got != want {
                    return Err(format!("{} bits at {} read as {:#x}, stored {:#x}, after {}", n, at, got, want, log));
                }
            }
        }
        if base + model.len() > s.capacity_upperbound() {
            return Err(format!("{} bits stored, capacity {} after {}", model.len(), s.capacity_upperbound(), log));
        }
    }
    if base > 0 {
        s.set_bit_cursor(base as u128 - 64);
        let got = s.read_bits(64);
        if got != filler(base as u64 - 64, 64) {
            return Err(format!("the 64 bits before position {} read {:#x}; after {}", base, got, log));
        }
    } else {
        s.seek_start();
    }
    for (i, &b) in model.iter().enumerate() {
        if s.read_bit() != b as u128 {
            return Err(format!("bit {} changed; after {}", i, log));
        }
    }
    Ok(log.chars().take(300).collect())
}
fn rice_bits(k: i16, e: i16) -> u64 {
    ((e.unsigned_abs() as u64) >> k) + k as u64 + 2
}
fn c10(r: &mut Rng, size: usize) -> Outcome {
    let mut s = BitStream::new();
    let n = [1, 3, 30, 200, 2000, 400][size];
    let start = r.below(300) as usize;
    let base = if size == 5 { fill(r, &mut s) } else { 0 };
    let mut stale = r.chance(1, 2);
    if stale {
        for _ in 0..60 {
            s.write_bits(!0u128, 128);
        }
        s.set_bit_cursor(base as u128);
    }
    for _ in 0..start {
        s.write_bit((start & 1) as u8);
    }
    let mut items = vec![];
    for _ in 0..n {
        let k = r.range(0, 15) as i16;
        let e = match r.below(6) {
            0 => r.pick(&[0, 1, -1, i16::MAX, i16::MIN, i16::MIN + 1]),
            1 => r.next() as i16,
            2 => r.range(-3, 3) as i16,
            3 => ((1i32 << k) * r.range(-1, 1) as i32 + r.range(-1, 1) as i32).clamp(-32768, 32767) as i16,
            _ => r.range(-3000, 3000) as i16,
        };
        let at = s.bit_cursor() as u64;
        s.write_compressed(k, e);
        let used = s.bit_cursor() as u64 - at;
        if used != rice_bits(k, e) {
            return Err(format!("residual {} with parameter {} takes {} bits at {}, expected {}", e, k, used, at, rice_bits(k, e)));
        }
        items.push((k, e));
    }
    let start = base + start;
    s.set_bit_cursor(start as u128);
    for (i, &(k, e)) in items.iter().enumerate() {
        let g = s.read_compressed(k);
        if g != e {
            return Err(format!("code {} of {}: wrote {} with parameter {}, read {} (first code at bit {}, {:?})", i, items.len(), e, k, g, start, &items[..items.len().min(20)]));
        }
    }
    Ok(format!("at {}: {:?}", start, &items[..items.len().min(12)]))
}
fn c11(r: &mut Rng, size: usize) -> Outcome {
    let mut h = FrameHeaders::new();
    let mut model: Vec<(u8, u16, u64, bool, [i16; 3])> = vec![];
    let ops = [4, 20, 200, 700, 3000, 2000][size];
    let mut log = String::new();
    let mut cur = 0usize;
    if size == 5 {
        // past 2^16 entries, or 2^16 words of flags
        let n = if r.chance(1, 4) { 1 << 22 } else { 1 << 16 } as u64 - r.below(300);
        for _ in 0..n {
            let e = (r.below(16) as u8, r.next() as u16, r.next() >> r.below(60), r.chance(1, 3), [r.next() as i16, r.next() as i16, r.next() as i16]);
            h.push(FrameHeader { exponent: e.0, size: e.1, bit_cursor: e.2 as u128, is_init: e.3, stack_history: e.4 });
            model.push(e);
        }
        cur = model.len();
        log += &format!("{} entries;", cur);
    }
    for _ in 0..ops {
        // a move back throws away what is behind it
        match if size == 5 { r.pick(&[2, 2, 3, 4, 5, 6, 7, 8]) } else { r.below(8) } {
            8 => {
                cur = model.len() - r.below(model.len().min(600) as u64) as usize;
                h.set_cursor(cur as u32);
                log += &format!("cursor={};", cur);
            }
            0 => {
                h.reset();
                cur = 0;
                log += "reset;";
            }
            1 if model.len() > 0 => {
                cur = r.below(model.len() as u64 + 1) as usize;
                h.set_cursor(cur as u32);
                log += &format!("cursor={};", cur);
            }
            2 => {
                let got = h.next();
                let want = model.get(cur).cloned();
                if got.as_ref().map(|g| (g.exponent, g.size, g.bit_cursor as u64, g.is_init, g.stack_history)) != want {
                    return Err(format!("entry {} comes out of the iteration wrong, stored {:?}, after {}", cur, want, log));
                }
                if want.is_some() {
                    cur += 1;
                }
                log += "next;";
            }
            _ => {
                let e = (r.below(16) as u8, r.next() as u16, r.next() >> r.below(60), r.chance(1, 3), [r.next() as i16, r.next() as i16, r.next() as i16]);
                h.push(FrameHeader { exponent: e.0, size: e.1, bit_cursor: e.2 as u128, is_init: e.3, stack_history: e.4 });
                model.truncate(cur);
                model.push(e);
                cur += 1;
                log += &format!("push{:?};", e);
            }
        }
        if h.len() != model.len() {
            return Err(format!("{} entries stored, {} reported, after {}", model.len(), h.len(), log));
        }
        if model.len() > 0 && r.chance(1, 3) {
            let i = r.below(model.len() as u64) as usize;
            let g = h.get(i).map(|g| (g.exponent, g.size, g.bit_cursor as u64, g.is_init, g.stack_history));
            if g != Some(model[i]) {
                return Err(format!("entry {} reads as {:?}, stored {:?}, after {}", i, g, model[i], log));
            }
        }
    }
    for i in 0..model.len() + 2 {
        let g = h.get(i).map(|g| (g.exponent, g.size, g.bit_cursor as u64, g.is_init, g.stack_history));
        if g != model.get(i).cloned() {
            return Err(format!("entry {} of {} reads as {:?}, stored {:?}, after {}", i, model.len(), g, model.get(i), log));
        }
    }
    Ok(log.chars().take(300).collect())
}
/// every block is coded with the cheapest of the parameters 1..15
fn c08(r: &mut Rng, size: usize) -> Outcome {
    let mut s = AudioStream::new();
    let mut h = FrameHeaders::new();
    let mut fc = FrameCodec::new();
    let mut frames = vec![];
    for _ in 0..1 + r.below(4) {
        let n = (match size.min(4) { 0 => r.below(6), 1 => r.below(40), 2 => r.below(300), 3 => r.below(3000), _ => 65535 - r.below(4) }) as usize;
        let wild = r.chance(1, 2);
        let mut v = gen_samples(r, n.max(1), wild);
        let gain = if r.chance(1, 2) { 1.0 } else { 0.5f32.powi(r.below(15) as i32) };
        v.iter_mut().for_each(|x| *x *= gain);
        frames.push(v);
    }
    for v in &frames {
        fc.encode_frame(&mut s, &mut h, v);
    }
    let total = s.bit_cursor() as u64;
    for (i, v) in frames.iter().enumerate() {
        let hd = h.get(i).ok_or("missing frame")?;
        s.set_bit_cursor(hd.bit_cursor);
        let raw = if hd.is_init { v.len().min(3) } else { 0 };
        for _ in 0..raw {
            s.read::<u16>();
        }
        let res: Vec<i16> = (raw..v.len()).map(|_| s.read_compressed(hd.exponent as i16)).collect();
        let end = h.get(i + 1).map(|x| x.bit_cursor as u64).unwrap_or(total);
        let used = end - hd.bit_cursor as u64;
        let cost = |k: i16| 16 * raw as u64 + res.iter().map(|&e| rice_bits(k, e)).sum::<u64>();
        for k in 1..16 {
            if cost(k) < used {
                return Err(format!("block {} of {} samples takes {} bits with parameter {}, parameter {} would take {}; samples {:?}", i, v.len(), used, hd.exponent, k, cost(k), &v[..v.len().min(40)]));
            }
        }
    }
    Ok(format!("{:?}", frames.iter().map(|f| (f.len(), f[0])).collect::<Vec<_>>()))
}
/// the history against a list of pushes
fn c21(r: &mut Rng, size: usize) -> Outcome {
    let mut h: CircularStack<i16> = CircularStack::new();
    let mut model: Vec<i16> = vec![];
    let mut log = String::new();
    for _ in 0..[6, 20, 60, 200, 1000, 5000][size] {
        if r.chance(3, 10) && !model.is_empty() {
            let got = h.pop();
            let want = model.pop().unwrap();
            log += "pop;";
            if got != want {
                return Err(format!("pop gives {}, last push was {}, after {}", got, want, log));
            }
        } else {
            let x = r.next() as i16;
            h.push(x);
            log += &format!("push {};", x);
            model.push(x);
            if model.len() > 4 {
                model.remove(0);
            }
        }
        if h.len() != model.len() {
            return Err(format!("{} samples held, {} reported after {}", model.len(), h.len(), log));
        }
        if h.is_empty() != model.is_empty() {
            return Err(format!("{} samples held, empty: {} after {}", model.len(), h.is_empty(), log));
        }
        if !model.is_empty() {
            let o = 1 + r.below(4) as usize;
            let want = model[model.len() - o.min(model.len())];
            let got = h.prev(o as u32);
            if got != want {
                return Err(format!("offset {} gives {}, expected {} after {}", o, got, want, log));
            }
        }
    }
    Ok(log.chars().take(300).collect())
}
/// the queue against VecDeque
fn c22(r: &mut Rng, size: usize) -> Outcome {
    let cap = 1usize << r.below(6);
    let mut q = FixedRingBuffer::new(vec![0u32; cap + r.below(3) as usize], cap as u32);
    let mut model: std::collections::VecDeque<u32> = Default::default();
    let mut log = format!("cap {};", cap);
    for i in 0..[8u32, 30, 100, 400, 2000, 4000][size] {
        let what = r.below(21);
        log += &format!("{};", what);
        match what {
            0..=5 => {
                q.push_rear(i);
                if model.len() < cap { model.push_back(i) }
            }
            6..=11 => {
                q.push_front(i);
                if model.len() < cap { model.push_front(i) }
            }
            12..=15 => {
                let (a, b) = (q.pop_front().cloned(), model.pop_front());
                if a != b {
                    return Err(format!("pop_front gives {:?}, expected {:?}, after {}", a, b, log));
                }
            }
            16..=19 => {
                let (a, b) = (q.pop_rear().cloned(), model.pop_back());
                if a != b {
                    return Err(format!("pop_rear gives {:?}, expected {:?}, after {}", a, b, log));
                }
            }
            _ if r.chance(1, 10) => {
                q.clear();
                model.clear();
            }
            _ => {}
        }
        if q.len() != model.len() || q.is_empty() != model.is_empty() || q.is_full() != (model.len() == cap) {
            return Err(format!("{} items held, {} reported after {}", model.len(), q.len(), log));
        }
        if !q.iter().eq(model.iter()) {
            return Err(format!("holds {:?}, expected {:?} after {}", q.iter().collect::<Vec<_>>(), model, log));
        }
    }
    Ok(log.chars().take(300).collect())
}
/// the list against a vector of pointers and items, iterated every so often
fn c23(r: &mut Rng, size: usize) -> Outcome {
    let mut l: LinkedList<u32> = LinkedList::new();
    let mut model: Vec<(Ptr, u32)> = vec![];
    let mut most = 0;
    let mut log = String::new();
    if size == 5 && r.chance(1, 8) {
        // pointers of more than 16 bits
        let many = 65530 + r.below(20) as u32;
        log += &format!("{} items pushed;", many);
        for i in 0..many {
            l.push_rear(i);
            model.push((l.rear(), i));
        }
        most = model.len();
    }
    let n = if most > 0 { 60 } else { [8u32, 30, 100, 400, 2000, 4000][size] };
    for i in 0..n {
        let what = r.below(24);
        let k = if model.is_empty() { 0 } else { r.below(model.len() as u64) as usize };
        log += &format!("{}@{};", what, k);
        let at = |l: &LinkedList<u32>, p: Ptr| l.get(p).and_then(|n| n.data().cloned());
        match what {
            0..=3 => {
                l.push_front(i);
                model.insert(0, (l.front(), i));
            }
            4..=7 => {
                l.push_rear(i);
                model.push((l.rear(), i));
            }
            8..=10 => {
                let (a, b) = (l.pop_front(), if model.is_empty() { None } else { Some(model.remove(0).1) });
                if a != b {
                    return Err(format!("pop_front gives {:?}, expected {:?}, after {}", a, b, log));
                }
            }
            11..=13 => {
                let (a, b) = (l.pop_rear(), model.pop().map(|x| x.1));
                if a != b {
                    return Err(format!("pop_rear gives {:?}, expected {:?}, after {}", a, b, log));
                }
            }
            14..=16 if !model.is_empty() => {
                let (a, b) = (l.remove_at(model[k].0), model.remove(k).1);
                if a != Some(b) {
                    return Err(format!("remove_at gives {:?}, expected {:?}, after {}", a, b, log));
                }
            }
            17..=20 => {
                let node = if model.is_empty() { NULL } else { model[k].0 };
                let left = r.chance(1, 2);
                l.insert_at(node, if left { InsertDirection::Left } else { InsertDirection::Right }, i);
                let k = if model.is_empty() || left { k } else { k + 1 };
                // the pointer of the new item is the one between those of its neighbours
                let p = LinkedListIterator::new(&l).nth(k);
                match p {
                    Some(p) => model.insert(k, (p, i)),
                    None => return Err(format!("nothing inserted at {} after {}", k, log)),
                }
            }
            21 if !model.is_empty() => {
                match l.get_mut(model[k].0).and_then(|n| n.data_mut()) {
                    Some(x) => *x = i,
                    None => return Err(format!("no item behind the pointer of item {} after {}", k, log)),
                }
                model[k].1 = i;
            }
            22 if !model.is_empty() => l.insert_at(NULL, InsertDirection::Left, i),
            23 if r.chance(1, 4) => {
                l.iter_mut().zip(model.iter_mut()).for_each(|(a, b)| {
                    *a += 7;
                    b.1 += 7;
                });
            }
            _ => {}
        }
        most = most.max(model.len());
        let front = model.first().map(|x| x.0).unwrap_or(NULL);
        let rear = model.last().map(|x| x.0).unwrap_or(NULL);
        if l.len() != model.len() || l.front() != front || l.rear() != rear {
            return Err(format!("{} items from {:?} to {:?}, {} reported from {:?} to {:?}, after {}", model.len(), front, rear, l.len(), l.front(), l.rear(), log));
        }
        if size < 4 || i % 16 == 0 || i + 1 == n {
            if !l.iter().eq(model.iter().map(|x| &x.1)) {
                let p = l.iter().zip(model.iter()).position(|(a, b)| *a != b.1).unwrap_or(l.iter().count().min(model.len()));
                return Err(format!("item {} of {} is {:?}, expected {:?} after {}", p, model.len(), l.iter().nth(p), model.get(p).map(|x| x.1), log));
            }
            if let Some(x) = model.iter().find(|x| at(&l, x.0) != Some(x.1)) {
                return Err(format!("{:?} gives {:?}, expected {} after {}", x.0, at(&l, x.0), x.1, log));
            }
            if l.get(Ptr::from(most)).is_some() {
                return Err(format!("more than {} nodes kept for at most {} items after {}", most, most, log));
            }
        }
    }
    Ok(log.chars().take(300).collect())
}
/// the cache against a vector of entries, the one used last first
fn c24(r: &mut Rng, size: usize) -> Outcome {
    let cap = if r.chance(1, 3) { 1 + r.below(3) as usize } else { 1 + r.below([6u64, 12, 40, 100, 300, 700][size]) as usize };
    let mut c: LruCache<u64, u32> = LruCache::new(cap);
    let mut model: Vec<(u64, u32)> = vec![];
    let mut log = format!("capacity {};", cap);
    let keys = 1 + r.below(2 * cap as u64 + 2);
    for i in 0..[10u32, 40, 120, 400, 2000, 4000][size] {
        let what = r.below(16);
        let k = r.below(keys).wrapping_mul(0x1_0000_0001);
        log += &format!("{}:{};", what, k);
        let at = model.iter().position(|x| x.0 == k);
        match what {
            0..=5 => {
                c.put(k, i);
                match at {
                    Some(p) => { model.remove(p); }
                    None if model.len() == cap => { model.pop(); }
                    None => {}
                }
                model.insert(0, (k, i));
            }
            6..=8 => {
                let want = at.map(|p| { let e = model.remove(p); model.insert(0, e); e.1 });
                let got = c.get(&k).cloned();
                if got != want {
                    return Err(format!("get {} gives {:?}, expected {:?}, after {}", k, got, want, log));
                }
            }
            9..=10 => {
                let want = at.map(|p| { let e = model.remove(p); model.insert(0, (k, i)); e.1 });
                let got = c.get_mut(&k).map(|x| std::mem::replace(x, i));
                if got != want {
                    return Err(format!("get_mut {} gives {:?}, expected {:?}, after {}", k, got, want, log));
                }
            }
            11..=12 => {
                let want = at.map(|p| model.remove(p).1);
                let got = c.remove(&k);
                if got != want {
                    return Err(format!("remove {} gives {:?}, expected {:?}, after {}", k, got, want, log));
                }
            }
            _ => {
                let want = at.map(|p| model[p].1);
                let got = c.lookup(&k).cloned();
                if got != want {
                    return Err(format!("lookup {} gives {:?}, expected {:?}, after {}", k, got, want, log));
                }
            }
        }
        if c.len() != model.len() {
            return Err(format!("{} entries held, {} reported after {}", model.len(), c.len(), log));
        }
        if size < 4 || i % 64 == 0 {
            for k in (0..keys).map(|k| k.wrapping_mul(0x1_0000_0001)) {
                let want = model.iter().find(|x| x.0 == k).map(|x| x.1);
                let got = c.lookup(&k).cloned();
                if got != want {
                    return Err(format!("lookup {} gives {:?}, expected {:?}, after {}", k, got, want, log));
                }
            }
        }
    }
    Ok(log.chars().take(300).collect())
}
/// the packed lists of nibbles and bits against vectors
fn c25(r: &mut Rng, size: usize) -> Outcome {
    let (mut q, mut b) = (NibbleList::new(), BitVec::new());
    let (mut mq, mut mb): (Vec<u8>, Vec<u64>) = (vec![], vec![]);
    let mut log = String::new();
    let steps = [8usize, 30, 100, 400, 2000, 4000][size];
    let grow = r.chance(1, 2);
    if size == 5 && r.chance(1, 3) {
        log += "65530 of each;";
        for _ in 0..65530 {
            let v = r.next();
            q.push((v % 16) as u8);
            mq.push((v % 16) as u8);
            b.push(v);
            mb.push(v & 1);
        }
    }
    let long = mq.len() > 9000;
    for i in 0..steps {
        let what = if long { 5 + r.below(200) } else { r.below(if grow { 60 } else { 20 }) };
        let v = r.next();
        let at = |n: usize| if r_small(v) { n.saturating_sub(1 + (v >> 8) as usize % 3) } else { (v >> 8) as usize % n.max(1) };
        log += &format!("{} {};", what, v % 0xffff);
        match what {
            0 => if (v >> 4) & 1 == 1 { q.clear(); mq.clear() } else { b.clear(); mb.clear() },
            1 | 2 => {
                let n = at(mq.len() + 2);
                q.truncate(n);
                mq.truncate(n);
            }
            3 | 4 => {
                let n = at(mb.len() + 2);
                b.truncate(n);
                mb.truncate(n);
            }
            5 | 6 if !mq.is_empty() => {
                let n = at(mq.len());
                q.set(n, (v % 16) as u8);
                mq[n] = (v % 16) as u8;
            }
            7 | 8 if !mb.is_empty() => {
                let n = at(mb.len());
                b.set(n, v);
                mb[n] = v & 1;
            }
            _ => {
                q.push((v % 16) as u8);
                mq.push((v % 16) as u8);
                b.push(v);
                mb.push(v & 1);
            }
        }
        if q.len() != mq.len() || q.is_empty() != mq.is_empty() || b.len() != mb.len() {
            return Err(format!("{} nibbles and {} bits held, {} and {} reported after {}", mq.len(), mb.len(), q.len(), b.len(), log));
        }
        let (n, m) = (at(mq.len()), at(mb.len()));
        if (n < mq.len() && q.get(n) != mq[n]) || (m < mb.len() && b.get(m) != mb[m]) {
            return Err(format!("nibble {} is {}, bit {} is {}, expected {:?} and {:?} after {}", n, q.get(n), m, b.get(m), mq.get(n), mb.get(m), log));
        }
        if i % (if long { 500 } else { 16 }) == 0 || i + 1 == steps || mq.len() < 20 {
            if !q.iter().eq(mq.iter().cloned()) {
                let k = q.iter().zip(mq.iter()).position(|(x, &y)| x != y).unwrap_or(mq.len());
                return Err(format!("nibbles from {} on: {:?}, expected {:?} after {}", k, q.iter().skip(k).take(20).collect::<Vec<_>>(), mq.iter().skip(k).take(20).collect::<Vec<_>>(), log));
            }
            if !b.iter().eq(mb.iter().cloned()) {
                let k = b.iter().zip(mb.iter()).position(|(x, &y)| x != y).unwrap_or(mb.len());
                return Err(format!("bits from {} on: {:?}, expected {:?} after {}", k, b.iter().skip(k).take(20).collect::<Vec<_>>(), mb.iter().skip(k).take(20).collect::<Vec<_>>(), log));
            }
        }
    }
    Ok(log.chars().take(300).collect())
}
fn r_small(v: u64) -> bool { v & 0x30000 == 0 }
pub fn main() {
    const P: &[Property] = &[
        Property { id: "C08", rule: "frames of random signals and gains encoded one after the other; residuals read back and priced with each of the 15 parameters", case: c08 },
        Property { id: "C09", rule: "random writes (0-128 bits), cursor moves, reads and peeks against a list of bits", case: c09 },
        Property { id: "C10", rule: "runs of residuals and parameters at any alignment, over clean or stale storage, priced and read back", case: c10 },
        Property { id: "C11", rule: "random pushes, cursor moves and reads against a list of entries", case: c11 },
        Property { id: "C21", rule: "random pushes and pops of the sample history against a list", case: c21 },
        Property { id: "C22", rule: "random pushes and pops at both ends of queues of capacity 1 to 32 against VecDeque", case: c22 },
        Property { id: "C23", rule: "random pushes, pops, insertions, removals and changes of a list against a vector of pointers and items", case: c23 },
        Property { id: "C24", rule: "random uses of caches of capacity 1 to 700 against a vector of entries in the order of their use", case: c24 },
        Property { id: "C25", rule: "random pushes, changes, truncations and clearings of the packed lists against vectors", case: c25 },
    ];
    main_with("inner", P)
}
