//! encodings: zigzag, delta and prefix varints are lossless and read only their input.
use crate::util::*;
use encodings::{delta, prefix_varint as pv, zigzag};

fn model(v: u64) -> Vec<u8> {
    // the documented layout: the tag's trailing zeros give the number of extra bytes
    let bits = 64 - v.leading_zeros();
    if bits > 56 {
        let mut out = vec![0];
        out.extend_from_slice(&v.to_le_bytes());
        return out;
    }
    let n = ((bits.max(1) + 6) / 7) as usize;
    let x = ((v as u128) << n) | (1u128 << (n - 1));
    x.to_le_bytes()[..n].to_vec()
}

pub fn case(seed: u64, case: u64, small: bool, rec: &mut Rec) {
    let mut r = Rng::new(seed, case, 0xe1);
    let n = if small { r.below(24) } else { r.below(200) } as usize;
    let style = r.below(4);
    let mut vals: Vec<u64> = vec![];
    for _ in 0..n {
        let v = match (style, vals.last()) {
            (0, Some(p)) => p.wrapping_add(r.below(1000)),
            (1, Some(p)) => p.wrapping_add(r.bits()),
            (2, Some(p)) if r.chance(30) => *p,
            _ => r.bits(),
        };
        vals.push(v);
    }
    rec.seen(("enc", &vals));
    rec.add("values", n as u64);
    let ivals: Vec<i64> = vals.iter().map(|v| *v as i64).collect();

    // zigzag is a bijection that keeps small magnitudes small
    for &v in &ivals {
        let z = zigzag::encode(v);
        let want = if v < 0 { ((-(v as i128)) * 2 - 1) as u64 } else { (v as u64) * 2 };
        if z != want {
            rec.fail("zigzag", format!("zigzag::encode({v}) = {z}, expected {want}"));
        }
        if zigzag::decode(z) != v || zigzag::encode(zigzag::decode(v as u64)) != v as u64 {
            rec.fail("zigzag", format!("zigzag does not round trip at {v}"));
        }
    }
    // the byte stream is the documented one, each length as announced
    let mut bytes = vec![];
    pv::compress_u64s_to_vec(&mut bytes, vals.iter().cloned());
    let mut want = vec![];
    for &v in &vals {
        let m = model(v);
        want.extend_from_slice(&m);
        let ex = Exact::new(&m);
        let (got, len) = pv::read_from_slice(ex.get());
        if got != v || len != m.len() {
            rec.fail("varint", format!("read_from_slice of the encoding of {v} gives {got}, {len} bytes; encoded in {}", m.len()));
        }
        if pv::prefix_length(m[0]) as usize != m.len() {
            rec.fail("varint", format!("prefix_length of the encoding of {v} is {}, it has {} bytes", pv::prefix_length(m[0]), m.len()));
        }
    }
    if bytes != want {
        rec.fail("varint", format!("the encoding of {vals:?} is not the documented one"));
    }
    let ex = Exact::new(&bytes);
    let back: Vec<u64> = pv::u64_decompressor(ex.get()).collect();
    if back != vals {
        rec.fail("varint", format!("u64 round trip: {vals:?} came back as {back:?}"));
    }
    rec.count("u64_round_trip");
    let mut bytes = vec![0xab, 0xcd];
    pv::compress_i64s_to_vec(&mut bytes, ivals.iter().cloned());
    if bytes[..2] != [0xab, 0xcd] {
        rec.fail("varint", "compressing into a vector changed what it held".into());
    }
    let ex = Exact::new(&bytes[2..]);
    let back: Vec<i64> = pv::i64_decompressor(ex.get()).collect();
    if back != ivals {
        rec.fail("varint", format!("i64 round trip: {ivals:?} came back as {back:?}"));
    }
    // deltas, whole and through the incremental compressors
    let mut c = pv::U64Compressor::with(delta::u64_encoder());
    if !c.is_empty() {
        rec.fail("compressor", "a new compressor is not empty".into());
    }
    for &v in &vals {
        c.push(v);
    }
    if c.is_empty() != vals.is_empty() {
        rec.fail("compressor", format!("is_empty after {} values", vals.len()));
    }
    let ex = Exact::new(&c.finish());
    let back: Vec<u64> = pv::u64_decompressor(ex.get()).map(delta::u64_decoder()).collect();
    if back != vals {
        rec.fail("delta", format!("u64 delta round trip: {vals:?} came back as {back:?}"));
    }
    let mut c = pv::I64Compressor::with(delta::i64_encoder());
    for &v in &ivals {
        c.push(v);
    }
    let ex = Exact::new(&c.finish());
    let back: Vec<i64> = pv::i64_decompressor(ex.get()).map(delta::i64_decoder()).collect();
    if back != ivals {
        rec.fail("delta", format!("i64 delta round trip: {ivals:?} came back as {back:?}"));
    }
    let mut c = pv::I64Compressor::new();
    let mut d = pv::U64Compressor::new();
    for (&v, &u) in ivals.iter().zip(&vals) {
        c.push(v);
        d.push(u);
    }
    if pv::i64_decompressor(&c.finish()).ne(ivals.iter().cloned()) || pv::u64_decompressor(&d.finish()).ne(vals.iter().cloned()) {
        rec.fail("compressor", format!("the plain compressors do not round trip {vals:?}"));
    }
    rec.count("delta_round_trip");
    // damaged streams: any bytes decode to something or panic, without reading past the end
    let mut bad = ex.get().to_vec();
    for _ in 0..r.below(4) {
        if bad.is_empty() {
            break;
        }
        let i = r.below(bad.len() as u64) as usize;
        match r.below(3) {
            0 => bad.truncate(i),
            1 => bad[i] ^= 1 << r.below(8),
            _ => bad.insert(i, r.next() as u8),
        }
    }
    let ex = Exact::new(&bad);
    let res = std::panic::catch_unwind(|| pv::u64_decompressor(ex.get()).map(delta::u64_decoder()).count());
    rec.count(if res.is_ok() { "damaged_read" } else { "damaged_refused" });
}
