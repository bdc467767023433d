//! hyperloglog++ core: the sketch is the pure function of the set of hashes the paper defines,
//! whatever the order, the grouping into sketches and the representation.
use crate::util::*;
use hyperloglogplusplus::{HyperLogLog, HyperLogLogStorage as St};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{BuildHasher, Hasher};

#[derive(Clone, PartialEq, Eq, Default)]
struct Id;
struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
impl BuildHasher for Id {
    type Hasher = IdHasher;
    fn build_hasher(&self) -> IdHasher {
        IdHasher(0)
    }
}

type H<'a> = HyperLogLog<'a, u64, Id>;

/// registers of the plain algorithm
fn registers(hashes: &BTreeSet<u64>, p: u8) -> Vec<u8> {
    let mut reg = vec![0u8; 1 << p];
    for &h in hashes {
        let idx = (h >> (64 - p)) as usize;
        let rest = h << p;
        let rho = if rest == 0 { 64 - p + 1 } else { rest.leading_zeros() as u8 + 1 };
        reg[idx] = reg[idx].max(rho);
    }
    reg
}

/// (index, count) pairs a sparse sketch keeps at its 25-bit precision
fn sparse_set(hashes: &BTreeSet<u64>, p: u8) -> BTreeMap<u32, u8> {
    let mut m = BTreeMap::new();
    for &h in hashes {
        let idx = (h >> 39) as u32;
        let between = (h << p) >> p >> 39;
        let low = h << 25;
        let count = if between != 0 { 0 } else if low == 0 { 40 } else { low.leading_zeros() as u8 + 1 };
        let e: &mut u8 = m.entry(idx).or_insert(0);
        *e = (*e).max(count);
    }
    m
}

fn dense_registers(bytes: &[u8], p: u8) -> Vec<u8> {
    // 6-bit registers, most significant bits first
    (0..1usize << p)
        .map(|i| {
            let bit = i * 6;
            let w = ((bytes[bit / 8] as u16) << 8) | bytes[bit / 8 + 1] as u16;
            ((w >> (10 - bit % 8)) & 0x3f) as u8
        })
        .collect()
}

fn state(h: &mut H) -> (bool, Vec<u8>, u64) {
    match h.to_parts() {
        St::Sparse(s) => (true, s.compressed.bytes().to_vec(), s.num_compressed),
        St::Dense(d) => (false, d.registers.bytes().to_vec(), 0),
    }
}

fn judge(what: &str, h: &mut H, set: &BTreeSet<u64>, p: u8, rec: &mut Rec) {
    let (sparse, bytes, num) = state(h);
    if sparse {
        rec.count("sparse");
        let want = sparse_set(set, p);
        if num != want.len() as u64 {
            rec.fail("hll:sparse-count", format!("{what} p={p}: {num} entries for {} distinct indexes", want.len()));
        }
        let got: Vec<(u32, u8)> = encodings::prefix_varint::u64_decompressor(&bytes)
            .map(encodings::delta::u64_decoder())
            .map(|v| v as u32)
            .map(|e| if e & 1 == 1 { (e >> 7, ((e >> 1) & 0x3f) as u8) } else { (e >> 1, 0) })
            .collect();
        let want: Vec<(u32, u8)> = want.into_iter().collect();
        if got != want {
            rec.fail("hll:sparse-entries", format!("{what} p={p}: entries {got:?} expected {want:?}"));
        }
        if let St::Sparse(s) = h.to_parts() {
            let d = s.immutable_to_dense();
            if dense_registers(d.registers.bytes(), p) != registers(set, p) {
                rec.fail("hll:to-dense", format!("{what} p={p}: the dense form of the sparse sketch loses information"));
            }
        }
        let m = (1u64 << 25) as f64;
        let est = (m * (m / (m - num as f64)).ln()) as u64;
        if h.immutable_estimate_count() != est {
            rec.fail("hll:sparse-estimate", format!("{what} p={p}: estimate {} expected {est}", h.immutable_estimate_count()));
        }
    } else {
        rec.count("dense");
        let (got, want) = (dense_registers(&bytes, p), registers(set, p));
        if got != want {
            let i = (0..got.len()).find(|&i| got[i] != want[i]).unwrap();
            rec.fail("hll:registers", format!("{what} p={p}: register {i} is {} expected {}", got[i], want[i]));
        }
        if bytes.len() != (1usize << p) * 6 / 8 + 1 || *bytes.last().unwrap() != 0xff {
            rec.fail("hll:registers", format!("{what} p={p}: {} bytes, the last {:x}", bytes.len(), bytes.last().unwrap()));
        }
        // the large range estimate is the harmonic mean; the others are bounded by it loosely
        let m = (1u64 << p) as f64;
        let sum: f64 = want.iter().map(|v| 2f64.powi(-(*v as i32))).sum();
        let a = match p { 4 => 0.673, 5 => 0.697, 6 => 0.709, _ => 0.7213 / (1.0 + 1.079 / m) };
        let e = a * m * m / sum;
        let got = h.immutable_estimate_count();
        if e > 5.0 * m && got != e as u64 && !(want.contains(&0)) {
            rec.fail("hll:estimate", format!("{what} p={p}: estimate {got} expected {}", e as u64));
        }
        let zeros = want.iter().filter(|v| **v == 0).count();
        if zeros as f64 > m * 0.9 {
            let lc = (m * (m / zeros as f64).ln()) as u64;
            if got != lc {
                rec.fail("hll:estimate", format!("{what} p={p}: estimate {got} with {zeros} empty registers, expected {lc} by linear counting"));
            }
        }
    }
}

fn fill(hashes: &[u64], p: u8) -> H<'static> {
    let mut h = H::new(p, Id);
    for v in hashes {
        h.add(v);
    }
    h
}

pub fn case(seed: u64, case: u64, small: bool, rec: &mut Rec) {
    let mut r = Rng::new(seed, case, 0x411);
    let p = if small { 4 + r.below(3) as u8 } else if r.chance(60) { 4 + r.below(6) as u8 } else { 4 + r.below(15) as u8 };
    let cap = if small { 60 } else if p > 12 { 3000 } else { 1 << (p as u64 + r.below(3)) };
    let n = 1 + r.below(cap);
    let style = r.below(5);
    let mut hashes: Vec<u64> = (0..n)
        .map(|_| match style {
            0 => r.next(),
            1 => r.bits(),
            // few indexes, all counts
            2 => ((r.below(4) << (64 - p)) | if r.chance(20) { 0 } else { (r.next() >> p) >> r.below(64 - p as u64) }).rotate_left(0),
            // same 25-bit prefix, different tails
            3 => (r.below(40) << 39) | (r.next() >> 25 >> r.below(39)),
            _ => r.next() & !(((1u64 << (39 - p as u64 % 20)) - 1) << r.below(20)),
        })
        .collect();
    let set: BTreeSet<u64> = hashes.iter().cloned().collect();
    rec.seen(("hll", p, &hashes));
    rec.add("hashes", n);

    let mut one = fill(&hashes, p);
    judge("one pass", &mut one, &set, p, rec);
    // another order, with repeats
    for i in (1..hashes.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        hashes.swap(i, j);
    }
    let dup: Vec<u64> = hashes.iter().chain(hashes.iter().take(r.below(n + 1) as usize)).cloned().collect();
    let mut two = fill(&dup, p);
    judge("reordered", &mut two, &set, p, rec);
    let (mut a, mut b) = (one.clone(), two.clone());
    if a.is_sparse() && b.is_sparse() && (state(&mut a) != state(&mut b) || a.estimate_count() != b.estimate_count()) {
        rec.fail("hll:order", format!("p={p}: two sparse sketches of the same set differ"));
    }
    // merged from pieces, in and out of the stored form
    let k = 1 + r.below(5);
    let mut pieces: Vec<Vec<u64>> = vec![vec![]; k as usize];
    for v in &dup {
        let i = if style == 0 { r.below(k) } else { r.below(k) * r.below(2) };
        pieces[i as usize].push(*v);
    }
    let mut acc = H::new(p, Id);
    let mut union = BTreeSet::new();
    for piece in &pieces {
        let mut h = fill(piece, p);
        let (sparse, bytes, num) = state(&mut h);
        let ex = Exact::new(&bytes);
        let stored = if sparse { H::from_sparse_parts(ex.get(), num, p, Id) } else { H::from_dense_parts(ex.get(), p, Id) };
        let owned = stored.into_owned();
        if r.chance(50) {
            acc.merge_in(&stored);
        } else {
            let mut left = owned.clone();
            acc.merge_all();
            left.merge_in(&acc);
            acc = left;
        }
        drop(stored);
        drop(ex);
        union.extend(piece.iter().cloned());
        judge("merged", &mut acc, &union, p, rec);
        let mut o = owned;
        judge("stored", &mut o, &piece.iter().cloned().collect(), p, rec);
    }
    rec.count("merged");
    // adding after a merge goes on as before
    let extra: Vec<u64> = (0..r.below(30)).map(|_| r.bits()).collect();
    for v in &extra {
        acc.add(v);
        union.insert(*v);
    }
    judge("after more values", &mut acc, &union, p, rec);
}
