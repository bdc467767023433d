//! flat_serialize: what is written is the documented layout, is read back the same, in place or
//! owned; a truncated input or an unknown tag is refused; nothing outside the given bytes is touched.
#![allow(clippy::all, dead_code, unused_parens)]
use crate::util::*;
use flat_serialize::{FlatSerializable, Slice, WrapErr};
use flat_serialize_macro::{flat_serialize, FlatSerializable};
use std::mem::MaybeUninit;

flat_serialize! {
    #[derive(Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
    struct Basic<'input> {
        header: u64,
        data_len: u32,
        array: [u16; 3],
        data: [u8; self.data_len],
        data2: [[u8; 2]; self.data_len / 3],
    }
}
flat_serialize! {
    #[derive(Debug, PartialEq, Eq)]
    struct Opt {
        header: u64,
        optional_field: u32 if self.header != 1,
        non_optional_field: u16,
    }
}
flat_serialize! {
    #[derive(Debug, PartialEq, Eq)]
    struct OptOpt {
        present: u64,
        val: Opt if self.present > 2,
    }
}
flat_serialize! {
    #[derive(Debug, PartialEq, Eq)]
    struct Opts<'b> {
        num_vals: u64,
        vals: [Opt; self.num_vals],
    }
}
flat_serialize! {
    #[derive(Debug, PartialEq, Eq)]
    struct Nested<'a> {
        prefix: u64,
        basic: Basic<'a>,
    }
}
flat_serialize! {
    #[derive(Debug, PartialEq, Eq)]
    enum Kind<'input> {
        k: u64,
        First: 2 {
            data_len: u32,
            data: [u8; self.data_len],
        },
        Fixed: 3 {
            array: [u16; 3],
        },
        Empty: 9 {
        },
        Opt: 1 {
            some: u64,
            inner: u64 if self.some > 7,
        },
    }
}
flat_serialize! {
    #[derive(Debug, PartialEq, Eq)]
    enum Padded<'input> {
        k: u8,
        First: 2 {
            padding: [u8; 3],
            data_len: u32,
            data: [u8; self.data_len],
        },
        Fixed: 3 {
            padding: u8,
            array: [u16; 3],
        },
    }
}
flat_serialize! {
    #[derive(Debug, PartialEq, Eq)]
    struct Kinds<'input> {
        count: u64,
        enums: [Kind<'input>; self.count],
    }
}
#[derive(FlatSerializable, Debug, PartialEq, Eq, Clone, Copy)]
#[repr(C)]
struct Pair {
    a: i64,
    b: u32,
    c: u32,
}
#[derive(FlatSerializable, Debug, PartialEq, Eq, Clone, Copy)]
#[repr(u8)]
enum Tag {
    Zero = 0,
    One = 1,
    Seven = 7,
    Last = 255,
}
#[derive(FlatSerializable, Debug, PartialEq, Eq, Clone, Copy)]
#[repr(u32)]
enum Wide {
    A = 0,
    B = 1_000_000_007,
}
flat_serialize! {
    #[derive(Debug, PartialEq)]
    struct Mixed<'input> {
        version: u8,
        flag: bool,
        tag: Tag,
        pad: u8,
        wide: Wide,
        sum: f64,
        n: u64,
        pairs: [Pair; self.n],
        floats: [f64; self.n + 1],
        tail: u8,
    }
}
flat_serialize! {
    #[derive(Debug, PartialEq)]
    struct Range {
        is_present: u8,
        has_left: u8,
        has_right: u8,
        padding: [u8; 5],
        left: i64 if self.is_present == 1 && self.has_left == 1,
        right: i64 if self.is_present == 1 && self.has_right == 1,
    }
}
flat_serialize! {
    #[derive(Debug, PartialEq)]
    struct Deep<'input> {
        n: u64,
        ranges: [Range; self.n],
        bits: [u8; (self.n + 7) / 8],
    }
}
flat_serialize! {
    #[derive(Debug, PartialEq)]
    struct Flat<'input> {
        version: u64,
        #[flat_serialize::flatten]
        kind: Kind<'input>,
    }
}

flat_serialize! {
    #[derive(Debug, PartialEq)]
    struct Arr {
        n: u64,
        three: [Range; 3],
    }
}

fn pod<T>(v: &T) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(v as *const T as *const u8, std::mem::size_of::<T>()) }.to_vec()
}

fn pad(mut b: Vec<u8>, to: usize) -> Vec<u8> {
    while b.len() % to != 0 {
        b.push(0)
    }
    b
}

/// a slice in one of the forms a value can hold it in
fn form<T: Clone>(r: &mut Rng, v: &'static [T]) -> Slice<'static, T> {
    if r.chance(50) { Slice::Slice(v) } else { Slice::Owned(v.to_vec()) }
}

fn leak<T>(v: Vec<T>, keep: &mut Vec<Box<dyn FnOnce()>>) -> &'static [T]
where
    T: 'static,
{
    // given back at the end of the case, so that the leak check stays meaningful
    let p: *mut [T] = Box::into_raw(v.into_boxed_slice());
    keep.push(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
    unsafe { &*p }
}

macro_rules! check {
    ($rec:ident, $r:ident, $T:ident, $val:expr, $model:expr) => {{
        let name = stringify!($T);
        let val = $val;
        let model: Vec<u8> = $model;
        $rec.seen((name, &model));
        $rec.count(name);
        if val.num_bytes() != model.len() {
            $rec.fail(&format!("flat:{name}:num_bytes"), format!("num_bytes is {} for {} bytes of {:?}", val.num_bytes(), model.len(), val));
        } else {
            // into a buffer that goes on after it
            let extra = $r.below(4) as usize * 8;
            let room: Vec<u64> = vec![0xa5a5_a5a5_a5a5_a5a5; (model.len() + extra) / 8 + 1];
            let mut room = room;
            let total = model.len() + extra;
            let out = unsafe { std::slice::from_raw_parts_mut(room.as_mut_ptr() as *mut MaybeUninit<u8>, total) };
            let rem = unsafe { val.fill_slice(out) };
            if rem.len() != extra {
                $rec.fail(&format!("flat:{name}:fill_slice"), format!("{} bytes left of {extra} after {:?}", rem.len(), val));
            }
            let out = unsafe { std::slice::from_raw_parts(room.as_ptr() as *const u8, total) };
            if out[..model.len()] != model[..] || out[model.len()..].iter().any(|b| *b != 0xa5) {
                $rec.fail(&format!("flat:{name}:fill_slice"), format!("{:?} was written as {:?}, expected {:?}", val, out, model));
            }
            // appended to a vector (whose bytes are 8-byte aligned, as the layout asks for; an
            // allocator that gives less than that, as Miri's does, is no use here)
            let mut v: Vec<u8> = Vec::with_capacity(model.len());
            if v.as_ptr() as usize % 8 == 0 && !cfg!(miri) {
                val.fill_vec(&mut v);
                if v != model {
                    $rec.fail(&format!("flat:{name}:fill_vec"), format!("{:?} was appended as {:?}, expected {:?}", val, v, model));
                }
            }
        }
        // read in place, with other bytes after it
        let mut with = model.clone();
        let tail_len = $r.below(5) as usize;
        let tail = $r.bytes(tail_len);
        with.extend_from_slice(&tail);
        let ex = Exact::new(&with);
        match unsafe { <$T>::try_ref(ex.forever()) } {
            Ok((back, rem)) => {
                if rem != &tail[..] {
                    $rec.fail(&format!("flat:{name}:rest"), format!("{} bytes left, expected {}", rem.len(), tail.len()));
                }
                if back != val {
                    $rec.fail(&format!("flat:{name}:round-trip"), format!("{:?} was read back as {:?}", val, back));
                }
                if back.num_bytes() != model.len() {
                    $rec.fail(&format!("flat:{name}:num_bytes"), format!("num_bytes of the value read is {} of {}", back.num_bytes(), model.len()));
                } else {
                    let mut room: Vec<u64> = vec![0; model.len() / 8 + 1];
                    let out = unsafe { std::slice::from_raw_parts_mut(room.as_mut_ptr() as *mut MaybeUninit<u8>, model.len()) };
                    let left = unsafe { back.fill_slice(out) }.len();
                    let out = unsafe { std::slice::from_raw_parts(room.as_ptr() as *const u8, model.len()) };
                    if left != 0 || out != &model[..] {
                        $rec.fail(&format!("flat:{name}:rewrite"), format!("the value read was written again as {:?}, expected {:?}", out, model));
                    }
                }
                // owned copies outlive the input
                let mut owned = back.clone();
                owned.make_owned();
                let kept = back.into_owned();
                let same = owned == val;
                if !same {
                    $rec.fail(&format!("flat:{name}:make_owned"), format!("make_owned gives {:?} for {:?}", owned, val));
                }
                let _ = owned;
                drop(ex);
                if kept != val {
                    $rec.fail(&format!("flat:{name}:into_owned"), format!("into_owned gives {:?} for {:?}", kept, val));
                }
            }
            Err(e) => $rec.fail(&format!("flat:{name}:refused"), format!("{:?} was refused: {:?}", val, e)),
        }
        // every truncation is refused, and only by its length
        let cuts: Vec<usize> = if model.len() < 80 { (0..model.len()).collect() } else {
            (0..40).map(|_| $r.below(model.len() as u64) as usize).chain([model.len() - 1, 0]).collect()
        };
        for cut in cuts {
            let ex = Exact::new(&model[..cut]);
            $rec.count("truncated");
            match unsafe { <$T>::try_ref(ex.forever()) } {
                Err(WrapErr::NotEnoughBytes(_)) => (),
                Err(e) => $rec.fail(&format!("flat:{name}:truncated"), format!("{cut} of {} bytes: {:?}", model.len(), e)),
                Ok((v, _)) => $rec.fail(&format!("flat:{name}:truncated"), format!("{cut} of {} bytes were read as {:?}", model.len(), v)),
            }
        }
    }};
}

fn check_slice<'i, T>(s: Slice<'i, T>, want: &[T], name: &str, rec: &mut Rec)
where
    T: FlatSerializable<'i> + Clone + PartialEq + std::fmt::Debug,
{
    let n = want.len();
    let mut bad = vec![];
    if s.len() != n {
        bad.push(format!("len {}", s.len()));
    }
    if s.is_empty() != (n == 0) {
        bad.push("is_empty".into());
    }
    if s.iter().collect::<Vec<_>>() != want {
        bad.push("iter".into());
    }
    for i in [0, n / 2, n.saturating_sub(1), n, n + 3] {
        if s.iter().nth(i).as_ref() != want.get(i) {
            bad.push(format!("nth({i})"));
        }
    }
    if s.iter().len() != n || s.iter().is_empty() != (n == 0) {
        bad.push(format!("len of the iterator {}", s.iter().len()));
    }
    let mut it = s.iter();
    it.next();
    if it.collect::<Vec<_>>() != want[n.min(1)..] {
        bad.push("iter after next".into());
    }
    if s.clone().into_iter().collect::<Vec<_>>() != want {
        bad.push("into_iter".into());
    }
    let mut o = s.clone();
    if o.as_owned()[..] != want[..] || o.as_slice() != want || o != s {
        bad.push("as_owned".into());
    }
    if s.clone().into_vec().len() != n {
        bad.push("into_vec".into());
    }
    rec.count("slice_views");
    if !bad.is_empty() {
        rec.fail(&format!("slice:{name}"), format!("{} of a slice of {want:?}", bad.join(", ")));
    }
}

fn opt(r: &mut Rng) -> (Opt, Vec<u8>) {
    let header = if r.chance(40) { 1 } else { r.bits() };
    let o = if header != 1 { Some(r.bits() as u32) } else { None };
    let n = r.bits() as u16;
    let mut m = pod(&header);
    if let Some(o) = o {
        m.extend(pod(&o));
    }
    m.extend(pod(&n));
    (Opt { header, optional_field: o, non_optional_field: n }, m)
}

fn kind(r: &mut Rng, keep: &mut Vec<Box<dyn FnOnce()>>) -> (Kind<'static>, Vec<u8>) {
    match r.below(4) {
        0 => {
            let d = leak({ let n = r.below(20) as usize; r.bytes(n) }, keep);
            let mut m = pod(&2u64);
            m.extend(pod(&(d.len() as u32)));
            m.extend(d);
            (Kind::First { data_len: d.len() as u32, data: form(r, d) }, m)
        }
        1 => {
            let array = [r.bits() as u16, r.bits() as u16, r.bits() as u16];
            let mut m = pod(&3u64);
            m.extend(pod(&array));
            (Kind::Fixed { array }, m)
        }
        2 => (Kind::Empty {}, pod(&9u64)),
        _ => {
            let some = r.below(16);
            let inner = if some > 7 { Some(r.bits()) } else { None };
            let mut m = pod(&1u64);
            m.extend(pod(&some));
            m.extend(inner.map(|i| pod(&i)).unwrap_or_default());
            (Kind::Opt { some, inner }, m)
        }
    }
}

fn basic(r: &mut Rng, keep: &mut Vec<Box<dyn FnOnce()>>) -> (Basic<'static>, Vec<u8>) {
    let n = if r.chance(90) { r.below(30) } else { r.below(400) } as usize;
    let data = leak(r.bytes(n), keep);
    let data2 = leak((0..n / 3).map(|_| [r.next() as u8, r.next() as u8]).collect::<Vec<_>>(), keep);
    let b = Basic { header: r.bits(), data_len: n as u32, array: [r.bits() as u16, 2, r.bits() as u16], data: form(r, data), data2: form(r, data2) };
    let mut m = pod(&b.header);
    m.extend(pod(&b.data_len));
    m.extend(pod(&b.array));
    m.extend(data);
    m.extend(data2.iter().flatten());
    (b, m)
}

fn range(r: &mut Rng) -> (Range, Vec<u8>) {
    let (p, l, h) = (r.below(3) as u8, r.below(3) as u8, r.below(2) as u8);
    let v = Range {
        is_present: p, has_left: l, has_right: h, padding: [0; 5],
        left: if p == 1 && l == 1 { Some(r.bits() as i64) } else { None },
        right: if p == 1 && h == 1 { Some(r.bits() as i64) } else { None },
    };
    let mut m = vec![p, l, h, 0, 0, 0, 0, 0];
    m.extend(v.left.map(|x| pod(&x)).unwrap_or_default());
    m.extend(v.right.map(|x| pod(&x)).unwrap_or_default());
    (v, m)
}

pub fn case(seed: u64, case: u64, small: bool, rec: &mut Rec) {
    let mut keep: Vec<Box<dyn FnOnce()>> = vec![];
    inner(seed, case, small, rec, &mut keep);
    for f in keep {
        f()
    }
}

fn inner(seed: u64, case: u64, small: bool, rec: &mut Rec, keep: &mut Vec<Box<dyn FnOnce()>>) {
    let mut r = Rng::new(seed, case, 0xf1a7);
    let many = if small { 4 } else { 12 };
    match case % 12 {
        0 => {
            let (v, m) = basic(&mut r, keep);
            let text = ron::to_string(&v).unwrap();
            match ron::from_str::<Basic>(&text) {
                Ok(b) if b == v => (),
                other => rec.fail("flat:Basic:serde", format!("{text} was read back as {other:?}")),
            }
            check!(rec, r, Basic, v, m)
        }
        1 => {
            let (v, m) = opt(&mut r);
            check!(rec, r, Opt, v, m)
        }
        2 => {
            let present = r.below(6);
            let (o, om) = opt(&mut r);
            let mut m = pod(&present);
            let val = if present > 2 { m.extend(om); Some(o) } else { None };
            check!(rec, r, OptOpt, (OptOpt { present, val }), m)
        }
        3 => {
            let vs: Vec<(Opt, Vec<u8>)> = (0..r.below(many)).map(|_| opt(&mut r)).collect();
            let mut m = pod(&(vs.len() as u64));
            m.extend(vs.iter().flat_map(|(_, b)| pad(b.clone(), 8)));
            let vals = leak(vs.into_iter().map(|x| x.0).collect::<Vec<_>>(), keep);
            let ex = Exact::new(&m[8..]);
            check_slice(unsafe { Slice::from_bytes(ex.forever()) }, vals, "Opt from bytes", rec);
            check_slice(form(&mut r, vals), vals, "Opt", rec);
            check!(rec, r, Opts, (Opts { num_vals: vals.len() as u64, vals: form(&mut r, vals) }), m)
        }
        4 => {
            let (b, bm) = basic(&mut r, keep);
            let prefix = r.bits();
            let mut m = pod(&prefix);
            m.extend(bm);
            check!(rec, r, Nested, (Nested { prefix, basic: b }), m)
        }
        5 => {
            let (v, m) = kind(&mut r, keep);
            let mut wrong = m.clone();
            let tag = loop {
                let t = r.bits();
                if ![1, 2, 3, 9].contains(&t) {
                    break t;
                }
            };
            wrong[..8].copy_from_slice(&tag.to_ne_bytes());
            let ex = Exact::new(&wrong);
            match unsafe { Kind::try_ref(ex.get()) } {
                Err(WrapErr::InvalidTag(_)) => rec.count("wrong_tag"),
                other => rec.fail("flat:Kind:tag", format!("tag {tag} gives {other:?}")),
            }
            check!(rec, r, Kind, v, m)
        }
        6 => {
            let (v, m) = if r.chance(50) {
                let d = leak({ let n = r.below(20) as usize; r.bytes(n) }, keep);
                let padding = [r.next() as u8, 1, 2];
                let mut m = vec![2u8];
                m.extend(padding);
                m.extend(pod(&(d.len() as u32)));
                m.extend(d);
                (Padded::First { padding, data_len: d.len() as u32, data: form(&mut r, d) }, m)
            } else {
                let array = [r.bits() as u16, r.bits() as u16, r.bits() as u16];
                let mut m = vec![3u8, 77];
                m.extend(pod(&array));
                (Padded::Fixed { padding: 77, array }, m)
            };
            check!(rec, r, Padded, v, m)
        }
        7 => {
            let vs: Vec<(Kind<'static>, Vec<u8>)> = (0..r.below(many)).map(|_| kind(&mut r, keep)).collect();
            let mut m = pod(&(vs.len() as u64));
            m.extend(vs.iter().flat_map(|(_, b)| pad(b.clone(), 8)));
            let vals = leak(vs.into_iter().map(|x| x.0).collect::<Vec<_>>(), keep);
            let ex = Exact::new(&m[8..]);
            check_slice(unsafe { Slice::from_bytes(ex.forever()) }, vals, "Kind from bytes", rec);
            check!(rec, r, Kinds, (Kinds { count: vals.len() as u64, enums: form(&mut r, vals) }), m)
        }
        8 => {
            let n = r.below(many) as usize;
            let pairs = leak((0..n).map(|_| Pair { a: r.bits() as i64, b: r.bits() as u32, c: r.bits() as u32 }).collect::<Vec<_>>(), keep);
            let floats = leak((0..n + 1).map(|_| r.float()).collect::<Vec<_>>(), keep);
            let v = Mixed {
                version: r.next() as u8, flag: r.chance(50), tag: r.pick(&[Tag::Zero, Tag::One, Tag::Seven, Tag::Last]), pad: 0, wide: r.pick(&[Wide::A, Wide::B]), sum: r.float(),
                n: n as u64, pairs: form(&mut r, pairs), floats: form(&mut r, floats), tail: r.next() as u8,
            };
            let mut m = vec![v.version, v.flag as u8, v.tag as u8, 0];
            m.extend(pod(&(v.wide as u32)));
            m.extend(pod(&v.sum));
            m.extend(pod(&v.n));
            for p in pairs {
                m.extend(pod(&p.a));
                m.extend(pod(&p.b));
                m.extend(pod(&p.c));
            }
            m.extend(floats.iter().flat_map(pod));
            m.push(v.tail);
            check_slice(form(&mut r, pairs), pairs, "Pair", rec);
            check_slice(form(&mut r, floats), floats, "f64", rec);
            check!(rec, r, Mixed, v, m)
        }
        9 => {
            let (v, m) = range(&mut r);
            check!(rec, r, Range, v, m);
            let (a, am) = range(&mut r);
            let (b, bm) = range(&mut r);
            let (c, cm) = range(&mut r);
            let m = [pod(&3u64), am, bm, cm].concat();
            check!(rec, r, Arr, (Arr { n: 3, three: [a, b, c] }), m)
        }
        10 => {
            let vs: Vec<(Range, Vec<u8>)> = (0..r.below(many)).map(|_| range(&mut r)).collect();
            let n = vs.len();
            let mut m = pod(&(n as u64));
            m.extend(vs.iter().flat_map(|(_, b)| pad(b.clone(), 8)));
            let bits = leak(r.bytes((n + 7) / 8), keep);
            m.extend(bits);
            let ranges = leak(vs.into_iter().map(|x| x.0).collect::<Vec<_>>(), keep);
            check!(rec, r, Deep, (Deep { n: n as u64, ranges: form(&mut r, ranges), bits: form(&mut r, bits) }), m)
        }
        _ => {
            let (k, km) = kind(&mut r, keep);
            let version = r.bits();
            let mut m = pod(&version);
            m.extend(km);
            check!(rec, r, Flat, (Flat { version, kind: k }), m);
            // plain values and tags
            for bad in [2u8, 6, 8, 254] {
                let ex = Exact::new(&[bad]);
                match unsafe { Tag::try_ref(ex.get()) } {
                    Err(WrapErr::InvalidTag(_)) => rec.count("wrong_tag"),
                    other => rec.fail("flat:Tag:tag", format!("the byte {bad} gives {other:?}")),
                }
            }
            let ex = Exact::new(&pod(&5u32));
            if !matches!(unsafe { Wide::try_ref(ex.get()) }, Err(WrapErr::InvalidTag(_))) {
                rec.fail("flat:Wide:tag", "5 was accepted".into());
            }
            check!(rec, r, Tag, Tag::Seven, vec![7]);
            check!(rec, r, Wide, Wide::B, pod(&1_000_000_007u32));
            let p = Pair { a: r.bits() as i64, b: 1, c: r.bits() as u32 };
            let mut m = pod(&p.a);
            m.extend(pod(&p.b));
            m.extend(pod(&p.c));
            check!(rec, r, Pair, p, m);
            type F = f64;
            type U = u128;
            type A3 = [i32; 3];
            let f = r.float();
            check!(rec, r, F, f, pod(&f));
            let u = (r.bits() as u128) << 64 | r.bits() as u128;
            check!(rec, r, U, u, u.to_ne_bytes().to_vec());
            let a = [r.bits() as i32, r.bits() as i32, -1];
            check!(rec, r, A3, a, a.iter().flat_map(|x| x.to_ne_bytes()).collect());
        }
    }
}
