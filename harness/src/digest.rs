//! the client library's C interface gives the digest the crate gives, and owns what it hands out.
use crate::capi::*;
use crate::util::*;
use std::ffi::CStr;

pub fn case(seed: u64, case: u64, small: bool, rec: &mut Rec) {
    let mut r = Rng::new(seed, case, 0xd1);
    let size = 1 + r.below(if small { 30 } else { 300 }) as usize;
    let size = size.max(10);
    let k = 1 + r.below(3);
    let mut c = timescaledb_toolkit_tdigest_builder_with_size(size);
    let mut m = tdigest::Builder::with_size(size);
    let mut all: Vec<f64> = vec![];
    let mut one_go = true;
    for i in 0..k {
        let n = r.below(if small { 40 } else { 1500 });
        let scale = r.pick(&[1.0, 1e-300, 1e300, 1e6]);
        let vals: Vec<f64> = (0..n).map(|_| (r.below(2000) as f64 - 1000.0) * scale).collect();
        rec.seen(("digest", size, scale.to_bits(), i, vals.iter().map(|v| v.to_bits()).collect::<Vec<_>>()));
        all.extend(&vals);
        if i == 0 || r.chance(40) {
            for v in &vals {
                unsafe { timescaledb_toolkit_tdigest_push(&mut *c, *v) };
                m.push(*v);
            }
        } else {
            let mut o = timescaledb_toolkit_tdigest_builder_with_size(size);
            let mut om = tdigest::Builder::with_size(size);
            for v in &vals {
                unsafe { timescaledb_toolkit_tdigest_push(&mut *o, *v) };
                om.push(*v);
            }
            unsafe { timescaledb_toolkit_tdigest_merge(&mut *c, o) };
            m.merge(om);
            rec.count("merged");
            one_go = false;
        }
    }
    // a builder given up without building
    let mut gone = timescaledb_toolkit_tdigest_builder_with_size(size);
    unsafe { timescaledb_toolkit_tdigest_push(&mut *gone, 1.0) };
    timescaledb_toolkit_tdigest_builder_free(gone);

    let d = timescaledb_toolkit_tdigest_build(c);
    let want = m.build();
    if *d != want {
        rec.fail("capi:digest", format!("size {size}: the C interface built {d:?}, the crate {want:?}"));
    }
    for _ in 0..2 {
        let p = unsafe { timescaledb_toolkit_tdigest_format_for_postgres(&*d) };
        let s = unsafe { CStr::from_ptr(p) }.to_str().unwrap().to_string();
        unsafe { libc::free(p as *mut libc::c_void) };
        if s != want.format_for_postgres() {
            rec.fail("capi:format", format!("size {size}: formatted as {s}"));
        }
    }
    rec.count("built");
    if one_go {
        let vals: Vec<String> = all.iter().map(|v| format!("{v:?}")).collect();
        rec.lines.push(format!("D\t{size}\t{}\t{}", vals.join(","), want.format_for_postgres()));
    }
    timescaledb_toolkit_tdigest_free(d);
}
