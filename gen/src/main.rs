//! C23 on randomly generated type definitions: TPMGEN names the directory with
//! the definitions of one generation.
use tpmcheck::*;

mod types {
    #![allow(unused_imports, non_upper_case_globals, non_snake_case, dead_code, unused_parens, clippy::all)]
    use safe_discriminant::Discriminant;
    use tpm2_rs_base::marshal::{Marshalable, MarshalableVariant, Tpm2bStruct, UnmarshalBuf};
    use tpm2_rs_base::{Tpm2bSimple, Tpm2bStruct};
    use tpm2_rs_base::{errors::*, marshal::*, *};
    use tpm2_rs_marshalable;
    use tpmcheck::Rng;
    use tpmcheck::checks::above;
    use tpmcheck::containers::{BufOps, StructOps, buf_case, struct_case};
    use tpmcheck::shape::{Part, Shape};
    use tpmcheck::types::{AnyVal, TypeInfo, Wire, info, vinfo};

    /// `[T; N]` with the first `n` elements generated and the rest default.
    fn elems<T: Wire + Default + Copy, const N: usize>(r: &mut Rng, o: &mut Vec<u8>, n: usize) -> [T; N] {
        let mut a = [T::default(); N];
        for x in a.iter_mut().take(n) {
            *x = T::arb(r, o);
        }
        a
    }
    fn count(r: &mut Rng, o: &mut Vec<u8>, w: usize, max: usize) -> usize {
        let n = r.len_upto(max);
        o.extend_from_slice(&(n as u64).to_be_bytes()[8 - w..]);
        n
    }
    include!(concat!(env!("TPMGEN"), "/types.rs"));
}

fn main() {
    let mut ctx = Ctx::from_args();
    ctx.rule = "randomly generated user types with derived codecs; distinct by type and bytes".into();
    let t = types::all();
    let per = |ctx: &Ctx, k: usize, q: u64, d: u64| if k == 0 { 0 } else { ctx.n(k as u64, q * k as u64, d * k as u64) };
    let k = t.len();
    let n = per(&ctx, k, 300, 3000);
    checks::total_decoding(&mut ctx, &t, "gen-", n);
    checks::lossless(&mut ctx, &t, "gen-", n);
    let n = per(&ctx, k, 60, 600);
    checks::bounded_encoding(&mut ctx, &t, "gen-", n);
    let n = per(&ctx, k, 300, 3000);
    checks::wire_format(&mut ctx, &t, "gen-", n);
    let n = per(&ctx, k, 300, 3000);
    checks::rejection(&mut ctx, &t, "gen-", n);
    let b = types::buffers();
    let n = per(&ctx, b.len(), 200, 2000);
    containers::buffers(&mut ctx, &b, "gen-", n);
    let s = types::structs();
    let n = per(&ctx, s.len(), 300, 3000);
    containers::structured(&mut ctx, &s, "gen-", n);
    let o = types::overs();
    let n = per(&ctx, o.len(), 100, 1000);
    ctx.section("gen-over-count", n, |c| {
        let (name, f) = &o[c.index as usize % o.len()];
        let (v, what) = f(&mut c.rng);
        checks::refused(c, name, &what, &|d| v.encode(d));
    });
    let h = types::hidden();
    let n = per(&ctx, h.len(), 100, 1000);
    ctx.section("gen-hidden", n, |c| {
        let (t, f) = &h[c.index as usize % h.len()];
        let v = f(&mut c.rng);
        c.note("hidden-contents");
        checks::value_roundtrip(c, t, &*v, false);
    });
    for k in ["decoded", "roundtrip", "fits", "too-small", "encoded-as-specified", "rejected:end-of-buffer", "rejected:array-length", "rejected:unknown-selector", "variant-roundtrip", "over-count-refused"] {
        ctx.require(k, 200);
    }
    ctx.finish()
}
