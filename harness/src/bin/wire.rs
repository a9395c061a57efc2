//! C01-C07, C19, C21, C23: the wire format.
use tpmcheck::*;

fn main() {
    let mut ctx = Ctx::from_args();
    match ctx.prop.as_str() {
        "C01" => {
            ctx.rule = "byte strings (well-formed, truncated, one malformed node, mutated, random, constant) decoded as every wire type, with and without explicit selector; non-trivial: bytes were consumed or the input was rejected; distinct by type and bytes".into();
            let t = types::all();
            let n = ctx.n(300, 800_000, 20_000_000);
            checks::total_decoding(&mut ctx, &t, "", n);
            let n = ctx.n(20, 200_000, 4_000_000);
            checks::cursor(&mut ctx, n);
            ctx.require("decoded", 10_000);
            ctx.require("rejected:end-of-buffer", 1000);
            ctx.require("rejected:array-length", 1000);
            ctx.require("rejected:unknown-selector", 1000);
        }
        "C02" => {
            ctx.rule = "generated values of every wire type, and byte strings that decode; non-trivial: the encoding is not empty; distinct by type and encoding".into();
            let t = types::all();
            let n = ctx.n(200, 500_000, 12_000_000);
            checks::lossless(&mut ctx, &t, "", n);
            let n = ctx.n(4, 20_000, 400_000);
            checks::hidden(&mut ctx, n);
            ctx.require("roundtrip", 10_000);
            ctx.require("bytes-reproduced", 5_000);
            ctx.require("variant-roundtrip", 1000);
        }
        "C03" => {
            ctx.rule = "generated values encoded into destinations of every length around the needed one; distinct by type, destination length and needed length".into();
            let t = types::all();
            let n = ctx.n(160, 200_000, 4_000_000);
            checks::bounded_encoding(&mut ctx, &t, "", n);
            let n = ctx.n(4, 20_000, 400_000);
            checks::over_count(&mut ctx, n);
            ctx.require("over-count-refused", 1000);
            ctx.require("fits", 10_000);
            ctx.require("too-small", 10_000);
        }
        "C04" => {
            ctx.rule = "generated values of every wire type against the reference encoding built from the specification's layout; non-trivial: not empty; distinct by type and encoding".into();
            let t = types::all();
            let n = ctx.n(200, 1_000_000, 25_000_000);
            checks::wire_format(&mut ctx, &t, "", n);
            ctx.require("encoded-as-specified", 10_000);
            ctx.require("decoded-as-specified", 10_000);
        }
        "C05" => {
            ctx.rule = "byte strings judged by the reference grammar; non-trivial: rejected inputs; distinct by type and bytes".into();
            let t = types::all();
            let n = ctx.n(150, 300_000, 8_000_000);
            checks::rejection(&mut ctx, &t, "", n);
            ctx.require("accepted", 10_000);
            ctx.require("rejected:end-of-buffer", 1000);
            ctx.require("rejected:array-length", 1000);
            ctx.require("rejected:unknown-selector", 1000);
        }
        "C06" => {
            ctx.rule = "sized buffers built from lengths around their capacity and beyond 65535; lists driven by random sequences of new/add/decode against a vector model; distinct by type and contents".into();
            containers::capacities(&mut ctx);
            let n = ctx.n(48, 300_000, 6_000_000);
            containers::buffers(&mut ctx, &containers::library_buffers(), "", n);
            let n = ctx.n(18, 100_000, 2_000_000);
            containers::lists(&mut ctx, n);
            for k in ["buffer:made", "buffer:refused", "buffer:compared", "list:made", "list:added", "list:new-refused", "list:add-refused", "list:decoded"] {
                ctx.require(k, 1000);
            }
            ctx.require("list:filled", 9);
        }
        "C07" => {
            ctx.rule = "generated public areas, creation data and sensitive-create structures wrapped and unwrapped; buffers with truncated, malformed, zeroed and random contents; distinct by type and encoding".into();
            let n = ctx.n(30, 300_000, 5_000_000);
            containers::structured(&mut ctx, &containers::library_structs(), "", n);
            for k in ["wrapped", "unwrapped", "contents:rejected", "contents:accepted"] {
                ctx.require(k, 1000);
            }
        }
        "C19" => {
            ctx.rule = "all 2^32 handle values classified by a range table; attribute values under random type and flag updates; distinct by value".into();
            facts::handles(&mut ctx);
            ctx.require("handles", 1 << 32);
            ctx.require("accepted:nv-index", 1 << 24);
            ctx.require("accepted:session", 129);
            ctx.require("type-set", 10_000);
        }
        "C21" => {
            ctx.rule = "every published constant against a literal table; distinct by name".into();
            facts::constants(&mut ctx);
            ctx.exhaustive = true;
            ctx.require("constants", 500);
            ctx.require("agreeing", 50);
            ctx.require("encoded", 300);
        }
        "C29" => {
            ctx.rule = "pairs of values of every wire type, built, decoded, copied and made by every constructor, near each other and far apart, compared by equality, hash and encoding; distinct by type and encoding".into();
            equal::all(&mut ctx);
        }
        #[cfg(feature = "derived")]
        "C23" => {
            ctx.rule = "user types with derived codecs under the same monitors as the library's own types; distinct by type and bytes".into();
            let t = derived::all();
            let vals: Vec<_> = derived::all().into_iter().chain(derived::values_only()).collect();
            let n = ctx.n(80, 150_000, 3_000_000);
            checks::total_decoding(&mut ctx, &t, "user-", n);
            checks::lossless(&mut ctx, &t, "user-", n);
            let n = ctx.n(76, 30_000, 600_000);
            checks::bounded_encoding(&mut ctx, &vals, "user-", n);
            let n = ctx.n(76, 150_000, 3_000_000);
            checks::wire_format(&mut ctx, &vals, "user-", n);
            let n = ctx.n(74, 100_000, 2_000_000);
            checks::rejection(&mut ctx, &t, "user-", n);
            let n = ctx.n(2, 200, 4000);
            checks::wire_format(&mut ctx, &derived::large(), "large-", n);
            let n = ctx.n(13, 6_000, 100_000);
            containers::buffers(&mut ctx, &containers::user_buffers(), "user-", n);
            let n = ctx.n(12, 60_000, 1_000_000);
            containers::structured(&mut ctx, &containers::user_structs(), "user-", n);
            let n = ctx.n(5, 5_000, 100_000);
            checks::over_count_user(&mut ctx, n);
            for k in ["decoded", "roundtrip", "fits", "too-small", "encoded-as-specified", "rejected:end-of-buffer", "rejected:array-length", "rejected:unknown-selector", "variant-roundtrip", "wrapped", "buffer:made", "over-count-refused"] {
                ctx.require(k, 1000);
            }
        }
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
    ctx.finish()
}
