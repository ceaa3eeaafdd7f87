//! C17: binary formats hold exactly the raw integer; access to the raw integer is lossless.
use bincode::Options;
use checks::{for_all_types, for_narrow_types, Fx};
use checks_io::token::{Life, Play, Rec, Tok, LIVES};
use checks_io::*;
use mc::lattice::full;
use mc::{Check, Cx};
use serde::{de::DeserializeOwned, Serialize};

const OUTCOMES: &[&str] = &["written", "read", "read: error", "raw access", "bytes of a format", "bytes of a format: error"];

fn rows<F: Fx>() -> Vec<i128> {
    if F::BITS == 16 {
        (F::lo()..=F::hi()).collect()
    } else {
        full(F::BITS, F::P)
    }
}

fn values<F: Io>(chk: &mut Check) {
    let rows = rows::<F>();
    let per = 256;
    chk.job(format!("values {}", F::name()), rows.len().div_ceil(per) as u64, move |i, cx| {
        for &a in rows.iter().skip(i as usize * per).take(per) {
            cx.states += 1;
            cx.traces += 1;
            let x = F::of(a);
            let got = x.bits2();
            cx.judge(3, got == (a, a), || format!("{} from bits {a}, as_bits and into_bits", F::name()), || format!("got {got:?}"));
            let tok = Tok::raw(F::BITS, a);
            let got = x.ser(Via::Default, false, Rec { human: false });
            cx.judge(0, got.as_ref().is_ok_and(|g| *g == tok), || format!("write {} bits {a} in binary", F::name()), || format!("got {got:?}, should be {tok:?}"));
            let some = Tok::Some(Box::new(tok.clone()));
            let got = F::ser_opt(Some(x), Via::Default, false, Rec { human: false });
            cx.judge(0, got.as_ref().is_ok_and(|g| *g == some), || format!("write option of {} bits {a} in binary", F::name()), || format!("got {got:?}, should be {some:?}"));
            read::<F>(&tok, Some(a), cx);
            for t in Tok::ints(&mc::Big::i(a)) {
                read::<F>(&t, raw_bits::<F>(&t, false), cx);
            }
        }
        cx.sample(|| format!("{}: {per} numbers as raw integer tokens of every width", F::name()));
    });
}

fn read<F: Io>(t: &Tok, want: Option<i128>, cx: &mut Cx) {
    let play = |tok| Play { tok, human: false };
    cx.at(|| format!("{} from {t:?} in binary", F::name()));
    let got = F::de(Via::Default, false, play(t)).ok();
    cx.judge(1 + got.is_none() as usize, got == want, || format!("read {} from {t:?} in binary", F::name()), || format!("got {got:?}, should be {want:?}"));
    let some = Tok::Some(Box::new(t.clone()));
    let got = F::de_opt(Via::Default, false, play(&some)).ok();
    cx.judge(1 + got.is_none() as usize, got == want.map(Some), || format!("read option of {} from {some:?} in binary", F::name()), || format!("got {got:?}, should be {want:?}"));
}

fn tokens<F: Io>(chk: &mut Check) {
    chk.job(format!("tokens {}", F::name()), 1, move |_, cx| {
        for n in integers::<F>() {
            for t in Tok::ints(&n) {
                cx.states += 1;
                cx.traces += 1;
                let want = raw_bits::<F>(&t, false);
                if want.is_some_and(|w| mc::Big::i(w) != n) {
                    mc::run::die("the raw integer type reads something else");
                }
                read::<F>(&t, want, cx);
            }
        }
        // everything that is no integer, although some of it is a number in human-readable formats
        let mut wrong = vec![
            Tok::Bool(true), Tok::F32(1.0), Tok::F64(1.0), Tok::F64(0.0), Tok::F64(f64::NAN), Tok::Char('1'), Tok::Unit, Tok::None,
            Tok::Seq(vec![]), Tok::Seq(vec![Tok::I16(1)]), Tok::Map(vec![]),
            Tok::Map(vec![(Tok::str("$value", Life::Owned), Tok::str("1.0", Life::Owned))]), Tok::Enum("1"),
        ];
        for l in LIVES {
            for s in ["1", "1.0", "0", "", "-1.5"] {
                wrong.push(Tok::str(s, l));
                wrong.push(Tok::Bytes(s.into(), l));
            }
            for n in [1, 2, 4, 8, 16] {
                wrong.push(Tok::Bytes(vec![0; n], l));
            }
        }
        for t in wrong {
            cx.states += 1;
            cx.traces += 1;
            read_wrong::<F>(&t, cx);
        }
        let got = F::ser_opt(None, Via::Default, false, Rec { human: false });
        cx.judge(0, matches!(got, Ok(Tok::None)), || format!("write None of {} in binary", F::name()), || format!("got {got:?}"));
        cx.sample(|| format!("{}: integer tokens of every width around every limit, and tokens that are no integers", F::name()));
    });
}
fn read_wrong<F: Io>(t: &Tok, cx: &mut Cx) {
    cx.at(|| format!("{} from {t:?} in binary", F::name()));
    let got = F::de(Via::Default, false, Play { tok: t, human: false }).ok();
    cx.judge(2, got.is_none(), || format!("read {} from {t:?} in binary", F::name()), || format!("got {got:?}, should be an error"));
}

// ---- real formats ----

#[derive(Clone, Copy, Debug)]
enum Format {
    Fixed,
    FixedBig,
    Var,
    VarBig,
    Cbor,
}
const FORMATS: [Format; 5] = [Format::Fixed, Format::FixedBig, Format::Var, Format::VarBig, Format::Cbor];

fn save<T: Serialize>(f: Format, x: &T) -> Option<Vec<u8>> {
    let o = bincode::DefaultOptions::new();
    match f {
        Format::Fixed => bincode::serialize(x).ok(),
        Format::FixedBig => o.with_fixint_encoding().with_big_endian().serialize(x).ok(),
        Format::Var => o.serialize(x).ok(),
        Format::VarBig => o.with_big_endian().serialize(x).ok(),
        Format::Cbor => {
            let mut v = vec![];
            ciborium::into_writer(x, &mut v).ok()?;
            Some(v)
        }
    }
}
fn load<T: DeserializeOwned>(f: Format, b: &[u8]) -> [Option<T>; 2] {
    let o = bincode::DefaultOptions::new();
    match f {
        Format::Fixed => [bincode::deserialize(b).ok(), bincode::deserialize_from(b).ok()],
        Format::FixedBig => {
            let o = o.with_fixint_encoding().with_big_endian();
            [o.deserialize(b).ok(), o.deserialize_from(b).ok()]
        }
        Format::Var => [o.deserialize(b).ok(), o.deserialize_from(b).ok()],
        Format::VarBig => [o.with_big_endian().deserialize(b).ok(), o.with_big_endian().deserialize_from(b).ok()],
        Format::Cbor => [ciborium::from_reader(b).ok(), {
            // through the format's own dynamic values
            ciborium::from_reader::<ciborium::Value, _>(b).ok().and_then(|v| v.deserialized().ok())
        }],
    }
}

/// A byte string means to a number what it means to its raw integer.
fn bytes<F: Io>(f: Format, b: &[u8], cx: &mut Cx) {
    cx.states += 1;
    cx.traces += 1;
    cx.at(|| format!("{} from {f:?} {b:02x?}", F::name()));
    let want = load::<F::Raw>(f, b).map(|r| r.map(F::unraw));
    let got = load::<F>(f, b).map(|r| r.map(Fx::bits));
    cx.judge(4 + got[0].is_none() as usize, got == want, || format!("read {} from {f:?} {b:02x?}", F::name()), || format!("got {got:?}, the raw integer is {want:?}"));
}

fn formats<F: Io>(chk: &mut Check) {
    let rows = rows::<F>();
    let per = 128;
    chk.job(format!("formats {}", F::name()), rows.len().div_ceil(per) as u64, move |i, cx| {
        for (k, &a) in rows.iter().enumerate().skip(i as usize * per).take(per) {
            let other = rows[(k * 7 + 3) % rows.len()];
            for f in FORMATS {
                one::<F>(f, a, cx);
                cx.at(|| format!("{} containers of {a} and {other} in {f:?}", F::name()));
                // containers and structs of numbers are containers and structs of raw integers
                let (x, y) = (F::of(a), F::of(other));
                let (r, s) = (F::raw(a), F::raw(other));
                let v = (vec![x, y], Some(x), None::<F>, [y; 3], (7u8, x, "z".to_string()), Ok::<F, u8>(y));
                let w = (vec![r, s], Some(r), None::<F::Raw>, [s; 3], (7u8, r, "z".to_string()), Ok::<F::Raw, u8>(s));
                let (g, want) = (save(f, &v), save(f, &w));
                cx.judge(4, g == want, || format!("write {} containers of {a} and {other} in {f:?}", F::name()), || format!("got {g:02x?}, should be {want:02x?}"));
                let Some(b) = want else { continue };
                type C<T> = (Vec<T>, Option<T>, Option<T>, [T; 3], (u8, T, String), Result<T, u8>);
                for (g, w) in load::<C<F>>(f, &b).into_iter().zip(load::<C<F::Raw>>(f, &b)) {
                    let ok = w.is_none() || g == Some(v.clone());
                    cx.judge(4, ok, || format!("read {} containers of {a} and {other} in {f:?}", F::name()), || format!("got {g:?}"));
                }
            }
        }
        cx.sample(|| format!("{}: {per} numbers, every truncation of every encoding, in {FORMATS:?}", F::name()));
    });
}

fn one<F: Io>(f: Format, a: i128, cx: &mut Cx) {
    let (got, want) = (save(f, &F::of(a)), save(f, &F::raw(a)));
    cx.judge(4, got == want, || format!("write {} bits {a} in {f:?}", F::name()), || format!("got {got:02x?}, should be {want:02x?}"));
    let Some(mut b) = want else { return };
    let n = (F::BITS / 8) as usize;
    match f {
        Format::Fixed => assert_eq!(b, a.to_le_bytes()[..n]),
        Format::FixedBig => assert_eq!(b, a.to_be_bytes()[16 - n..]),
        _ => {}
    }
    let got = load::<F>(f, &b).map(|r| r.map(Fx::bits));
    // some readers cannot give back wide integers at all
    let can = load::<F::Raw>(f, &b).map(|r| r.is_some());
    let ok = (0..2).all(|k| got[k] == can[k].then_some(a));
    cx.judge(4, ok, || format!("read {} bits {a} back from {f:?}", F::name()), || format!("got {got:?}"));
    for k in 0..b.len() {
        bytes::<F>(f, &b[..k], cx);
    }
    b.push(0);
    bytes::<F>(f, &b, cx);
}

/// Every byte string of up to `n` bytes as an input.
fn all_bytes<F: Io>(chk: &mut Check) {
    let thorough = chk.thorough;
    chk.job(format!("all bytes {}", F::name()), 256, move |i, cx| {
        let a = i as u8;
        for f in FORMATS {
            if i == 0 {
                bytes::<F>(f, &[], cx);
            }
            bytes::<F>(f, &[a], cx);
            for b in 0..=255u8 {
                bytes::<F>(f, &[a, b], cx);
                if thorough {
                    for c in 0..=255u8 {
                        bytes::<F>(f, &[a, b, c], cx);
                    }
                }
            }
            // longer inputs: every first byte, every length, short patterns
            for len in 3..=24 {
                for fill in [0u8, 1, 0x31, 0x7f, 0x80, 0xff] {
                    for last in [0u8, 1, 0x7f, 0x80, 0xff] {
                        let mut v = vec![fill; len];
                        v[0] = a;
                        v[len - 1] = last;
                        bytes::<F>(f, &v, cx);
                    }
                }
            }
        }
        cx.sample(|| format!("{}: inputs that start with byte {a:02x}", F::name()));
    });
}

fn main() {
    let mut c = Check::new("C17", OUTCOMES);
    c.rule(
        "states are numbers, single tokens of the serde data model and byte strings; transitions are the real Serialize/Deserialize \
         under a recording serializer and a replaying deserializer that call themselves binary, and bincode (fixed and variable \
         width, both byte orders) and CBOR. The oracle is the raw integer type itself in the same place.",
    );
    c.bound("numbers: every 16-bit value, boundary alphabets of all 107 types; tokens of every integer width around every limit; all tokens that are no integers");
    c.bound("byte strings: all up to 2 (thorough 3) bytes, every first byte x lengths to 24 x patterns, every truncation of every encoding; 9 types x 5 formats");
    c.assume("bincode, ciborium and serde handle plain integers correctly");
    for_all_types!(values(&mut c));
    for_narrow_types!(values(&mut c));
    for_all_types!(tokens(&mut c));
    for_narrow_types!(tokens(&mut c));
    checks_io::for_some_types!(formats(&mut c));
    checks_io::for_some_types!(all_bytes(&mut c));
    c.run()
}
