//! C16: (de)serialization in human-readable formats and through the adapters.
use checks::{for_all_types, for_narrow_types, text, Fx};
use checks_io::token::{Life, Play, Rec, Tok, LIVES};
use checks_io::*;
use mc::lattice::{core, full};
use mc::{Big, Check, Cx};
use serde::{de::DeserializeOwned, Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;
use std::sync::Arc;

const OUTCOMES: &[&str] = &["written", "read", "read: error", "through a format", "schema"];

// ---- single tokens ----

fn via_name(via: Via, wrapped: bool, opt: bool, human: bool) -> String {
    format!(
        "{via:?}{}{}{}",
        if opt { " option" } else { "" },
        if wrapped { " of a wrapper" } else { "" },
        if human { "" } else { ", binary" }
    )
}

/// The token a way of writing must produce.
fn written<F: Io>(a: i128, via: Via, human: bool) -> Tok {
    match via {
        Via::Default if !human => Tok::raw(F::BITS, a),
        Via::Default | Via::Str => Tok::str(text::canonical(a, F::P).as_str(), Life::Transient),
        Via::Repr => Tok::raw(F::BITS, a),
        Via::Float => Tok::F64(to_f64::<F>(a)),
    }
}

fn write_one<F: Io>(a: i128, cx: &mut Cx) {
    let x = F::of(a);
    for via in VIAS {
        for human in [true, false] {
            if via == Via::Default && !human {
                continue; // C17
            }
            let want = written::<F>(a, via, human);
            for wrapped in [false, true] {
                if via == Via::Default && wrapped {
                    continue;
                }
                let name = |opt| format!("{} {} of bits {a}", F::name(), via_name(via, wrapped, opt, human));
                cx.at(|| name(false));
                let got = x.ser(via, wrapped, Rec { human });
                cx.judge(0, got.as_ref().is_ok_and(|g| *g == want), || format!("write {}", name(false)), || format!("got {got:?}, should be {want:?}"));
                let got = F::ser_opt(Some(x), via, wrapped, Rec { human });
                let want = Tok::Some(Box::new(want.clone()));
                cx.judge(0, got.as_ref().is_ok_and(|g| *g == want), || format!("write {}", name(true)), || format!("got {got:?}, should be {want:?}"));
            }
            // and back, in every way the text may arrive
            let toks: Vec<Tok> = match &want {
                Tok::Str(s, _) => LIVES.iter().map(|l| Tok::str(s, *l)).collect(),
                t => vec![t.clone()],
            };
            let back = match via {
                Via::Float => float_bits::<F>(to_f64::<F>(a)),
                _ => Some(a),
            };
            for t in &toks {
                read_token::<F>(t, via, human, back, cx);
            }
        }
    }
}

/// Reads a token plainly, as an option, as a present option and through a wrapper.
fn read_token<F: Io>(t: &Tok, via: Via, human: bool, want: Option<i128>, cx: &mut Cx) {
    let some = Tok::Some(Box::new(t.clone()));
    let name = |w, opt| format!("{} {} from {t:?}", F::name(), via_name(via, w, opt, human));
    for wrapped in [false, true] {
        if via == Via::Default && wrapped {
            continue;
        }
        cx.at(|| name(wrapped, false));
        let got = F::de(via, wrapped, Play { tok: t, human }).ok();
        cx.judge(1 + got.is_none() as usize, got == want, || format!("read {}", name(wrapped, false)), || format!("got {got:?}, should be {want:?}"));
        for t in [t, &some] {
            let got = F::de_opt(via, wrapped, Play { tok: t, human }).ok();
            let ok = got == want.map(Some);
            cx.judge(1 + got.is_none() as usize, ok, || format!("read {} as {t:?}", name(wrapped, true)), || format!("got {got:?}, should be {want:?}"));
        }
    }
}

fn writes<F: Io>(chk: &mut Check) {
    let rows: Vec<i128> = if F::BITS == 16 { (F::lo()..=F::hi()).collect() } else { full(F::BITS, F::P) };
    let per = 256;
    chk.job(format!("write {}", F::name()), rows.len().div_ceil(per) as u64, move |i, cx| {
        for &a in rows.iter().skip(i as usize * per).take(per) {
            cx.states += 1;
            cx.traces += 1;
            write_one::<F>(a, cx);
        }
        if i == 0 {
            for via in VIAS {
                for wrapped in [false, true] {
                    for human in [false, true] {
                        let got = F::ser_opt(None, via, wrapped, Rec { human });
                        cx.judge(0, matches!(got, Ok(Tok::None)), || format!("write {} {} of None", F::name(), via_name(via, wrapped, true, human)), || format!("got {got:?}"));
                        let got = F::de_opt(via, wrapped, Play { tok: &Tok::None, human });
                        cx.judge(1, matches!(got, Ok(None)), || format!("read {} {} from None", F::name(), via_name(via, wrapped, true, human)), || format!("got {got:?}"));
                    }
                }
            }
        }
        cx.sample(|| format!("{}: {per} numbers through {VIAS:?}, plain, wrapped and optional", F::name()));
    });
}

fn direct<F: Io>(s: &str) -> Option<i128> {
    F::parse(s)
}

/// Texts: every string of bounded length, and texts around the limits.
fn texts<F: Io>(thorough: bool, all: &[String]) -> Vec<String> {
    let mut v = all.to_vec();
    let rows = core(F::BITS, F::P);
    for a in rows.into_iter().step_by(if thorough { 1 } else { 3 }) {
        let t = text::canonical(a, F::P);
        let t = t.as_str();
        v.push(format!("+{t}"));
        v.push(format!("{t}0"));
        v.push(format!("{t}5"));
        v.push(format!("{t}e1"));
        v.push(format!("{t}{}", "0".repeat(50)));
        v.push(format!("{}9", t.trim_end_matches(".0")));
        v.push(t.trim_end_matches(".0").to_string());
    }
    v
}

fn strings<F: Io>(chk: &mut Check, all: &[String]) {
    let list = texts::<F>(chk.thorough, all);
    let per = 512;
    chk.job(format!("strings {}", F::name()), list.len().div_ceil(per) as u64, move |i, cx| {
        for s in list.iter().skip(i as usize * per).take(per) {
            cx.states += 1;
            cx.traces += 1;
            let want = direct::<F>(s);
            for l in LIVES {
                let t = Tok::str(s, l);
                read_token::<F>(&t, Via::Default, true, want, cx);
                read_token::<F>(&t, Via::Str, true, want, cx);
                read_token::<F>(&t, Via::Str, false, want, cx);
            }
        }
    });
}

fn numbers<F: Io>(chk: &mut Check) {
    chk.job(format!("numbers {}", F::name()), 1, move |_, cx| {
        for n in integers::<F>() {
            cx.states += 1;
            cx.traces += 1;
            for t in Tok::ints(&n) {
                read_token::<F>(&t, Via::Default, true, int_bits::<F>(&n), cx);
                for human in [true, false] {
                    read_token::<F>(&t, Via::Repr, human, raw_bits::<F>(&t, human), cx);
                }
            }
        }
        for x in floats::<F>() {
            cx.states += 1;
            cx.traces += 1;
            let want = float_bits::<F>(x);
            read_token::<F>(&Tok::F64(x), Via::Default, true, want, cx);
            for human in [true, false] {
                read_token::<F>(&Tok::F64(x), Via::Float, human, want, cx);
            }
            let y = x as f32;
            let want = float_bits::<F>(y as f64);
            read_token::<F>(&Tok::F32(y), Via::Default, true, want, cx);
            read_token::<F>(&Tok::F32(y), Via::Float, true, want, cx);
            // a float is no raw integer
            read_token::<F>(&Tok::F64(x), Via::Repr, true, None, cx);
        }
        for t in wrong() {
            cx.states += 1;
            cx.traces += 1;
            for via in VIAS {
                for human in [true, false] {
                    if via == Via::Default && !human {
                        continue;
                    }
                    cx.at(|| format!("{} {} from {t:?}", F::name(), via_name(via, false, false, human)));
                    let got = F::de(via, false, Play { tok: &t, human }).ok();
                    cx.judge(2, got.is_none(), || format!("read {} {} from {t:?}", F::name(), via_name(via, false, false, human)), || format!("got {got:?}, not convertible"));
                    let some = Tok::Some(Box::new(t.clone()));
                    let got = F::de_opt(via, false, Play { tok: &some, human }).ok();
                    cx.judge(2, got.is_none(), || format!("read {} {} from {some:?}", F::name(), via_name(via, false, true, human)), || format!("got {got:?}, not convertible"));
                }
            }
        }
        // what quick-xml presents for the text of an element
        for (s, l) in ["1", "1.0", "-1", "x", "", "40000", "0.5"].iter().flat_map(|s| LIVES.map(|l| (s, l))) {
            let m = |k: &str, v: Tok| Tok::Map(vec![(Tok::str(k, l), v)]);
            let want = (F::BUILD == "full").then(|| direct::<F>(s)).flatten();
            read_token::<F>(&m("$value", Tok::str(s, l)), Via::Default, true, want, cx);
            for (k, v) in [("value", Tok::str(s, l)), ("", Tok::str(s, l)), ("$value", Tok::Unit), ("$value", Tok::Seq(vec![]))] {
                let t = m(k, v);
                read_token::<F>(&t, Via::Default, true, None, cx);
            }
        }
        cx.sample(|| format!("{}: tokens of every integer and float width, {} unsuitable tokens", F::name(), wrong().len()));
    });
}

fn floats<F: Io>() -> Vec<f64> {
    let mut v = vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 0.0, -0.0];
    for a in core(F::BITS, F::P) {
        v.push(to_f64::<F>(a));
        v.push(a as f64);
    }
    for k in -40..40 {
        for m in [1.0, -1.0, 1.5, 9.9, 0.1] {
            v.push(m * 10f64.powi(k));
            v.push(m * 2f64.powi(k * 4));
        }
    }
    v
}

fn wrong() -> Vec<Tok> {
    let mut v = vec![
        Tok::Bool(true),
        Tok::Bool(false),
        Tok::Unit,
        Tok::Seq(vec![]),
        Tok::Seq(vec![Tok::U8(1)]),
        Tok::Seq(vec![Tok::str("1", Life::Borrowed)]),
        Tok::Map(vec![]),
        Tok::Map(vec![(Tok::U8(1), Tok::U8(1))]),
        Tok::Enum("1"),
        Tok::Char('x'),
    ];
    for l in LIVES {
        v.push(Tok::Bytes(vec![0xff], l));
        v.push(Tok::Bytes(vec![], l));
        v.push(Tok::str("one", l));
        v.push(Tok::str("0x1", l));
        v.push(Tok::str("", l));
    }
    v
}

// ---- real formats ----

/// A field of a user's struct that is serialized through an adapter.
struct By<F, const V: usize, const W: bool>(F);
impl<F: Io, const V: usize, const W: bool> Serialize for By<F, V, W> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.ser(VIAS[V], W, s)
    }
}
impl<'d, F: Io, const V: usize, const W: bool> Deserialize<'d> for By<F, V, W> {
    fn deserialize<D: Deserializer<'d>>(d: D) -> Result<Self, D::Error> {
        F::de(VIAS[V], W, d).map(|a| By(F::of(a)))
    }
}
struct Opt<F, const V: usize, const W: bool>(Option<F>);
impl<F, const V: usize, const W: bool> Default for Opt<F, V, W> {
    fn default() -> Self {
        Opt(None)
    }
}
impl<F: Io, const V: usize, const W: bool> Serialize for Opt<F, V, W> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        F::ser_opt(self.0, VIAS[V], W, s)
    }
}
impl<'d, F: Io, const V: usize, const W: bool> Deserialize<'d> for Opt<F, V, W> {
    fn deserialize<D: Deserializer<'d>>(d: D) -> Result<Self, D::Error> {
        F::de_opt(VIAS[V], W, d).map(|a| Opt(a.map(F::of)))
    }
}

/// One field in each way, and the same fields as plain Rust types: the oracle.
#[derive(Serialize, Deserialize)]
#[serde(bound = "", rename = "doc")]
struct Fields<F: Io> {
    plain: F,
    str: By<F, 2, false>,
    float: By<F, 3, true>,
    repr: By<F, 1, false>,
    #[serde(default)]
    option: Option<F>,
    #[serde(default)]
    str_option: Opt<F, 2, true>,
    #[serde(default)]
    float_option: Opt<F, 3, false>,
    #[serde(default)]
    repr_option: Opt<F, 1, true>,
}
#[derive(Serialize, Deserialize)]
#[serde(bound = "", rename = "doc")]
struct Plain<F: Io> {
    plain: String,
    str: String,
    float: f64,
    repr: F::Raw,
    #[serde(default)]
    option: Option<String>,
    #[serde(default)]
    str_option: Option<String>,
    #[serde(default)]
    float_option: Option<f64>,
    #[serde(default)]
    repr_option: Option<F::Raw>,
}

type Seen = [Option<i128>; 8];
trait View {
    /// the numbers held, or none if they are not convertible
    fn view(&self) -> Option<Seen>;
}
impl<F: Io> View for Fields<F> {
    fn view(&self) -> Option<Seen> {
        let b = |x: &Option<F>| x.map(Fx::bits);
        Some([
            Some(self.plain.bits()),
            Some(self.str.0.bits()),
            Some(self.float.0.bits()),
            Some(self.repr.0.bits()),
            b(&self.option),
            b(&self.str_option.0),
            b(&self.float_option.0),
            b(&self.repr_option.0),
        ])
    }
}
impl<F: Io> View for Plain<F> {
    fn view(&self) -> Option<Seen> {
        let opt = |x: Option<Option<i128>>| match x {
            None => Some(None),
            Some(None) => None,
            Some(x) => Some(x),
        };
        Some([
            Some(direct::<F>(&self.plain)?),
            Some(direct::<F>(&self.str)?),
            Some(float_bits::<F>(self.float)?),
            Some(F::unraw(self.repr)),
            opt(self.option.as_ref().map(|s| direct::<F>(s)))?,
            opt(self.str_option.as_ref().map(|s| direct::<F>(s)))?,
            opt(self.float_option.map(float_bits::<F>))?,
            self.repr_option.map(F::unraw),
        ])
    }
}
impl<T: View> View for Flat<T> {
    fn view(&self) -> Option<Seen> {
        self.inner.view()
    }
}
impl<T: View> View for Either<T> {
    fn view(&self) -> Option<Seen> {
        match self {
            Either::Number(_) => None,
            Either::Fields(x) => x.view(),
        }
    }
}
impl<T: View> View for Tagged<T> {
    fn view(&self) -> Option<Seen> {
        match self {
            Tagged::Number(x) => x.view(),
        }
    }
}
impl<T: View> View for Listed<T> {
    fn view(&self) -> Option<Seen> {
        let first = self.list.first()?.view()?;
        (self.list.len() == 2 && self.list[1].view()? == first).then_some(first)
    }
}
/// Contexts that buffer their input and replay it, borrowed or owned.
#[derive(Serialize, Deserialize)]
struct Flat<T> {
    id: u8,
    #[serde(flatten)]
    inner: T,
}
#[derive(Serialize, Deserialize)]
#[serde(untagged)]
enum Either<T> {
    Number(bool),
    Fields(T),
}
#[derive(Serialize, Deserialize)]
#[serde(tag = "type")]
enum Tagged<T> {
    Number(T),
}
#[derive(Serialize, Deserialize)]
struct Listed<T> {
    list: Vec<T>,
}

type Res<T> = Result<T, String>;
fn e<T, E: std::fmt::Display>(r: Result<T, E>) -> Res<T> {
    r.map_err(|e| e.to_string())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Format {
    Json,
    JsonPretty,
    JsonValue,
    Ron,
    Toml,
    Xml,
}
const FORMATS: [Format; 6] = [Format::Json, Format::JsonPretty, Format::JsonValue, Format::Ron, Format::Toml, Format::Xml];

fn save<T: Serialize>(f: Format, x: &T) -> Res<String> {
    match f {
        Format::Json => e(serde_json::to_string(x)),
        Format::JsonPretty => e(serde_json::to_vec_pretty(x)).map(|v| String::from_utf8(v).unwrap()),
        Format::JsonValue => e(serde_json::to_value(x)).map(|v| v.to_string()),
        Format::Ron => e(ron::to_string(x)),
        Format::Toml => e(toml::to_string(x)),
        Format::Xml => e(quick_xml::se::to_string(x)),
    }
}
/// Every way the format's library reads a text.
fn load<T: DeserializeOwned>(f: Format, s: &str) -> Vec<Res<T>> {
    match f {
        Format::Json | Format::JsonPretty => {
            vec![e(serde_json::from_str(s)), e(serde_json::from_slice(s.as_bytes())), e(serde_json::from_reader(s.as_bytes()))]
        }
        Format::JsonValue => match serde_json::from_str::<serde_json::Value>(s) {
            Ok(v) => vec![e(T::deserialize(&v)), e(serde_json::from_value(v))],
            Err(x) => vec![Err(x.to_string())],
        },
        Format::Ron => vec![e(ron::from_str(s)), e(ron::de::from_bytes(s.as_bytes()))],
        Format::Toml => vec![e(toml::from_str(s)), e(toml::from_slice(s.as_bytes()))],
        Format::Xml => vec![e(quick_xml::de::from_str(s)), e(quick_xml::de::from_reader(s.as_bytes()))],
    }
}

/// The same document written from numbers and from plain Rust types must be the same text, and
/// must hold the same numbers read either way.
fn compare<A: Serialize + DeserializeOwned + View, B: Serialize + DeserializeOwned + View>(f: Format, ctx: &str, a: A, b: B, name: &dyn Fn() -> String, cx: &mut Cx) {
    cx.at(|| format!("{f:?} {ctx} {}", name()));
    let (s, want) = (save(f, &a), save(f, &b));
    if want.is_err() {
        return; // the format cannot hold such a document
    }
    cx.judge(3, s == want, || format!("write {f:?} {ctx} {}", name()), || format!("got {s:?}, should be {want:?}"));
    let Ok(s) = want else { return };
    let (xs, ys) = (load::<A>(f, &s), load::<B>(f, &s));
    for (i, (x, y)) in xs.iter().zip(&ys).enumerate() {
        // what the format cannot give back even as plain types is not a matter of this crate
        let Some(want) = y.as_ref().ok().map(|y| y.view()) else { continue };
        let got = x.as_ref().map(|x| x.view());
        let ok = match (&got, &want) {
            (Ok(g), w) => g == w,
            (Err(_), w) => w.is_none(),
        };
        cx.judge(3, ok, || format!("read {f:?}/{i} {ctx} {}", name()), || format!("{s} gave {got:?}, should be {want:?}"));
    }
}

fn sample<F: Io>(a: i128, b: Option<i128>) -> (Fields<F>, Plain<F>) {
    let (x, y) = (F::of(a), b.map(F::of));
    let t = |a: i128| text::canonical(a, F::P).as_str().to_string();
    (
        Fields { plain: x, str: By(x), float: By(x), repr: By(x), option: y, str_option: Opt(y), float_option: Opt(y), repr_option: Opt(y) },
        Plain {
            plain: t(a),
            str: t(a),
            float: to_f64::<F>(a),
            repr: F::raw(a),
            option: b.map(t),
            str_option: b.map(t),
            float_option: b.map(to_f64::<F>),
            repr_option: b.map(F::raw),
        },
    )
}

fn formats<F: Io>(chk: &mut Check) {
    let rows = core(F::BITS, F::P);
    let step = if chk.thorough { 1 } else { 4 };
    let rows: Vec<i128> = rows.into_iter().step_by(step).chain([0, 1, -1, F::lo(), F::hi()]).collect();
    chk.job(format!("formats {}", F::name()), rows.len() as u64, move |i, cx| {
        let a = rows[i as usize];
        cx.states += 1;
        cx.traces += 1;
        let others = [None, Some(a), Some(rows[rows.len() - 1 - i as usize])];
        for f in FORMATS {
            for b in others {
                let name = || format!("{} bits {a} and {b:?}", F::name());
                let (x, y) = sample::<F>(a, b);
                compare(f, "struct", x, y, &name, cx);
                let (x, y) = sample::<F>(a, b);
                compare(f, "flattened struct", Flat { id: 7, inner: x }, Flat { id: 7, inner: y }, &name, cx);
                let (x, y) = sample::<F>(a, b);
                compare(f, "untagged enum", Either::Fields(x), Either::Fields(y), &name, cx);
                let (x, y) = sample::<F>(a, b);
                compare(f, "tagged enum", Tagged::Number(x), Tagged::Number(y), &name, cx);
                let (x, y) = (sample::<F>(a, b), sample::<F>(a, b));
                compare(f, "list", Listed { list: vec![x.0, y.0] }, Listed { list: vec![x.1, y.1] }, &name, cx);
            }
        }
        collections::<F>(a, others[2].unwrap(), cx);
        xml::<F>(text::canonical(a, F::P).as_str(), cx);
        escaped::<F>(a, cx);
        cx.sample(|| format!("{}: bits {a} in {FORMATS:?}, five kinds of documents", F::name()));
    });
}

fn collections<F: Io>(a: i128, b: i128, cx: &mut Cx) {
    let v: (Vec<F>, BTreeMap<F, F>, [Option<F>; 2], (F, F)) =
        (vec![F::of(a), F::of(b)], BTreeMap::from([(F::of(a), F::of(b))]), [Some(F::of(a)), None], (F::of(b), F::of(a)));
    let t = |a: i128| text::canonical(a, F::P).as_str().to_string();
    let w = (vec![t(a), t(b)], BTreeMap::from([(t(a), t(b))]), [Some(t(a)), None], (t(b), t(a)));
    let name = || format!("{} collections of bits {a} and {b}", F::name());
    for f in [Format::Json, Format::JsonPretty, Format::JsonValue, Format::Ron] {
        let (s, want) = (save(f, &v), save(f, &w));
        cx.judge(3, s == want, || format!("write {f:?} {}", name()), || format!("got {s:?}, should be {want:?}"));
        let Ok(s) = s else { continue };
        for got in load::<(Vec<F>, BTreeMap<F, F>, [Option<F>; 2], (F, F))>(f, &s) {
            cx.judge(3, got.as_ref() == Ok(&v), || format!("read {f:?} {}", name()), || format!("{s} gave {:?}", got));
        }
    }
}

/// A text in an XML attribute, in an element and in a list of elements.
fn xml<F: Io>(s: &str, cx: &mut Cx) {
    #[derive(Deserialize)]
    #[serde(bound = "")]
    struct Attr<F: Io> {
        a: F,
    }
    #[derive(Deserialize)]
    #[serde(bound = "")]
    struct Elem<F: Io> {
        b: F,
    }
    #[derive(Deserialize)]
    #[serde(bound = "")]
    struct List<F: Io> {
        c: Vec<F>,
    }
    if F::BUILD != "full" {
        return; // without the quick-xml feature, elements are not supported
    }
    let want = direct::<F>(s);
    let mut judge = |doc: String, got: Vec<Option<Vec<i128>>>, want: Option<Vec<i128>>| {
        for got in got {
            cx.judge(3, got == want, || format!("read {} from {doc}", F::name()), || format!("got {got:?}, should be {want:?}"));
        }
    };
    let d = format!("<r a=\"{s}\"/>");
    let got = load::<Attr<F>>(Format::Xml, &d).into_iter().map(|x| x.ok().map(|x| vec![x.a.bits()])).collect();
    judge(d, got, want.map(|x| vec![x]));
    let d = format!("<r><b>{s}</b></r>");
    let got = load::<Elem<F>>(Format::Xml, &d).into_iter().map(|x| x.ok().map(|x| vec![x.b.bits()])).collect();
    judge(d, got, want.map(|x| vec![x]));
    let d = format!("<r><c>{s}</c><c>1.0</c></r>");
    let got = load::<List<F>>(Format::Xml, &d).into_iter().map(|x| x.ok().map(|x| x.c.into_iter().map(Fx::bits).collect())).collect();
    judge(d, got, want.zip(direct::<F>("1.0")).map(|(x, y)| vec![x, y]));
}

/// JSON strings with escapes cannot be borrowed from the input.
fn escaped<F: Io>(a: i128, cx: &mut Cx) {
    let t = text::canonical(a, F::P);
    let t = t.as_str();
    for k in [0, t.len() / 2, t.len() - 1] {
        let s = format!("\"{}\\u{:04x}{}\"", &t[..k], t.as_bytes()[k], &t[k + 1..]);
        for got in load::<F>(Format::Json, &s) {
            cx.judge(3, got.as_ref().is_ok_and(|g| g.bits() == a), || format!("read {} from {s}", F::name()), || format!("got {got:?}, should be bits {a}"));
        }
        for got in load::<By<F, 2, true>>(Format::Json, &s) {
            let got = got.map(|g| g.0.bits());
            cx.judge(3, got == Ok(a), || format!("read {} with str from {s}", F::name()), || format!("got {got:?}, should be bits {a}"));
        }
        for got in load::<Opt<F, 2, false>>(Format::Json, &s) {
            let got = got.map(|g| g.0.map(Fx::bits));
            cx.judge(3, got == Ok(Some(a)), || format!("read {} with str_option from {s}", F::name()), || format!("got {got:?}, should be bits {a}"));
        }
    }
}

/// Every short text as a JSON document, bare and quoted, and in XML.
fn documents<F: Io>(chk: &mut Check, all: &Arc<Vec<String>>) {
    let list = all.clone();
    let per = 256;
    chk.job(format!("documents {}", F::name()), list.len().div_ceil(per) as u64, move |i, cx| {
        for s in list.iter().skip(i as usize * per).take(per) {
            cx.states += 1;
            cx.traces += 1;
            cx.at(|| format!("{} from {s}", F::name()));
            let number = |s: &str| -> Option<i128> {
                let serde_json::Value::Number(n) = serde_json::from_str(s).ok()? else { return None };
                match (n.as_u64(), n.as_i64()) {
                    (Some(u), _) => int_bits::<F>(&Big::u(u as u128)),
                    (_, Some(i)) => int_bits::<F>(&Big::i(i as i128)),
                    _ => float_bits::<F>(n.as_f64()?),
                }
            };
            for (doc, want) in [(s.to_string(), number(s)), (format!("\"{s}\""), direct::<F>(s))] {
                for f in [Format::Json, Format::JsonValue] {
                    for got in load::<F>(f, &doc) {
                        let got = got.ok().map(|x| x.bits());
                        cx.judge(3, got == want, || format!("read {} from {f:?} {doc}", F::name()), || format!("got {got:?}, should be {want:?}"));
                    }
                    for got in load::<Option<F>>(f, &doc) {
                        let got = got.ok().map(|x| x.map(Fx::bits));
                        cx.judge(3, got == want.map(Some), || format!("read option of {} from {f:?} {doc}", F::name()), || format!("got {got:?}, should be {want:?}"));
                    }
                }
            }
            if !s.contains(' ') {
                xml::<F>(s, cx);
            }
        }
    });
}

fn schema<F: Io + schemars::JsonSchema>(chk: &mut Check) {
    chk.job(format!("schema {}", F::name()), 1, move |_, cx| {
        cx.states += 1;
        cx.traces += 1;
        let s = serde_json::to_value(schemars::schema_for!(F)).unwrap();
        cx.judge(4, s["type"] == "string", || format!("schema of {}", F::name()), || format!("got {s}, but a string is written"));
        let s = serde_json::to_value(schemars::schema_for!(Vec<Option<F>>)).unwrap();
        let ok = s["items"]["type"] == serde_json::json!(["string", "null"]);
        cx.judge(4, ok, || format!("schema of a list of optional {}", F::name()), || format!("got {s}"));
    });
}

fn main() {
    let mut c = Check::new("C16", OUTCOMES);
    c.rule(
        "states are numbers and single input tokens of the serde data model; transitions are the real Serialize/Deserialize \
         implementations and adapters (plain, wrapped, optional) under a recording serializer and a deserializer that replays one \
         token (every integer width, floats, strings and bytes borrowed / transient / owned, options, compounds). On top, \
         documents of real formats (JSON from text, bytes, reader and value; RON; TOML; XML) compared with the same documents made of String, f64 \
         and raw integers.",
    );
    c.bound("numbers: every 16-bit value, boundary alphabets of all 107 types; strings: all up to 5 (thorough 6) characters over 9, and mutations of canonical texts");
    c.bound("documents: 9 types, all texts up to 5 (thorough 7) characters over 7, bare and quoted; five document shapes in six formats");
    c.assume("the format libraries handle String, f64 and integers correctly; direct conversions are the subject of C11, C13, C14, C15");
    let long = words(b"0195-+.e ", if c.thorough { 6 } else { 5 });
    let docs = Arc::new(words(b"0195-.e", if c.thorough { 7 } else { 5 }));
    for_all_types!(writes(&mut c));
    for_narrow_types!(writes(&mut c));
    for_all_types!(strings(&mut c, &long));
    for_narrow_types!(strings(&mut c, &long));
    for_all_types!(numbers(&mut c));
    for_narrow_types!(numbers(&mut c));
    for_all_types!(schema(&mut c));
    checks_io::for_some_types!(formats(&mut c));
    checks_io::for_some_types!(documents(&mut c, &docs));
    c.run()
}
