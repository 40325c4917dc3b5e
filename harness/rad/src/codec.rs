//! C33: values and errors as bytes and as JSON.
use crate::v::{self, E, OPS, V, op_name, same_float};
use serde_cbor::Value;
use std::collections::{BTreeMap, HashSet, hash_map::DefaultHasher};
use std::convert::TryFrom;
use std::hash::Hasher;
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, long_tapes, tapes},
};
use witnet_crypto::hash::calculate_sha256;
use witnet_data_structures::{
    radon_error::{RadonError, RadonErrors},
    radon_report::{RadonReport, ReportContext, TypeLike},
};
use witnet_rad::{
    error::RadError,
    types::{RadonTypes, serial_iter_decode},
};

type R = Result<(), String>;

// An encoder of our own

fn head(major: u8, n: u64, out: &mut Vec<u8>) {
    let m = major << 5;
    match n {
        0..=23 => out.push(m | n as u8),
        24..=0xff => out.extend([m | 24, n as u8]),
        0x100..=0xffff => {
            out.push(m | 25);
            out.extend((n as u16).to_be_bytes());
        }
        0x1_0000..=0xffff_ffff => {
            out.push(m | 26);
            out.extend((n as u32).to_be_bytes());
        }
        _ => {
            out.push(m | 27);
            out.extend(n.to_be_bytes());
        }
    }
}
fn enc_float(f: f64, out: &mut Vec<u8>) {
    if f.is_nan() {
        out.extend([0xf9, 0x7e, 0]);
    } else if f.is_infinite() {
        out.extend([0xf9, if f > 0.0 { 0x7c } else { 0xfc }, 0]);
    } else if let Some(h) = half(f) {
        out.push(0xf9);
        out.extend(h.to_be_bytes());
    } else if same_float(f64::from(f as f32), f) {
        out.push(0xfa);
        out.extend((f as f32).to_be_bytes());
    } else {
        out.push(0xfb);
        out.extend(f.to_be_bytes());
    }
}
/// The half-precision float that is the same number, if any.
fn half(f: f64) -> Option<u16> {
    let sign = ((f.to_bits() >> 63) as u16) << 15;
    let a = f.abs();
    if a == 0.0 {
        return Some(sign);
    }
    if !(2f64.powi(-24)..=65504.0).contains(&a) {
        return None;
    }
    // The unit is 2^-24 below 2^-14, and 2^(e-10) in the binade e above.
    let e = (((a.to_bits() >> 52) as i32) - 1023).max(-14);
    let n = a / 2f64.powi(e - 10);
    (n.fract() == 0.0).then(|| {
        let n = n as u16;
        // Subnormals have no hidden bit.
        sign | if n < 1024 { n } else { ((e + 15) as u16) << 10 | (n - 1024) }
    })
}
/// Arguments of errors: as above, but halves are widened.
fn enc_arg(v: &Value, out: &mut Vec<u8>) {
    match v {
        Value::Float(f) if same_float(f64::from(*f as f32), *f) || f.is_nan() => {
            out.push(0xfa);
            out.extend(if f.is_nan() { f32::NAN } else { *f as f32 }.to_be_bytes());
        }
        Value::Array(a) => {
            head(4, a.len() as u64, out);
            a.iter().for_each(|x| enc_arg(x, out));
        }
        Value::Map(m) => {
            head(5, m.len() as u64, out);
            for (k, v) in m {
                enc_arg(k, out);
                enc_arg(v, out);
            }
        }
        v => out.extend(serde_cbor::to_vec(v).unwrap()),
    }
}
/// The canonical encoding of a value: shortest lengths, and the keys of maps sorted, shorter ones first.
pub fn enc(v: &V, out: &mut Vec<u8>) -> Result<(), ()> {
    match v {
        V::Bool(b) => out.push(if *b { 0xf5 } else { 0xf4 }),
        V::Int(i) => {
            if *i >= 0 {
                head(0, u64::try_from(*i).map_err(|_| ())?, out);
            } else {
                head(1, u64::try_from(-1 - *i).map_err(|_| ())?, out);
            }
        }
        V::Float(f) => enc_float(*f, out),
        V::Bytes(b) => {
            head(2, b.len() as u64, out);
            out.extend(b);
        }
        V::Str(s) => {
            head(3, s.len() as u64, out);
            out.extend(s.as_bytes());
        }
        V::Arr(a) => {
            head(4, a.len() as u64, out);
            for x in a {
                enc(x, out)?;
            }
        }
        V::Map(m) => {
            head(5, m.len() as u64, out);
            let mut keys: Vec<&String> = m.keys().collect();
            keys.sort_by_key(|k| (k.len(), k.as_bytes().to_vec()));
            for k in keys {
                head(3, k.len() as u64, out);
                out.extend(k.as_bytes());
                enc(&m[k], out)?;
            }
        }
        V::Err(_) => return Err(()),
    }
    Ok(())
}
fn encoded(v: &V) -> Option<Vec<u8>> {
    let mut b = vec![];
    enc(v, &mut b).ok().map(|()| b)
}
fn hash_of(r: &RadonTypes) -> u64 {
    let mut h = DefaultHasher::new();
    std::hash::Hash::hash(r, &mut h);
    h.finish()
}

/// A slightly different value, or the same.
fn altered(t: &mut Tape, v: &V) -> V {
    match (t.below(3), v) {
        (0, _) => v.clone(),
        (_, V::Arr(a)) if !a.is_empty() => {
            let mut a = a.clone();
            let i = t.below(a.len());
            match t.below(4) {
                0 => {
                    a.swap(0, i);
                }
                1 => {
                    a.remove(i);
                }
                _ => a[i] = altered(t, &a[i]),
            }
            V::Arr(a)
        }
        (_, V::Map(m)) if !m.is_empty() => {
            let mut m = m.clone();
            let k = m.keys().nth(t.below(m.len())).unwrap().clone();
            if t.bool() {
                m.remove(&k);
            } else {
                let x = altered(t, &m[&k]);
                m.insert(k, x);
            }
            V::Map(m)
        }
        (_, V::Int(i)) => match t.below(3) {
            0 => V::Int(i.wrapping_add(1)),
            1 => V::Int(i.wrapping_neg()),
            _ => V::Float(*i as f64),
        },
        (_, V::Float(f)) => match t.below(3) {
            0 => V::Float(-f),
            1 => V::Float(f64::from(*f as f32)),
            _ => V::Float(f64::from_bits(f.to_bits() ^ 1)),
        },
        (_, V::Str(s)) => {
            if t.bool() {
                V::Bytes(s.clone().into_bytes())
            } else {
                V::Str(format!("{s} "))
            }
        }
        (_, V::Bytes(b)) => {
            let mut b = b.clone();
            b.push(0);
            V::Bytes(b)
        }
        (_, V::Bool(b)) => V::Bool(!b),
        _ => v.clone(),
    }
}

fn json_of(v: &V) -> serde_json::Value {
    use serde_json::{Value as J, json};
    match v {
        V::Arr(a) => json!({"RadonArray": a.iter().map(json_of).collect::<Vec<_>>()}),
        V::Bool(b) => json!({"RadonBoolean": b}),
        V::Bytes(b) => json!({"RadonBytes": b}),
        V::Float(f) => json!({"RadonFloat": f}),
        V::Int(i) => json!({"RadonInteger": i.to_string()}),
        V::Map(m) => json!({"RadonMap": J::Object(m.iter().map(|(k, v)| (k.clone(), json_of(v))).collect())}),
        V::Str(s) => json!({"RadonString": s}),
        V::Err(_) => unreachable!(),
    }
}

fn values(t: &mut Tape, o: &mut Obs) -> R {
    let depth = t.below(5);
    let v = v::value(t, depth);
    let rt = v.rt();
    let want = encoded(&v);
    let got = rt.encode();
    match (&got, &want) {
        (Ok(g), Some(w)) => ensure!(g == w, "{v:?} is encoded as {}, expected {}", hex::encode(g), hex::encode(w)),
        (Err(_), None) => {}
        _ => return Err(format!("{v:?} is encoded as {got:?}, expected {want:?}")),
    }
    ensure_eq!(V::of(&rt), v, "a value changed while it was encoded");
    if let Some(w) = &want {
        let back = RadonTypes::try_from(w.as_slice()).map_err(|e| format!("{v:?} is not decoded: {e}"))?;
        // Integers below 64 bits have no place in the decoder.
        if !deep(&v, &|x| matches!(x, V::Int(i) if *i < i128::from(i64::MIN))) {
            ensure_eq!(V::of(&back), v, "{} is decoded", hex::encode(w));
        }
        let value = Value::try_from(rt.clone()).map_err(|e| format!("{v:?} as a CBOR value: {e}"))?;
        ensure!(serde_cbor::to_vec(&value).ok().as_ref() == Some(w), "{v:?} as a CBOR value is {value:?}");
        let again = RadonTypes::try_from(value).map_err(|e| format!("{v:?} from a CBOR value: {e}"))?;
        ensure_eq!(V::of(&again), v, "from a CBOR value");
        ensure_eq!(rt.clone().hash().map_err(|e| e.to_string())?.as_ref().to_vec(), calculate_sha256(w).0.to_vec(), "hash of {v:?}");
        let report = RadonReport::from_result(Ok(rt.clone()), &ReportContext::default());
        ensure!(Vec::<u8>::try_from(&report).ok().as_ref() == Some(w), "the report of {v:?} is encoded differently");
    } else {
        ensure!(rt.clone().hash().is_err(), "{v:?} has a hash and no encoding");
    }
    // Equality
    let other = altered(t, &v);
    let rt2 = other.rt();
    let equal = other == v;
    ensure!(rt == rt.clone(), "{v:?} is different from itself");
    ensure_eq!(rt == rt2, equal, "{v:?} and {other:?} are equal");
    ensure_eq!(rt2 == rt, equal, "{other:?} and {v:?} are equal");
    if equal {
        ensure_eq!(hash_of(&rt), hash_of(&rt2), "hashes of equal values {v:?}");
    }
    // JSON
    let j = serde_json::to_value(&rt);
    if !deep(&v, &|x| matches!(x, V::Float(f) if !f.is_finite())) {
        ensure_eq!(j.map_err(|e| e.to_string())?, json_of(&v), "JSON of {v:?}");
    }
    o.nontrivial_if(v.size() > 2);
    o.label(v.ty());
    o.label(if want.is_some() { "encodable" } else { "not encodable" });
    o.label(if equal { "compared with an equal one" } else { "compared with a different one" });
    o.show(|| format!("{v:?}"));
    Ok(())
}
fn deep(v: &V, p: &impl Fn(&V) -> bool) -> bool {
    p(v) || match v {
        V::Arr(a) => a.iter().any(|x| deep(x, p)),
        V::Map(m) => m.values().any(|x| deep(x, p)),
        _ => false,
    }
}

// Errors

const CODES: [u8; 26] = [
    0, 1, 2, 3, 0x10, 0x11, 0x20, 0x30, 0x31, 0x40, 0x41, 0x42, 0x50, 0x51, 0x52, 0x53, 0x54, 0x60, 0x61, 0x70, 0x71, 0xe0, 0xe1, 0xe2, 0xff, 0xff,
];

/// An error, the code and the arguments that stand for it, and how it reads once decoded if not the same.
fn an_error(t: &mut Tape) -> (RadError, u8, Vec<Value>, Option<RadError>) {
    let s = |t: &mut Tape| if t.bool() { v::text(t) } else { t.string(30) };
    let plain = |e: RadError, c: u8| (e, c, vec![], None);
    match t.below(30) {
        0 => plain(RadError::Unknown, 0),
        1 => plain(RadError::SourceScriptNotCBOR, 1),
        2 => plain(RadError::SourceScriptNotArray, 2),
        3 => plain(RadError::SourceScriptNotRADON, 3),
        4 => plain(RadError::RequestTooManySources, 0x10),
        5 => plain(RadError::ScriptTooManyCalls, 0x11),
        6..=9 => {
            let input_type = s(t);
            let operator = s(t);
            let args = t.bool().then(|| {
                let n = t.below(4);
                (0..n).map(|_| crate::scripts::any_arg(t, 3)).collect::<Vec<_>>()
            });
            // Undefined and null are alike.
            let a = args.clone().map_or(Value::Null, Value::Array);
            let e = RadError::UnsupportedOperator { input_type: input_type.clone(), operator: operator.clone(), args };
            (e, 0x20, vec![Value::Text(input_type), Value::Text(operator), a], None)
        }
        10 => {
            let c = t.u16();
            (RadError::HttpStatus { status_code: c }, 0x30, vec![Value::Integer(c.into())], None)
        }
        11 => plain(RadError::RetrieveTimeout, 0x31),
        12 => plain(RadError::Underflow, 0x40),
        13 => plain(RadError::Overflow, 0x41),
        14 => plain(RadError::DivisionByZero, 0x42),
        15 => plain(RadError::NoReveals, 0x50),
        16 | 17 => {
            let (a, b) = (v::floats(t), v::floats(t));
            let (a, b) = (if a.is_nan() { 0.5 } else { a }, if b.is_nan() { 0.51 } else { b });
            (RadError::InsufficientConsensus { achieved: a, required: b }, 0x51, vec![Value::Float(a), Value::Float(b)], None)
        }
        18 => plain(RadError::InsufficientCommits, 0x52),
        19 => plain(RadError::TooManyWitnesses, 0x54),
        20 => plain(RadError::MalformedReveal, 0x60),
        21 => plain(RadError::EncodeReveal, 0x61),
        22 => {
            let i = t.u32() as i32 >> t.below(32);
            (RadError::ArrayIndexOutOfBounds { index: i }, 0x70, vec![Value::Integer(i.into())], None)
        }
        23 => {
            let key = s(t);
            (RadError::MapKeyNotFound { key: key.clone() }, 0x71, vec![Value::Text(key)], None)
        }
        24 | 25 => {
            // What happened inside is told by the message, and gets lost otherwise.
            let message = t.bool().then(|| s(t));
            let inner = t.bool().then(|| Box::new(if t.bool() { RadError::EmptyArray } else { RadError::HttpOther { message: "it's".into() } }));
            let text = match (&message, &inner) {
                (Some(m), _) => m.clone(),
                (None, Some(i)) => format!("inner: {i:?}"),
                (None, None) => "inner: None".into(),
            };
            let back = RadError::TallyExecution { inner: None, message: Some(text.clone()) };
            (RadError::TallyExecution { inner, message }, 0x53, vec![Value::Text(text)], Some(back))
        }
        26 | 27 => {
            let message = t.bool().then(|| s(t));
            let inner = t.bool().then(|| Box::new(if t.bool() { RadError::EmptyArray } else { RadError::HttpOther { message: "it's".into() } }));
            let text = match (&message, &inner) {
                (Some(m), _) => m.clone(),
                (None, Some(i)) => format!("inner: {i:?}").replace('\'', "\\'"),
                (None, None) => "inner: None".into(),
            };
            let back = RadError::UnhandledIntercept { inner: None, message: Some(text.clone()) };
            (RadError::UnhandledIntercept { inner, message }, 0xff, vec![Value::Text(text)], Some(back))
        }
        28 => {
            let inner = t.bool().then(|| Box::new(RadError::EmptyArray));
            (RadError::UnhandledInterceptV2 { inner }, 0xff, vec![], Some(RadError::UnhandledInterceptV2 { inner: None }))
        }
        _ => (RadError::InconsistentSource, 0, vec![], Some(RadError::Unknown)),
    }
}
/// Errors that have no code.
fn codeless(t: &mut Tape) -> RadError {
    match t.below(6) {
        0 => RadError::EmptyArray,
        1 => RadError::ParseInt { message: t.string(6) },
        2 => RadError::Decode { from: "a", to: "b" },
        3 => RadError::HttpOther { message: t.string(6) },
        4 => RadError::InputTooBig,
        _ => RadError::UnsupportedFilterInAT { operator: t.u8() },
    }
}
fn has_nan(a: &Value) -> bool {
    match a {
        Value::Float(f) => f.is_nan(),
        Value::Array(a) => a.iter().any(has_nan),
        Value::Map(m) => m.iter().any(|(k, v)| has_nan(k) || has_nan(v)),
        _ => false,
    }
}

fn has_map(a: &Value) -> bool {
    match a {
        Value::Map(m) => !m.is_empty(),
        Value::Array(a) => a.iter().any(has_map),
        _ => false,
    }
}

fn odd_keys(a: &Value) -> bool {
    match a {
        Value::Map(m) => m.iter().any(|(k, v)| !matches!(k, Value::Bool(_) | Value::Integer(_) | Value::Text(_) | Value::Bytes(_)) || odd_keys(v)),
        Value::Array(a) => a.iter().any(odd_keys),
        _ => false,
    }
}

fn errors(t: &mut Tape, o: &mut Obs) -> R {
    if t.odds(12) {
        // Errors without a code are told as such.
        let e = codeless(t);
        ensure!(RadonError::try_from(e.clone()).is_err(), "{e:?} has no code and becomes an error of RADON");
        let r = RadonTypes::intercept(Err(e.clone()));
        ensure!(
            matches!(&r, RadonTypes::RadonError(x) if matches!(x.inner(), RadError::UnhandledIntercept { inner: Some(i), message: None } if **i == e)),
            "{e:?} is intercepted as {r:?}"
        );
        let mut r = r;
        r.remove_message_from_error_unhandled_intercept();
        ensure_eq!(r.encode().map_err(|e| e.to_string())?, vec![0xd8, 0x27, 0x81, 0x18, 0xff], "{e:?}, with the message removed");
        o.label("no code");
        return Ok(());
    }
    let (e, code, args, back) = an_error(t);
    // As the error of some other value
    let rt = RadonTypes::intercept(Err(e.clone()));
    ensure!(matches!(&rt, RadonTypes::RadonError(x) if *x.inner() == e) || args.iter().any(has_nan), "{e:?} is intercepted as {rt:?}");
    let mut list = vec![Value::Integer(code.into())];
    list.extend(args.clone());
    let mut want = vec![0xd8, 0x27];
    enc_arg(&Value::Array(list), &mut want);
    let got = match rt.encode() {
        // Maps of arguments may have keys which there is no way to encode.
        Err(_) if args.iter().any(odd_keys) => {
            o.label("not encodable");
            return Ok(());
        }
        r => r.map_err(|x| format!("{e:?} is not encoded: {x}"))?,
    };
    // The keys of maps have an order of their own.
    if !args.iter().any(has_map) {
        ensure_eq!(hex::encode(&got), hex::encode(&want), "encoding of {e:?}");
    }
    ensure_eq!(got.len(), want.len(), "length of the encoding of {e:?}");
    let decoded = RadonTypes::try_from(got.as_slice()).map_err(|x| format!("{e:?} is not decoded: {x}"))?;
    let RadonTypes::RadonError(d) = &decoded else { return Err(format!("{e:?} is decoded as {decoded:?}")) };
    if !args.iter().any(has_nan) {
        ensure_eq!(*d.inner(), back.clone().unwrap_or(e.clone()), "{e:?} is decoded");
    }
    let stable = decoded.encode().map_err(|x| x.to_string())?;
    ensure_eq!(hex::encode(&stable), hex::encode(&got), "{e:?} decoded and encoded again");
    ensure!(decoded == rt && hash_of(&decoded) == hash_of(&rt), "{e:?} and what it is decoded as differ");
    ensure_eq!(u8::from(e.try_into_error_code().map_err(|x| x.to_string())?), code, "code of {e:?}");
    // Two errors are the same if they are encoded alike.
    let (e2, ..) = if t.bool() { an_error(t) } else { (e.clone(), 0, vec![], None) };
    let other = RadonTypes::RadonError(RadonError::new(e2.clone()));
    ensure_eq!(other == rt, other.encode().ok() == Some(got.clone()), "{e:?} and {e2:?} are equal");
    ensure!(Value::try_from(rt.clone()).is_err(), "an error as a CBOR value, which has no tags");
    ensure!(V::Arr(vec![V::Int(1)]).rt() != rt, "an error equals an array");
    let mut r = rt.clone();
    r.remove_message_from_error_unhandled_intercept();
    let short = r.encode().map_err(|e| e.to_string())?;
    if matches!(e, RadError::UnhandledIntercept { .. }) {
        ensure_eq!(short, vec![0xd8, 0x27, 0x81, 0x18, 0xff], "{e:?}, with the message removed");
    } else {
        ensure_eq!(short, got, "{e:?}, which has no message to remove");
    }
    let json = serde_json::to_value(&rt).map_err(|e| e.to_string())?;
    ensure_eq!(json, serde_json::json!({"RadonError": e.to_string()}), "JSON of an error");
    o.nontrivial();
    o.label_if(!args.is_empty(), "with arguments");
    o.label_if(back.is_some(), "not decoded as the same");
    o.show(|| format!("{e:?} {}", hex::encode(&got)));
    Ok(())
}

/// An error keeps its arguments no matter how deep or long they are, or fails to be encoded: a crash would bring witnesses down.
fn deep_arguments(t: &mut Tape, o: &mut Obs) -> R {
    let depth = t.below(40);
    let width = if t.odds(60) { *t.pick(&[999, 1000, 1001, 3000]) } else { 1 };
    let map = t.bool();
    let mut a = match t.below(3) {
        0 => Value::Array(vec![Value::Integer(1); width]),
        1 => Value::Map((0..width).map(|i| (Value::Integer(i as i128), Value::Null)).collect()),
        _ => Value::Text("x".repeat(width)),
    };
    for _ in 0..depth {
        a = if map { Value::Map([(Value::Integer(1), a)].into()) } else { Value::Array(vec![a]) };
    }
    let script = vec![(witnet_rad::operators::RadonOpCodes::ArrayCount, Some(vec![a.clone()]))];
    let mut context = ReportContext::default();
    let report = witnet_rad::script::execute_radon_script(V::Str("x".into()).rt(), &script, &mut context, witnet_rad::script::RadonScriptExecutionSettings::disable_all())
        .map_err(|e| e.to_string())?;
    let RadonTypes::RadonError(e) = &report.result else { return Err("an unsupported operator is supported".into()) };
    ensure!(matches!(e.inner(), RadError::UnsupportedOperator { args: Some(x), .. } if x[0] == a), "{e:?} for the arguments {a:?}");
    let bytes = Vec::<u8>::try_from(&report);
    let same = report.result == report.result.clone();
    ensure!(same, "an error differs from itself");
    if depth < 10 && width < 900 {
        let b = bytes.clone().map_err(|e| format!("small arguments are not encoded: {e}"))?;
        let back = RadonTypes::try_from(b.as_slice()).map_err(|e| e.to_string())?;
        ensure!(back == report.result, "{:?} is decoded as {back:?}", report.result);
    }
    o.nontrivial_if(depth > 8 || width > 900);
    o.label(if bytes.is_ok() { "encodable" } else { "not encodable" });
    Ok(())
}

// Any bytes

#[derive(Clone, Debug)]
enum C {
    Int(i128),
    Bytes(Vec<u8>),
    Text(String),
    Chunks(u8, Vec<Vec<u8>>),
    Arr(Vec<C>, bool),
    Map(Vec<(C, C)>, bool),
    Tag(u64, Box<C>),
    Simple(u8),
    F32(f32),
    F64(f64),
}
impl C {
    fn put(&self, out: &mut Vec<u8>) {
        match self {
            C::Int(i) if *i >= 0 => head(0, *i as u64, out),
            C::Int(i) => head(1, (-1 - i) as u64, out),
            C::Bytes(b) => {
                head(2, b.len() as u64, out);
                out.extend(b);
            }
            C::Text(s) => {
                head(3, s.len() as u64, out);
                out.extend(s.as_bytes());
            }
            C::Chunks(m, c) => {
                out.push(m << 5 | 31);
                for c in c {
                    head(*m, c.len() as u64, out);
                    out.extend(c);
                }
                out.push(0xff);
            }
            C::Arr(a, open) => {
                if *open {
                    out.push(0x9f);
                } else {
                    head(4, a.len() as u64, out);
                }
                for x in a {
                    x.put(out);
                }
                if *open {
                    out.push(0xff);
                }
            }
            C::Map(m, open) => {
                if *open {
                    out.push(0xbf);
                } else {
                    head(5, m.len() as u64, out);
                }
                for (k, v) in m {
                    k.put(out);
                    v.put(out);
                }
                if *open {
                    out.push(0xff);
                }
            }
            C::Tag(n, x) => {
                head(6, *n, out);
                x.put(out);
            }
            C::Simple(n) => head(7, u64::from(*n), out),
            C::F32(f) => {
                out.push(0xfa);
                out.extend(f.to_be_bytes());
            }
            C::F64(f) => {
                out.push(0xfb);
                out.extend(f.to_be_bytes());
            }
        }
    }
    fn depth(&self) -> usize {
        match self {
            C::Arr(a, _) => 1 + a.iter().map(C::depth).max().unwrap_or(0),
            C::Map(m, _) => 1 + m.iter().map(|(k, v)| k.depth().max(v.depth())).max().unwrap_or(0),
            C::Tag(_, x) => 1 + x.depth(),
            _ => 1,
        }
    }
    /// What arguments of errors may be.
    fn arg(&self) -> Option<Value> {
        Some(match self {
            C::Int(i) => Value::Integer(*i),
            C::Bytes(b) => Value::Bytes(b.clone()),
            C::Text(s) => Value::Text(s.clone()),
            C::Chunks(2, c) => Value::Bytes(c.concat()),
            C::Chunks(_, c) => Value::Text(String::from_utf8(c.concat()).ok()?),
            C::Arr(a, _) => Value::Array(a.iter().map(C::arg).collect::<Option<_>>()?),
            C::Map(m, _) => Value::Map(m.iter().map(|(k, v)| Some((k.arg()?, v.arg()?))).collect::<Option<_>>()?),
            C::Tag(_, x) => x.arg()?,
            C::Simple(20) => Value::Bool(false),
            C::Simple(21) => Value::Bool(true),
            C::Simple(22 | 23) => Value::Null,
            C::Simple(_) => return None,
            C::F32(f) => Value::Float(f64::from(*f)),
            C::F64(f) => Value::Float(*f),
        })
    }
    /// Whether the decoder takes it: keys of maps are scalar and different.
    fn well_formed(&self) -> bool {
        match self {
            C::Arr(a, _) => a.iter().all(C::well_formed),
            C::Map(m, _) => {
                let mut seen = HashSet::new();
                m.iter().all(|(k, v)| {
                    let mut b = vec![];
                    k.put(&mut b);
                    k.well_formed() && v.well_formed() && seen.insert(b) && matches!(k, C::Int(_) | C::Bytes(_) | C::Text(_) | C::Chunks(..) | C::Simple(20 | 21))
                })
            }
            C::Tag(_, x) => x.well_formed(),
            C::Chunks(3, c) => c.iter().all(|c| std::str::from_utf8(c).is_ok()),
            _ => true,
        }
    }
    fn value(&self) -> Result<V, ()> {
        Ok(match self {
            C::Int(i) => V::Int(*i),
            C::Bytes(b) => V::Bytes(b.clone()),
            C::Text(s) => V::Str(s.clone()),
            C::Arr(a, _) => V::Arr(a.iter().map(C::value).collect::<Result<_, _>>()?),
            // Keys that are not text, and values that are none, are skipped.
            C::Map(m, _) => V::Map(
                m.iter()
                    .filter_map(|(k, v)| match k {
                        C::Text(k) => v.value().ok().map(|v| (k.clone(), v)),
                        _ => None,
                    })
                    .collect::<BTreeMap<_, _>>(),
            ),
            C::Tag(39, x) => V::Err(x.error()?),
            C::Tag(_, x) => x.value()?,
            C::Simple(20) => V::Bool(false),
            C::Simple(21) => V::Bool(true),
            C::F32(f) => V::Float(f64::from(*f)),
            C::F64(f) => V::Float(*f),
            C::Simple(_) | C::Chunks(..) => return Err(()),
        })
    }
    fn error(&self) -> Result<E, ()> {
        let Some(Value::Array(a)) = self.arg() else { return Err(()) };
        let Some(Value::Integer(code)) = a.first() else { return Err(()) };
        let code = u8::try_from(*code).map_err(|_| ())?;
        if !CODES.contains(&code) {
            return Err(());
        }
        let a = &a[1..];
        let text = |i: usize| match &a[i] {
            Value::Text(s) => Ok(s.clone()),
            Value::Bytes(b) => String::from_utf8(b.clone()).map_err(|_| ()),
            _ => Err(()),
        };
        let int = |i: usize, lo: i128, hi: i128| match &a[i] {
            Value::Integer(n) if *n >= lo && *n <= hi => Ok(*n),
            _ => Err(()),
        };
        let need = |n: usize| if a.len() == n { Ok(()) } else { Err(()) };
        Ok(match code {
            0x20 => {
                need(3)?;
                let (ty, op) = (text(0)?, text(1)?);
                if !matches!(&a[2], Value::Null | Value::Array(_)) {
                    return Err(());
                }
                let t = ["RadonArray", "RadonBoolean", "RadonBytes", "RadonFloat", "RadonInteger", "RadonMap", "RadonString"].into_iter().find(|t| *t == ty);
                let op = OPS.iter().find(|o| o.1 == op);
                match (t, op) {
                    (Some(ty), Some(op)) => E::Unsupported { ty, op: op.0 },
                    _ => E::Coded(0x20),
                }
            }
            0x30 => {
                need(1)?;
                int(0, 0, 65535)?;
                E::Coded(code)
            }
            0x41 => E::Overflow,
            0x51 => {
                need(2)?;
                let float = |i: usize| match &a[i] {
                    Value::Float(_) => Ok(()),
                    Value::Integer(n) if *n >= i128::from(i64::MIN) && *n <= i128::from(u64::MAX) => Ok(()),
                    _ => Err(()),
                };
                float(0)?;
                float(1)?;
                E::Coded(code)
            }
            0x53 => {
                need(1)?;
                text(0)?;
                E::Coded(code)
            }
            0x70 => {
                need(1)?;
                E::Index(int(0, i32::MIN.into(), i32::MAX.into())? as i32)
            }
            0x71 => {
                need(1)?;
                E::Key(text(0)?)
            }
            0xff => {
                if !a.is_empty() {
                    need(1)?;
                    text(0)?;
                }
                E::Other
            }
            // Errors of the bridge mean nothing here.
            0xe0..=0xe2 => E::Coded(0x60),
            c => E::Coded(c),
        })
    }
}
fn cbor(t: &mut Tape, depth: usize) -> C {
    match t.below(if depth == 0 { 9 } else { 15 }) {
        0 => C::Int(v::cbor_int(t).max(i64::MIN.into())),
        1 => C::Text(v::text(t)),
        2 => C::Int(t.below(30) as i128),
        3 => {
            let n = t.below(5);
            C::Bytes(t.bytes(n))
        }
        4 => C::Simple(20 + t.below(2) as u8),
        5 => C::F64(v::floats(t)),
        6 => C::F32(v::floats(t) as f32),
        7 => match t.below(3) {
            0 => C::Simple(*t.pick(&[22, 23, 22, 0, 19, 32, 255])),
            _ => {
                let m = 2 + t.below(2) as u8;
                let n = t.below(3);
                C::Chunks(m, (0..n).map(|_| v::text(t).into_bytes()).collect())
            }
        },
        8 => C::Text(t.pick(&v::KEYS).to_string()),
        9 | 10 => {
            let n = t.below(5);
            C::Arr((0..n).map(|_| cbor(t, depth - 1)).collect(), t.odds(30))
        }
        11 | 12 => {
            let n = t.below(4);
            C::Map(
                (0..n)
                    .map(|_| {
                        let k = if t.odds(60) { cbor(t, 0) } else { C::Text(t.pick(&v::KEYS).to_string()) };
                        let k = if let C::Int(i) = k { C::Int(i.abs()) } else { k };
                        (k, cbor(t, depth - 1))
                    })
                    .collect(),
                t.odds(30),
            )
        }
        13 => {
            let tag = *t.pick(&[39, 39, 0, 2, 38, 40, 24, 55799]);
            C::Tag(tag, Box::new(cbor(t, depth - 1)))
        }
        _ => an_error_in_cbor(t),
    }
}
fn an_error_in_cbor(t: &mut Tape) -> C {
    let code = if t.odds(20) { cbor(t, 0) } else if t.odds(20) { C::Int(t.u8().into()) } else { C::Int((*t.pick(&CODES)).into()) };
    let mut a = vec![code];
    let text = |t: &mut Tape| C::Text(if t.bool() { v::text(t) } else { t.pick(&["RadonString", "RadonMap", "ArrayCount", "Identity"]).to_string() });
    match (&a[0], t.odds(200)) {
        (C::Int(0x20), true) => {
            a.push(text(t));
            a.push(text(t));
            a.push(if t.bool() { C::Simple(22) } else { C::Arr(vec![cbor(t, 1)], false) });
        }
        (C::Int(0x30 | 0x70), true) => a.push(C::Int(v::cbor_int(t).max(i64::MIN.into()))),
        (C::Int(0x53 | 0x71 | 0xff), true) => a.push(text(t)),
        (C::Int(0x51), true) => {
            a.push(if t.bool() { C::F64(v::floats(t)) } else { C::Int(t.below(3) as i128) });
            a.push(C::F32(v::floats(t) as f32));
        }
        _ => {
            let n = t.below(4);
            a.extend((0..n).map(|_| cbor(t, 1)));
        }
    }
    if t.odds(10) {
        a.push(cbor(t, 1));
    }
    C::Tag(39, Box::new(C::Arr(a, t.odds(20))))
}

fn decoding(t: &mut Tape, o: &mut Obs) -> R {
    let c = if t.odds(60) { an_error_in_cbor(t) } else { cbor(t, 4) };
    let mut b = vec![];
    c.put(&mut b);
    let got = RadonTypes::try_from(b.as_slice());
    if c.depth() < 16 {
        let want = if c.well_formed() { c.value() } else { Err(()) };
        match (&got, &want) {
            (Ok(g), Ok(w)) => ensure!(V::of(g) == *w, "{} is decoded as {g:?}, expected {w:?}", hex::encode(&b)),
            (Err(_), Err(())) => {}
            _ => return Err(format!("{} ({c:?}) is decoded as {got:?}, expected {want:?}", hex::encode(&b))),
        }
    }
    o.label(match &got {
        Ok(RadonTypes::RadonError(_)) => "an error",
        Ok(_) => "a value",
        Err(_) => "refused",
    });
    if let Ok(g) = got {
        // Encoding what was decoded never crashes, and gives something that is decoded as the same.
        if let Ok(again) = g.encode()
            && let Ok(x) = RadonTypes::try_from(again.as_slice())
        {
            ensure!(x == g, "{} is decoded as {g:?} and then as {x:?}", hex::encode(&b));
        }
        ensure!(g == g.clone(), "{g:?} differs from itself");
        ensure_eq!(hash_of(&g), hash_of(&g.clone()), "hash of {g:?}");
        o.nontrivial_if(b.len() > 3);
    }
    o.show(|| format!("{c:?}"));
    Ok(())
}

/// Bytes of any sort: never a crash.
fn garbage(t: &mut Tape, o: &mut Obs) -> R {
    let b = if t.bool() {
        let n = t.below(40);
        t.bytes(n)
    } else {
        let mut b = vec![];
        cbor(t, 4).put(&mut b);
        for _ in 0..1 + t.below(3) {
            if !b.is_empty() {
                let i = t.below(b.len());
                match t.below(3) {
                    0 => b[i] ^= 1 << t.below(8),
                    1 => b.truncate(i),
                    _ => b.insert(i, t.u8()),
                }
            }
        }
        b
    };
    // At the start, what gets an error decoded
    let b = if t.odds(60) { [vec![0xd8, 0x27], b].concat() } else { b };
    let r = RadonTypes::try_from(b.as_slice());
    if let Ok(x) = &r {
        let _ = x.encode();
        ensure!(*x == x.clone(), "{x:?} differs from itself");
        o.nontrivial();
    }
    Ok(())
}

fn skip(_: RadError, _: &[u8], _: &usize) -> Option<RadonReport<RadonTypes>> {
    None
}
fn replace(_: RadError, _: &[u8], _: &usize) -> Option<RadonReport<RadonTypes>> {
    Some(RadonReport::from_result(Err(RadError::MalformedReveal), &ReportContext::default()))
}

/// Reveals: each is decoded on its own.
fn many(t: &mut Tape, o: &mut Obs) -> R {
    let n = t.below(9);
    let on = t.bool();
    let wips = if on { crate::scripts::wips(&["WIP0026"]) } else { crate::scripts::wips(&[]) };
    ensure_eq!(wips.wip0026(), on, "WIP 26 in force");
    let mut reveals: Vec<(Vec<u8>, Option<V>)> = vec![];
    for _ in 0..n {
        let (b, v) = match t.below(8) {
            0 => (vec![0xd8, 0x27, 0x81, 0x18, 0x61], on.then_some(V::Err(E::Coded(0x61)))),
            1 => {
                let n = t.below(3);
                let b = t.bytes(n);
                let v = RadonTypes::try_from(b.as_slice()).ok().map(|v| V::of(&v));
                (b, v)
            }
            2 => (vec![], None),
            3 => {
                let mut b = vec![];
                let c = an_error_in_cbor(t);
                c.put(&mut b);
                let v = c.value().ok().filter(|v| c.well_formed() && (on || *v != V::Err(E::Coded(0x61))));
                (b, v)
            }
            _ => {
                let v = v::value(t, 1);
                match encoded(&v) {
                    Some(b) if !deep(&v, &|x| matches!(x, V::Int(i) if *i < i128::from(i64::MIN))) => (b, Some(v)),
                    _ => (vec![0x01], Some(V::Int(1))),
                }
            }
        };
        reveals.push((b, v));
    }
    let ids: Vec<usize> = (0..n).collect();
    let run = |f| -> Vec<V> { serial_iter_decode(&mut reveals.iter().zip(&ids).map(|((b, _), i)| (b.as_slice(), i)), f, &wips).iter().map(|r| V::of(&r.result)).collect() };
    let want: Vec<V> = reveals.iter().filter_map(|r| r.1.clone()).collect();
    let got = run(skip);
    ensure!(got == want, "{got:?}, expected {want:?}, from {reveals:?}");
    let want: Vec<V> = reveals.iter().map(|r| r.1.clone().unwrap_or(V::Err(E::Coded(0x60)))).collect();
    let got = run(replace);
    ensure!(got == want, "with replacements: {got:?}, expected {want:?}, from {reveals:?}");
    o.nontrivial_if(n > 1);
    o.label_if(reveals.iter().any(|r| r.1.is_none()), "some refused");
    Ok(())
}

/// The numbers of the errors, which contracts rely on.
fn codes(code: &u16, o: &mut Obs) -> R {
    let c = *code as u8;
    let known = RadonErrors::try_from(c);
    ensure_eq!(known.is_ok(), CODES.contains(&c), "error code {c:#x} exists");
    if let Ok(k) = known {
        ensure_eq!(u8::from(k), c, "number of {k:?}");
        o.nontrivial();
    }
    // On its own, each is what its number says or lacks its arguments.
    let mut b = vec![0xd8, 0x27, 0x81];
    head(0, c.into(), &mut b);
    let got = RadonTypes::try_from(b.as_slice());
    let want = C::Tag(39, Box::new(C::Arr(vec![C::Int(c.into())], false))).value();
    match (&got, &want) {
        (Ok(g), Ok(w)) => ensure!(V::of(g) == *w, "error {c:#x} is decoded as {g:?}, expected {w:?}"),
        (Err(_), Err(())) => {}
        _ => return Err(format!("error {c:#x} is decoded as {got:?}, expected {want:?}")),
    }
    let _ = op_name(c);
    Ok(())
}

pub fn c33(c: &mut Check) {
    c.sub("values", "it contains another value", 250_000, 3_000_000, || long_tapes(160), |b, o| values(&mut b.tape(), o));
    c.sub("errors", "it has a code", 200_000, 2_000_000, || tapes(96), |b, o| errors(&mut b.tape(), o));
    c.sub("arguments of errors", "deep or long", 15_000, 100_000, || tapes(16), |b, o| deep_arguments(&mut b.tape(), o));
    c.sub("decoding", "it is decoded and is more than a number", 300_000, 4_000_000, || long_tapes(160), |b, o| decoding(&mut b.tape(), o));
    c.sub("any bytes", "they are decoded", 300_000, 4_000_000, || long_tapes(80), |b, o| garbage(&mut b.tape(), o));
    c.sub("reveals", "two or more", 100_000, 1_000_000, || long_tapes(120), |b, o| many(&mut b.tape(), o));
    c.each("codes of errors", "it exists", (0..256u16).collect::<Vec<_>>(), codes);
}
