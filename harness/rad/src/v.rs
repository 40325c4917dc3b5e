//! Values of RADON scripts, on our side: structural equality, conversions, generators.
use std::collections::BTreeMap;
use vpkit::tape::Tape;
use witnet_data_structures::radon_error::RadonErrors;
use witnet_rad::{
    error::RadError,
    types::{
        RadonType, RadonTypes, array::RadonArray, boolean::RadonBoolean, bytes::RadonBytes, float::RadonFloat, integer::RadonInteger,
        map::RadonMap, string::RadonString,
    },
};

#[derive(Clone, Debug)]
pub enum V {
    Arr(Vec<V>),
    Bool(bool),
    Bytes(Vec<u8>),
    Float(f64),
    Int(i128),
    Map(BTreeMap<String, V>),
    Str(String),
    Err(E),
}
use V::*;

/// An error as others see it: the ones with a code of their own keep what they say, the rest are alike.
#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Unsupported { ty: &'static str, op: u8 },
    Overflow,
    Index(i32),
    Key(String),
    Coded(u8),
    Other,
}

pub fn same_float(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
}

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (Arr(a), Arr(b)) => a == b,
            (Bool(a), Bool(b)) => a == b,
            (Bytes(a), Bytes(b)) => a == b,
            (Float(a), Float(b)) => same_float(*a, *b),
            (Int(a), Int(b)) => a == b,
            (Map(a), Map(b)) => a == b,
            (Str(a), Str(b)) => a == b,
            (Err(a), Err(b)) => a == b,
            _ => false,
        }
    }
}

impl V {
    pub fn ty(&self) -> &'static str {
        match self {
            Arr(_) => "RadonArray",
            Bool(_) => "RadonBoolean",
            Bytes(_) => "RadonBytes",
            Float(_) => "RadonFloat",
            Int(_) => "RadonInteger",
            Map(_) => "RadonMap",
            Str(_) => "RadonString",
            Err(_) => "RadonError",
        }
    }
    pub fn rt(&self) -> RadonTypes {
        match self {
            Arr(a) => RadonArray::from(a.iter().map(V::rt).collect::<Vec<_>>()).into(),
            Bool(b) => RadonBoolean::from(*b).into(),
            Bytes(b) => RadonBytes::from(b.clone()).into(),
            Float(f) => RadonFloat::from(*f).into(),
            Int(i) => RadonInteger::from(*i).into(),
            Map(m) => RadonMap::from(m.iter().map(|(k, v)| (k.clone(), v.rt())).collect::<BTreeMap<_, _>>()).into(),
            Str(s) => RadonString::from(s.as_str()).into(),
            Err(e) => RadonTypes::RadonError(witnet_data_structures::radon_error::RadonError::new(e.rad())),
        }
    }
    pub fn of(r: &RadonTypes) -> V {
        match r {
            RadonTypes::Array(a) => Arr(a.value().iter().map(V::of).collect()),
            RadonTypes::Boolean(b) => Bool(b.value()),
            RadonTypes::Bytes(b) => Bytes(b.value()),
            RadonTypes::Float(f) => Float(f.value()),
            RadonTypes::Integer(i) => Int(i.value()),
            RadonTypes::Map(m) => Map(m.value().iter().map(|(k, v)| (k.clone(), V::of(v))).collect()),
            RadonTypes::String(s) => Str(s.value()),
            RadonTypes::RadonError(e) => Err(E::of(e.inner())),
        }
    }
    pub fn homogeneous(xs: &[V]) -> bool {
        !xs.is_empty() && xs.iter().all(|x| x.ty() == xs[0].ty())
    }
    pub fn size(&self) -> usize {
        match self {
            Arr(a) => 1 + a.iter().map(V::size).sum::<usize>(),
            Map(m) => 1 + m.iter().map(|(k, v)| 1 + k.len() / 64 + v.size()).sum::<usize>(),
            Str(s) => 1 + s.len() / 64,
            Bytes(s) => 1 + s.len() / 64,
            _ => 1,
        }
    }
}

/// All opcodes: number and name.
pub const OPS: &[(u8, &str)] = &[
    (0xff, "Fail"),
    (0x00, "Identity"),
    (0x10, "ArrayCount"),
    (0x11, "ArrayFilter"),
    (0x13, "ArrayGetArray"),
    (0x14, "ArrayGetBoolean"),
    (0x15, "ArrayGetBytes"),
    (0x16, "ArrayGetFloat"),
    (0x17, "ArrayGetInteger"),
    (0x18, "ArrayGetMap"),
    (0x19, "ArrayGetString"),
    (0x1a, "ArrayMap"),
    (0x1b, "ArrayReduce"),
    (0x1d, "ArraySort"),
    (0x20, "BooleanAsString"),
    (0x22, "BooleanNegate"),
    (0x30, "BytesToString"),
    (0x31, "BytesHash"),
    (0x32, "BytesToInteger"),
    (0x34, "BytesLength"),
    (0x3c, "BytesSlice"),
    (0x40, "IntegerAbsolute"),
    (0x41, "IntegerToFloat"),
    (0x42, "IntegerToString"),
    (0x43, "IntegerGreaterThan"),
    (0x44, "IntegerLessThan"),
    (0x46, "IntegerModulo"),
    (0x47, "IntegerMultiply"),
    (0x48, "IntegerNegate"),
    (0x49, "IntegerPower"),
    (0x4a, "IntegerToBytes"),
    (0x50, "FloatAbsolute"),
    (0x51, "FloatAsString"),
    (0x52, "FloatCeiling"),
    (0x53, "FloatGreaterThan"),
    (0x54, "FloatFloor"),
    (0x55, "FloatLessThan"),
    (0x56, "FloatModulo"),
    (0x57, "FloatMultiply"),
    (0x58, "FloatNegate"),
    (0x59, "FloatPower"),
    (0x5b, "FloatRound"),
    (0x5d, "FloatTruncate"),
    (0x61, "MapGetArray"),
    (0x62, "MapGetBoolean"),
    (0x63, "MapGetBytes"),
    (0x64, "MapGetFloat"),
    (0x65, "MapGetInteger"),
    (0x66, "MapGetMap"),
    (0x67, "MapGetString"),
    (0x68, "MapKeys"),
    (0x69, "MapValues"),
    (0x70, "StringAsBoolean"),
    (0x71, "StringAsBytes"),
    (0x72, "StringAsFloat"),
    (0x73, "StringAsInteger"),
    (0x74, "StringLength"),
    (0x75, "StringMatch"),
    (0x76, "StringParseJSONArray"),
    (0x77, "StringParseJSONMap"),
    (0x78, "StringParseXMLMap"),
    (0x79, "StringToLowerCase"),
    (0x7a, "StringToUpperCase"),
    (0x7b, "StringReplace"),
    (0x7c, "StringSlice"),
    (0x7d, "StringSplit"),
];
pub fn op_name(op: u8) -> Option<&'static str> {
    OPS.iter().find(|o| o.0 == op).map(|o| o.1)
}

const TYPES: [&str; 7] = ["RadonArray", "RadonBoolean", "RadonBytes", "RadonFloat", "RadonInteger", "RadonMap", "RadonString"];

impl E {
    pub fn of(e: &RadError) -> E {
        match e {
            RadError::UnsupportedOperator { input_type, operator, .. } => {
                match (TYPES.iter().find(|t| **t == input_type.as_str()), OPS.iter().find(|o| o.1 == operator.as_str())) {
                    (Some(ty), Some(op)) => E::Unsupported { ty, op: op.0 },
                    _ => E::Coded(0x20),
                }
            }
            RadError::Overflow => E::Overflow,
            RadError::ArrayIndexOutOfBounds { index } => E::Index(*index),
            RadError::MapKeyNotFound { key } => E::Key(key.clone()),
            e => match e.try_into_error_code() {
                Ok(RadonErrors::UnhandledIntercept) | Result::Err(_) => E::Other,
                Ok(c) => E::Coded(u8::from(c)),
            },
        }
    }
    pub fn rad(&self) -> RadError {
        match self {
            E::Unsupported { ty, op } => {
                RadError::UnsupportedOperator { input_type: ty.to_string(), operator: op_name(*op).unwrap_or("?").to_string(), args: None }
            }
            E::Overflow => RadError::Overflow,
            E::Index(i) => RadError::ArrayIndexOutOfBounds { index: *i },
            E::Key(k) => RadError::MapKeyNotFound { key: k.clone() },
            E::Coded(0x30) => RadError::HttpStatus { status_code: 404 },
            E::Coded(0x31) => RadError::RetrieveTimeout,
            E::Coded(0x50) => RadError::NoReveals,
            E::Coded(0x60) => RadError::MalformedReveal,
            E::Coded(_) => RadError::Unknown,
            E::Other => RadError::UnhandledInterceptV2 { inner: None },
        }
    }
}

// Generators

pub const KEYS: [&str; 8] = ["a", "b", "c", "price", "", "é", "_text", "a b"];

pub fn ints(t: &mut Tape) -> i128 {
    match t.below(9) {
        0 | 1 => t.below(12) as i128 - 3,
        2 => i128::from(t.i64()),
        3 => i128::from(t.u64()),
        4 => -i128::from(t.u32()),
        5 => i128::from(t.u16()),
        6 => *t.pick(&[i128::MAX, i128::MIN, i128::from(i64::MIN), i128::from(u64::MAX), i128::from(u64::MAX) + 1, -1]),
        7 => (i128::from(t.u64()) << 64) | i128::from(t.u64()),
        _ => 10i128.pow(t.below(38) as u32) * if t.bool() { -1 } else { 1 },
    }
}
pub fn floats(t: &mut Tape) -> f64 {
    match t.below(10) {
        0 | 1 => t.below(40) as f64 / 4.0 - 2.0,
        2 => t.i64() as f64 / 1000.0,
        3 => f64::from_bits(t.u64()),
        4 => *t.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, -1e38]),
        5 => f64::from(t.u16()) + 0.5,
        6 => -(t.below(200) as f64) / 8.0,
        7 => 10f64.powi(t.below(80) as i32 - 40),
        8 => t.u32() as f64,
        _ => f64::from(t.u8()) * 1.1,
    }
}
/// Integers as a CBOR argument can hold.
pub fn cbor_int(t: &mut Tape) -> i128 {
    match t.below(6) {
        0 | 1 => t.below(7) as i128 - 2,
        2 => t.below(300) as i128,
        3 => i128::from(t.i64()),
        4 => i128::from(t.u64()),
        _ => *t.pick(&[i128::from(i32::MAX), i128::from(i32::MIN), i128::from(u32::MAX), i128::from(i64::MIN), 255, 256]),
    }
}
pub fn text(t: &mut Tape) -> std::string::String {
    match t.below(14) {
        0 => t.pick(&KEYS).to_string(),
        1 => ints(t).to_string(),
        2 => floats(t).to_string(),
        3 => format!("{},{:03}.{}", t.below(99), t.below(1000), t.below(100)),
        4 => t.pick(&["true", "false", "true\n", "TRUE", "1", "false\n\n", " true"]).to_string(),
        5 => format!("0x{}", hex::encode(t.bytes(3))),
        6 => {
            let n = t.below(9);
            hex::encode(t.bytes(n))
        }
        7 => {
            use base64::Engine;
            let n = t.below(9);
            base64::engine::general_purpose::STANDARD.encode(t.bytes(n))
        }
        8 => {
            let n = t.below(9);
            bs58::encode(t.bytes(n)).into_string()
        }
        9 => t.pick(&["-7\n", "1.234.567,8", "1e3", "NaN", "inf", "-", "+5", "1_000", "0x1", "12 345", "0x", "Ünïcode ẞ", "a,b;c", "𝔘x€", "aAbB"]).to_string(),
        10 => t.string(12),
        11 => ["x", "yz", "é", "€", "\n", "ß"].iter().cycle().skip(t.below(6)).take(t.below(7)).copied().collect(),
        12 => format!("{}{}", t.below(1000), t.pick(&["\n", "", ".0", "\r\n"])),
        _ => {
            let n = t.below(5);
            (0..n).map(|_| format!("{},", t.below(20))).collect()
        }
    }
}
pub fn value(t: &mut Tape, depth: usize) -> V {
    let kind = t.below(if depth == 0 { 6 } else { 10 });
    of_kind(t, kind, depth)
}
fn of_kind(t: &mut Tape, kind: usize, depth: usize) -> V {
    match kind {
        0 => Int(ints(t)),
        1 => Str(text(t)),
        2 => Float(floats(t)),
        3 => Bool(t.bool()),
        4 => {
            let n = t.below(20);
            Bytes(t.bytes(n))
        }
        5 => Int(t.below(5) as i128),
        6 | 7 => Arr(items(t, depth - 1)),
        _ => {
            let n = t.below(5);
            Map((0..n)
                .map(|_| {
                    let k = t.pick(&KEYS).to_string();
                    let v = value(t, depth - 1);
                    (k, v)
                })
                .collect())
        }
    }
}
/// Items of an array; of the same type more often than not.
pub fn items(t: &mut Tape, depth: usize) -> Vec<V> {
    let n = t.below(7);
    if t.odds(50) {
        return (0..n).map(|_| value(t, depth)).collect();
    }
    let kind = t.below(if depth == 0 { 6 } else { 10 });
    let mut v: Vec<V> = vec![];
    for _ in 0..n {
        if !v.is_empty() && t.odds(70) {
            v.push(v[t.below(v.len())].clone());
        } else {
            v.push(of_kind(t, kind, depth));
        }
    }
    v
}

/// A JSON document: mostly an object or an array, with what appears in the wild.
pub fn json(t: &mut Tape, depth: usize) -> std::string::String {
    let ws = |t: &mut Tape| t.pick(&["", "", "", " ", "\n"]).to_string();
    match if depth == 0 { t.below(7) } else { 5 + t.below(8) } {
        0 => serde_json::Value::String(text(t)).to_string(),
        1 => t.i64().to_string(),
        2 => t.pick(&["null", "true", "false", "1e30", "1e400", "-4.0", "4.0", "18446744073709551615", "18446744073709551616", "-0", "-0.0", "1E2", "0.1", "1e38", "123456789012345678901234567890", "-2.5e-3", "9.999999999e37"]).to_string(),
        3 => format!("{}.{}", t.below(100), t.below(1000)),
        4 => t.u64().to_string(),
        5 | 6 => t.pick(&["1", "\"x\"", "null", "2.5", "true", "\"1,000.5\""]).to_string(),
        7 | 8 => {
            let n = t.below(5);
            let xs: Vec<_> = (0..n).map(|_| ws(t) + &json(t, depth - 1) + &ws(t)).collect();
            format!("[{}]", xs.join(","))
        }
        12 => t.pick(&["{\"a\":", "[1,]", "", "{\"a\":1} x", "nul", "{a:1}", "[1 2]", "\"\\ud800\"", "01", "{\"a\":1,\"a\":2}"]).to_string(),
        _ => {
            let n = t.below(5);
            let xs: Vec<_> = (0..n)
                .map(|_| {
                    let k = serde_json::Value::String(t.pick(&KEYS).to_string());
                    format!("{}{k}{}:{}", ws(t), ws(t), json(t, depth - 1))
                })
                .collect();
            format!("{{{}}}", xs.join(","))
        }
    }
}
pub fn xml(t: &mut Tape, depth: usize) -> std::string::String {
    let name = *t.pick(&["a", "b", "c", "_text", "item"]);
    let attrs: std::string::String = {
        let n = if t.odds(90) { 1 + t.below(2) } else { 0 };
        ["k", "a", "id"].iter().take(n).map(|k| format!(" {k}=\"{}\"", t.pick(&["1", "", "x y", "&lt;", "é"]))).collect()
    };
    let n = t.below(5);
    let mut body = std::string::String::new();
    for _ in 0..n {
        match t.below(if depth == 0 { 4 } else { 8 }) {
            0 => body += t.pick(&["text", " ", "\n  ", "12.5", " x &amp; y ", "é"]),
            1 => body += "<!-- c -->",
            2 => body += t.pick(&["t2", "\t", "<![CDATA[<raw>]]>", "z"]),
            3 => body += &format!("<{0}>{1}</{0}>", t.pick(&["a", "b", "_text"]), t.below(9)),
            _ => body += &xml(t, depth - 1),
        }
    }
    if body.is_empty() && t.bool() { format!("<{name}{attrs}/>") } else { format!("<{name}{attrs}>{body}</{name}>") }
}
