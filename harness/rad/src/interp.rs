//! What each operator does, written from the specification of RADON and the WIPs.
use crate::v::{E, V, V::*, op_name};
use serde_cbor::Value;
use std::collections::BTreeMap;
use witnet_crypto::hash::calculate_sha256;

#[derive(Clone, Debug)]
pub struct Cx {
    pub wip24: bool,
    pub wip17: bool,
    pub wip19: bool,
    pub v21: bool,
    /// Whether the partial results of subscripts are kept, and those kept so far.
    pub retrieval: bool,
    pub subs: Vec<Vec<Vec<V>>>,
    pub subscripts_run: usize,
}
pub type Call = (u8, Option<Vec<Value>>);
pub type Res = Result<V, E>;
const OTHER: Res = Result::Err(E::Other);

// How values of scripts and arguments are read

pub fn as_int(a: &Value, lo: i128, hi: i128) -> Result<i128, E> {
    match a {
        Value::Integer(i) if *i >= lo && *i <= hi => Ok(*i),
        _ => Result::Err(E::Other),
    }
}
fn as_u8(a: &Value) -> Result<u8, E> {
    as_int(a, 0, 255).map(|x| x as u8)
}
fn as_i32(a: &Value) -> Result<i32, E> {
    as_int(a, i32::MIN.into(), i32::MAX.into()).map(|x| x as i32)
}
fn as_f64(a: &Value) -> Result<f64, E> {
    match a {
        Value::Float(f) => Ok(*f),
        Value::Integer(i) if *i >= i128::from(i64::MIN) && *i <= i128::from(u64::MAX) => Ok(*i as f64),
        _ => Result::Err(E::Other),
    }
}
fn as_text(a: &Value) -> Result<String, E> {
    match a {
        Value::Text(s) => Ok(s.clone()),
        Value::Bytes(b) => String::from_utf8(b.clone()).map_err(|_| E::Other),
        _ => Result::Err(E::Other),
    }
}
/// A value given as an argument; nulls in it are skipped.
pub fn from_cbor(a: &Value) -> Option<V> {
    Some(match a {
        Value::Bool(b) => Bool(*b),
        Value::Integer(i) => Int(*i),
        Value::Float(f) => Float(*f),
        Value::Bytes(b) => Bytes(b.clone()),
        Value::Text(s) => Str(s.clone()),
        Value::Array(a) => Arr(a.iter().filter_map(from_cbor).collect()),
        Value::Map(m) => {
            let mut r = BTreeMap::new();
            for (k, v) in m {
                let k = as_text(k).ok()?;
                // Text and bytes may be the same key: the latter one counts, even if it is none.
                r.insert(k, from_cbor(v));
            }
            Map(r.into_iter().filter_map(|(k, v)| Some((k, v?))).collect())
        }
        _ => return None,
    })
}

/// A script, unpacked.
pub fn unpack(script: &Value) -> Result<Vec<Call>, ()> {
    match script {
        Value::Array(calls) => calls.iter().map(unpack_call).collect(),
        _ => Result::Err(()),
    }
}
pub fn unpack_call(c: &Value) -> Result<Call, ()> {
    match c {
        Value::Integer(i) if *i >= 0 => {
            let op = (*i & 0xff) as u8;
            op_name(op).map(|_| (op, None)).ok_or(())
        }
        Value::Array(a) => {
            let op = as_u8(a.first().ok_or(())?).map_err(|_| ())?;
            op_name(op).ok_or(())?;
            Ok((op, Some(a[1..].to_vec())))
        }
        _ => Result::Err(()),
    }
}

// Running

/// The input and the result of each call, up to the first error.
pub fn run(input: &V, script: &[Call], cx: &mut Cx) -> Vec<Res> {
    let mut trace = vec![Ok(input.clone())];
    let mut cur = input.clone();
    for c in script {
        let r = step(&cur, c, cx);
        trace.push(r.clone());
        match r {
            Ok(v) => cur = v,
            Result::Err(_) => break,
        }
    }
    trace
}

/// Runs a subscript on every item; the error is that of the first item to fail.
fn subscript(items: &[V], arg: &Value, cx: &mut Cx, mut each: impl FnMut(&V, V) -> Result<(), E>) -> Result<(), E> {
    let script = unpack(arg).map_err(|_| E::Other)?;
    cx.subscripts_run += 1;
    let mut rows = vec![vec![]; script.len() + 1];
    for x in items {
        let trace = run(x, &script, cx);
        if let Some(Result::Err(e)) = trace.last() {
            return Result::Err(e.clone());
        }
        for (row, v) in rows.iter_mut().zip(&trace) {
            row.push(v.clone().unwrap());
        }
        each(x, trace.last().unwrap().clone().unwrap())?;
    }
    if cx.retrieval {
        cx.subs.push(rows);
    }
    Ok(())
}

fn to_string(v: &V) -> Result<String, E> {
    Ok(match v {
        Str(s) => s.clone(),
        Bool(b) => if *b { "true" } else { "false" }.into(),
        Int(i) => format!("{i}"),
        Float(f) => format!("{f}"),
        Bytes(b) => String::from_utf8(b.clone()).map_err(|_| E::Other)?,
        _ => return Result::Err(E::Other),
    })
}
fn parse_int(s: &str) -> Res {
    s.parse::<i128>().map(Int).map_err(|_| E::Other)
}
fn parse_float(s: &str) -> Res {
    s.parse::<f64>().map(Float).map_err(|_| E::Other)
}
fn to_int(v: &V) -> Res {
    match v {
        Int(_) => Ok(v.clone()),
        Str(s) => parse_int(s),
        _ => OTHER,
    }
}
fn to_float(v: &V) -> Res {
    match v {
        Float(_) => Ok(v.clone()),
        Int(i) => Ok(Float(*i as f64)),
        Str(s) => parse_float(s),
        _ => OTHER,
    }
}
fn same_type(v: &V, ty: &str) -> Res {
    if v.ty() == ty { Ok(v.clone()) } else { OTHER }
}
/// A number written with separators (WIP-0024).
fn numeric(s: &str, args: &[Value]) -> String {
    let arg = |i: usize, d: &str| args.get(i).and_then(|a| as_text(a).ok()).unwrap_or_else(|| d.to_string());
    let (thousands, decimal) = if args.len() > 2 { (",".into(), ".".into()) } else { (arg(0, ","), arg(1, ".")) };
    s.replace(&thousands, "").replace(&decimal, ".")
}
fn without_newline(s: &str) -> &str {
    s.strip_suffix('\n').unwrap_or(s)
}
/// What an operator of the `Get` family returns, given the low four bits of its opcode and the item.
fn get(kind: &str, item: V, number_args: &[Value], cx: &Cx) -> Res {
    match kind {
        "Integer" | "Float" => {
            let int = kind == "Integer";
            if cx.wip24 {
                let s = numeric(&to_string(&item)?, number_args);
                if int { parse_int(&s) } else { parse_float(&s) }
            } else if int {
                to_int(&item)
            } else {
                to_float(&item)
            }
        }
        "String" => to_string(&item).map(Str),
        k => same_type(&item, &format!("Radon{k}")),
    }
}
/// The part of 0..len between two positions, negative ones counted from the end.
fn range(args: &[Value], len: usize) -> Result<std::ops::Range<usize>, E> {
    let len = len as i64;
    let start = i64::from(as_i32(args.first().ok_or(E::Other)?)?);
    let end = args.get(1).and_then(|a| as_i32(a).ok()).map_or(len, i64::from);
    let at = |x: i64| (if x < 0 { x + len } else { x }).clamp(0, len) as usize;
    let (s, e) = (at(start), at(end));
    Ok(if s < e { s..e } else { 0..0 })
}

pub fn step(v: &V, (op, args): &Call, cx: &mut Cx) -> Res {
    let unsupported = || Result::Err(E::Unsupported { ty: v.ty(), op: *op });
    if *op == 0 {
        return if args.is_none() { Ok(v.clone()) } else { unsupported() };
    }
    let o = *op;
    let range_of = match v {
        Arr(_) => 0x10,
        Bool(_) => 0x20,
        Bytes(_) => 0x30,
        Int(_) => 0x40,
        Float(_) => 0x50,
        Map(_) => 0x60,
        Str(_) => 0x70,
        Err(_) => unreachable!(),
    };
    // What comes with the call: nothing, arguments, or either.
    let takes = match o {
        0x10 | 0x20 | 0x22 | 0x34 | 0x40 | 0x41 | 0x42 | 0x48 | 0x50 | 0x51 | 0x52 | 0x54 | 0x58 | 0x5b | 0x5d | 0x68 | 0x69 | 0x70
        | 0x74 | 0x78 | 0x79 | 0x7a => 0,
        0x11 | 0x13..=0x1b | 0x1d | 0x31 | 0x3c | 0x43 | 0x44 | 0x46 | 0x47 | 0x49 | 0x53 | 0x55 | 0x56 | 0x57 | 0x59 | 0x61..=0x67 | 0x75
        | 0x7c => 1,
        _ => 2,
    };
    let new_in_2_1 = matches!(o, 0x32 | 0x34 | 0x3c | 0x4a | 0x7b..=0x7d);
    if o & 0xf0 != range_of || takes == 0 && args.is_some() || takes == 1 && args.is_none() || new_in_2_1 && !cx.v21 {
        return unsupported();
    }
    let none = vec![];
    let a: &[Value] = args.as_ref().unwrap_or(&none);
    let first = || a.first().ok_or(E::Other);
    Ok(match (v, o) {
        (Bool(b), 0x20) => Str(b.to_string()),
        (Bool(b), 0x22) => Bool(!b),

        (Bytes(b), 0x30) => Str(match if cx.v21 && !a.is_empty() { as_u8(&a[0])? } else { 0 } {
            0 => hex::encode(b),
            0x10 => bs58::encode(b).into_string(),
            0x11 => {
                use base64::Engine;
                base64::engine::general_purpose::STANDARD.encode(b)
            }
            0x80 => String::from_utf8(b.clone()).unwrap_or_default(),
            _ => return OTHER,
        }),
        (Bytes(b), 0x31) => {
            if as_u8(first()?)? != 0x0a {
                return OTHER;
            }
            Bytes(calculate_sha256(b).0.to_vec())
        }
        (Bytes(b), 0x32) => {
            let little = !a.is_empty() && as_u8(&a[0])? == 1;
            if b.is_empty() || b.len() > 16 {
                return OTHER;
            }
            let mut x = [0; 16];
            x[16 - b.len()..].copy_from_slice(b);
            if little {
                x.reverse();
            }
            Int(x.iter().fold(0u128, |n, d| (n << 8) | u128::from(*d)) as i128)
        }
        (Bytes(b), 0x34) => Int(b.len() as i128),
        (Bytes(b), 0x3c) => Bytes(b[range(a, b.len())?].to_vec()),

        (Int(i), 0x40) => Int(if *i == i128::MIN { return Result::Err(E::Overflow) } else { i.abs() }),
        (Int(i), 0x41) => Float(*i as f64),
        (Int(i), 0x42) => Str(i.to_string()),
        (Int(i), 0x43) => Bool(*i > as_int(first()?, i128::MIN, i128::MAX)?),
        (Int(i), 0x44) => Bool(*i < as_int(first()?, i128::MIN, i128::MAX)?),
        (Int(i), 0x46) => {
            let m = as_int(first()?, i128::MIN, i128::MAX)?;
            if m == 0 || m == -1 && *i == i128::MIN {
                return Result::Err(E::Overflow);
            }
            Int(i - m * (i / m))
        }
        (Int(i), 0x47) => Int(i.checked_mul(as_int(first()?, i128::MIN, i128::MAX)?).ok_or(E::Overflow)?),
        (Int(i), 0x48) => Int(0i128.checked_sub(*i).ok_or(E::Overflow)?),
        (Int(i), 0x49) => {
            let n = as_int(first()?, 0, u32::MAX.into())?;
            Int(match i {
                0 => i128::from(n == 0),
                1 => 1,
                -1 => if n % 2 == 0 { 1 } else { -1 },
                _ => {
                    let mut r = 1i128;
                    for _ in 0..n {
                        r = r.checked_mul(*i).ok_or(E::Overflow)?;
                    }
                    r
                }
            })
        }
        (Int(i), 0x4a) => {
            let little = !a.is_empty() && as_u8(&a[0])? == 1;
            let mut b: Vec<u8> = (0..16).map(|k| (*i as u128 >> (8 * (15 - k))) as u8).collect();
            if little {
                b.reverse();
            }
            Bytes(b)
        }

        (Float(f), 0x50) => Float(f.abs()),
        (Float(f), 0x51) => Str(f.to_string()),
        (Float(f), 0x52) => Int(f.ceil() as i128),
        (Float(f), 0x53) => Bool(*f > as_f64(first()?)?),
        (Float(f), 0x54) => Int(f.floor() as i128),
        (Float(f), 0x55) => Bool(*f < as_f64(first()?)?),
        (Float(f), 0x56) => Float(f % as_f64(first()?)?),
        (Float(f), 0x57) => Float(f * as_f64(first()?)?),
        (Float(f), 0x58) => Float(-f),
        (Float(f), 0x59) => Float(f.powf(as_f64(first()?)?)),
        (Float(f), 0x5b) => Int(f.round() as i128),
        (Float(f), 0x5d) => Int(f.trunc() as i128),

        (Map(m), 0x61..=0x67) => {
            let key = as_text(first()?)?;
            let item = m.get(&key).cloned().ok_or(E::Key(key))?;
            let kind = ["Array", "Boolean", "Bytes", "Float", "Integer", "Map", "String"][usize::from(o - 0x61)];
            return get(kind, item, &a[1..], cx);
        }
        (Map(m), 0x68) => Arr(m.keys().map(|k| Str(k.clone())).collect()),
        (Map(m), 0x69) => Arr(m.values().cloned().collect()),

        (Arr(x), 0x10) => Int(x.len() as i128),
        (Arr(x), 0x13..=0x19) => {
            let kind = ["Array", "Boolean", "Bytes", "Float", "Integer", "Map", "String"][usize::from(o - 0x13)];
            let separators = cx.wip24 && matches!(kind, "Float" | "Integer");
            if a.is_empty() || a.len() != 1 && !separators {
                return OTHER;
            }
            let i = as_i32(&a[0])?;
            let item = usize::try_from(i).ok().and_then(|i| x.get(i)).cloned().ok_or(E::Index(i))?;
            return get(kind, item, &a[1..], cx);
        }
        (Arr(x), 0x11) => match first()? {
            s @ Value::Array(_) => {
                let mut r = vec![];
                subscript(x, s, cx, |item, res| match res {
                    Bool(keep) => {
                        if keep {
                            r.push(item.clone());
                        }
                        Ok(())
                    }
                    _ => Result::Err(E::Other),
                })?;
                Arr(r)
            }
            Value::Integer(code) => Arr(filter(x, *code, &a[1..])?.0),
            _ => return OTHER,
        },
        (Arr(x), 0x1a) => {
            if a.len() != 1 {
                return OTHER;
            }
            let mut r = vec![];
            subscript(x, &a[0], cx, |_, v| {
                r.push(v);
                Ok(())
            })?;
            Arr(r)
        }
        (Arr(x), 0x1b) => {
            if a.len() != 1 {
                return OTHER;
            }
            return reduce(x, as_u8(&a[0])?, cx);
        }
        (Arr(x), 0x1d) => {
            if a.len() > 1 {
                return OTHER;
            }
            let mut keys = vec![];
            subscript(x, a.first().unwrap_or(&Value::Array(vec![])), cx, |_, v| {
                keys.push(v);
                Ok(())
            })?;
            if x.is_empty() {
                return Ok(v.clone());
            }
            if !V::homogeneous(x) || !V::homogeneous(&keys) {
                return OTHER;
            }
            let mut order: Vec<usize> = (0..x.len()).collect();
            match &keys[0] {
                Str(_) => order.sort_by_key(|i| (if let Str(s) = &keys[*i] { s.clone().into_bytes() } else { unreachable!() }, *i)),
                Int(_) => order.sort_by_key(|i| (if let Int(n) = keys[*i] { n } else { unreachable!() }, *i)),
                _ => return OTHER,
            }
            Arr(order.into_iter().map(|i| x[i].clone()).collect())
        }

        (Str(s), 0x70) => Bool(match without_newline(s) {
            "true" => true,
            "false" => false,
            _ => return OTHER,
        }),
        (Str(s), 0x71) => Bytes(match if a.is_empty() { 0 } else { as_u8(&a[0])? } {
            0 => {
                let mut h = s.strip_prefix("0x").unwrap_or(s).to_string();
                if h.len() % 2 == 1 {
                    h.insert(0, '0');
                }
                hex::decode(h).map_err(|_| E::Other)?
            }
            0x10 => bs58::decode(s).into_vec().map_err(|_| E::Other)?,
            0x11 => {
                use base64::Engine;
                base64::engine::general_purpose::STANDARD.decode(s).map_err(|_| E::Other)?
            }
            0x80 => s.clone().into_bytes(),
            _ => return OTHER,
        }),
        (Str(s), 0x72) => return parse_float(&if cx.wip24 { numeric(without_newline(s), a) } else { without_newline(s).into() }),
        (Str(s), 0x73) => return parse_int(&if cx.wip24 { numeric(without_newline(s), a) } else { without_newline(s).into() }),
        (Str(s), 0x74) => Int(s.len() as i128),
        (Str(s), 0x75) => {
            let Some(Map(m)) = from_cbor(first()?) else { return OTHER };
            let d = a.get(1).and_then(from_cbor).ok_or(E::Other)?;
            let Some(r) = m.get(s) else { return Ok(d) };
            return match (r, &d) {
                (Str(_) | Bytes(_), Str(_)) => to_string(r).map(Str),
                (_, Str(_)) => OTHER,
                (_, Float(_)) => to_float(r),
                (_, Int(_)) => to_int(r),
                _ => same_type(r, d.ty()),
            };
        }
        (Str(s), 0x76) => {
            let j: serde_json::Value = serde_json::from_str(s).map_err(|_| E::Other)?;
            let find = |p: &str| -> Result<Vec<V>, E> { Ok(jsonpath::Selector::new(p).map_err(|_| E::Other)?.find(&j).map(json_raw).collect()) };
            match a.first() {
                None => return same_type(&json(&j).ok_or(E::Other)?, "RadonArray"),
                Some(Value::Text(p)) => Arr(find(p)?),
                Some(Value::Array(paths)) => {
                    let mut r = vec![];
                    for p in paths {
                        let Value::Text(p) = p else { return OTHER };
                        let mut f = find(p)?;
                        if f.len() > 1 {
                            r.push(Arr(f));
                        } else {
                            r.append(&mut f);
                        }
                    }
                    Arr(r)
                }
                _ => return OTHER,
            }
        }
        (Str(s), 0x77) => {
            let j: serde_json::Value = serde_json::from_str(s).map_err(|_| E::Other)?;
            let found = match a.first() {
                None => json(&j),
                Some(Value::Text(p)) => jsonpath::Selector::new(p).map_err(|_| E::Other)?.find(&j).next().and_then(json),
                _ => return OTHER,
            };
            return same_type(&found.ok_or(E::Other)?, "RadonMap");
        }
        (Str(s), 0x78) => {
            let e: minidom::Element = s.parse().map_err(|_| E::Other)?;
            let v = xml(&e, 0)?;
            Map([(e.name().to_string(), v)].into())
        }
        (Str(s), 0x79) => Str(s.to_lowercase()),
        (Str(s), 0x7a) => Str(s.to_uppercase()),
        (Str(s), 0x7b) => {
            if a.len() < 2 {
                return OTHER;
            }
            let (Value::Text(_) | Value::Bytes(_), Value::Text(_) | Value::Bytes(_)) = (&a[0], &a[1]) else { return OTHER };
            let re = regex::Regex::new(&as_text(&a[0])?).map_err(|_| E::Other)?;
            let with = as_text(&a[1])?;
            Str(re.replace_all(s, with.as_str()).into_owned())
        }
        (Str(s), 0x7c) => Str(s.get(range(a, s.len())?).ok_or(E::Other)?.to_string()),
        (Str(s), 0x7d) => {
            let p = if a.is_empty() { String::new() } else { as_text(&a[0])? };
            Arr(regex::Regex::new(&p).map_err(|_| E::Other)?.split(s).map(|x| Str(x.to_string())).collect())
        }
        _ => return unsupported(),
    })
}

/// A JSON document as a value: nulls are skipped, and numbers without fraction are integers.
pub fn json(j: &serde_json::Value) -> Option<V> {
    use serde_json::Value as J;
    Some(match j {
        J::Null => return None,
        J::Bool(b) => Bool(*b),
        J::String(s) => Str(s.clone()),
        J::Number(n) => match (n.as_i64(), n.as_u64()) {
            (Some(i), _) => Int(i.into()),
            (_, Some(u)) => Int(u.into()),
            _ => {
                let f = n.as_f64().unwrap();
                // Known finding: the same does not go for the negative ones.
                if f.is_normal() && f.fract() == 0.0 && f > 0.0 && f.log10() < 38.0 { Int(f as i128) } else { Float(f) }
            }
        },
        J::Array(a) => Arr(a.iter().filter_map(json).collect()),
        J::Object(o) => Map(o.iter().filter_map(|(k, v)| Some((k.clone(), json(v)?))).collect()),
    })
}
/// What a path selects: taken as it is, with nulls as empty strings.
fn json_raw(j: &serde_json::Value) -> V {
    use serde_json::Value as J;
    match j {
        J::Null => Str(String::new()),
        J::Bool(b) => Bool(*b),
        J::String(s) => Str(s.clone()),
        J::Number(n) => match (n.as_i64(), n.as_u64()) {
            (Some(i), _) => Int(i.into()),
            (_, Some(u)) => Int(u.into()),
            _ => Float(n.as_f64().unwrap()),
        },
        J::Array(a) => Arr(a.iter().map(json_raw).collect()),
        J::Object(o) => Map(o.iter().map(|(k, v)| (k.clone(), json_raw(v))).collect()),
    }
}
/// WIP-0021.
fn xml(e: &minidom::Element, depth: u8) -> Res {
    if depth > 20 {
        return OTHER;
    }
    let mut texts = vec![];
    let mut children = vec![];
    for n in e.nodes() {
        match n {
            minidom::Node::Element(c) => children.push((c.name().to_string(), xml(c, depth + 1)?)),
            minidom::Node::Text(t) if !t.trim().is_empty() => texts.push(Str(t.trim().to_string())),
            _ => {}
        }
    }
    let attrs: Vec<_> = e.attrs().map(|(k, v)| (format!("@{k}"), Str(v.to_string()))).collect();
    let text = match texts.len() {
        0 => None,
        1 => texts.pop(),
        _ => Some(Arr(texts)),
    };
    if children.is_empty() && attrs.is_empty() {
        return Ok(text.unwrap_or(Str(String::new())));
    }
    let mut m: BTreeMap<String, V> = attrs.into_iter().collect();
    m.extend(text.map(|t| ("_text".to_string(), t)));
    for (k, v) in children {
        match m.remove(&k) {
            None => m.insert(k, v),
            Some(Arr(mut a)) => {
                a.push(v);
                m.insert(k, Arr(a))
            }
            Some(x) => m.insert(k, Arr(vec![x, v])),
        };
    }
    Ok(Map(m))
}

// Filters and reducers

/// The columns of a matrix, if every row is an array of the same length.
fn columns(rows: &[V]) -> Result<Vec<Vec<V>>, E> {
    let mut cols: Vec<Vec<V>> = vec![];
    for (i, r) in rows.iter().enumerate() {
        let Arr(r) = r else { return Result::Err(E::Other) };
        if i == 0 {
            cols = vec![vec![]; r.len()];
        }
        if r.len() != cols.len() {
            return Result::Err(E::Other);
        }
        for (c, x) in cols.iter_mut().zip(r) {
            c.push(x.clone());
        }
    }
    Ok(cols)
}
/// The numbers of an array that only has numbers of one kind, as floats.
fn numbers(x: &[V]) -> Result<Vec<f64>, E> {
    if !V::homogeneous(x) {
        return Result::Err(E::Other);
    }
    x.iter()
        .map(|v| match v {
            Float(f) => Ok(*f),
            Int(i) => Ok(*i as f64),
            _ => Result::Err(E::Other),
        })
        .collect()
}
fn mean_of(n: &[f64]) -> f64 {
    let mut s = 0.0;
    for x in n {
        s += x;
    }
    s / n.len() as f64
}
fn deviation_of(n: &[f64]) -> f64 {
    let m = mean_of(n);
    let mut s = 0.0;
    for x in n {
        s += (x - m) * (x - m);
    }
    (s / n.len() as f64).sqrt()
}
fn columnwise(x: &[V], f: impl Fn(&[V]) -> Res) -> Res {
    columns(x)?.iter().map(|c| f(c)).collect::<Result<_, _>>().map(Arr)
}
pub fn mean(x: &[V]) -> Res {
    match x.first() {
        None => Ok(Float(f64::NAN)),
        Some(Arr(_)) => columnwise(x, mean),
        Some(Int(_)) => Ok(Int(mean_of(&numbers(x)?).round() as i128)),
        _ => Ok(Float(mean_of(&numbers(x)?))),
    }
}
pub fn deviation(x: &[V]) -> Res {
    match x.first() {
        None => Ok(Float(f64::NAN)),
        Some(Arr(_)) => columnwise(x, deviation),
        _ => Ok(Float(deviation_of(&numbers(x)?))),
    }
}
pub fn median(x: &[V]) -> Res {
    match x.first() {
        Some(Int(_)) => {
            numbers(x)?;
            let mut n: Vec<i128> = x.iter().map(|v| if let Int(i) = v { *i } else { unreachable!() }).collect();
            n.sort();
            let h = n.len() / 2;
            Ok(Int(if n.len() % 2 == 1 { n[h] } else { mean_of(&[n[h - 1] as f64, n[h] as f64]).round() as i128 }))
        }
        Some(Float(_)) => {
            let mut n: Vec<f64> = numbers(x)?.into_iter().filter(|f| !f.is_nan()).collect();
            n.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let h = n.len() / 2;
            if n.is_empty() {
                return OTHER;
            }
            Ok(Float(if n.len() % 2 == 1 { n[h] } else { mean_of(&[n[h - 1], n[h]]) }))
        }
        _ => OTHER,
    }
}
pub fn mode(x: &[V]) -> Res {
    let count = |v: &V| x.iter().filter(|w| *w == v).count();
    let Some(best) = x.iter().map(count).max() else { return OTHER };
    let mut winners = x.iter().filter(|v| count(v) == best);
    let w = winners.next().unwrap();
    if winners.any(|v| v != w) { OTHER } else { Ok(w.clone()) }
}
pub fn hash_concatenate(x: &[V]) -> Res {
    if !V::homogeneous(x) {
        return OTHER;
    }
    let mut all = vec![];
    for v in x {
        let b = match v {
            Bytes(b) => b.clone(),
            Str(s) => hex::decode(s).map_err(|_| E::Other)?,
            _ => return OTHER,
        };
        all.extend(vec![0; 32usize.saturating_sub(b.len())]);
        all.extend(&b[..b.len().min(32)]);
    }
    Ok(Bytes(calculate_sha256(&all).0.to_vec()))
}
pub fn reduce(x: &[V], code: u8, cx: &Cx) -> Res {
    if !x.is_empty() && !V::homogeneous(x) {
        return OTHER;
    }
    match code {
        2 => mode(x),
        3 => mean(x),
        5 if cx.wip17 => median(x),
        7 => deviation(x),
        0xb if cx.wip19 => hash_concatenate(x),
        _ => OTHER,
    }
}
/// The items that a filter keeps, and which those are.
pub fn filter(x: &[V], code: i128, args: &[Value]) -> Result<(Vec<V>, Vec<bool>), E> {
    if !x.is_empty() && !V::homogeneous(x) {
        return Result::Err(E::Other);
    }
    let keep: Vec<bool> = match code {
        8 => {
            let m = mode(x)?;
            x.iter().map(|v| *v == m).collect()
        }
        5 => {
            let sigmas = match args {
                [Value::Integer(i)] => *i as f64,
                [Value::Float(f)] => *f,
                _ => return Result::Err(E::Other),
            };
            let within = |c: &[V]| -> Result<Vec<bool>, E> {
                let n = numbers(c)?;
                let (m, d) = (mean_of(&n), deviation_of(&n));
                Ok(n.iter().map(|f| *f >= m - sigmas * d && *f <= m + sigmas * d).collect())
            };
            match x.first() {
                None => vec![],
                Some(Arr(row)) => {
                    if row.is_empty() {
                        return Result::Err(E::Other);
                    }
                    let cols = columns(x)?;
                    // The first row has one kind of numbers; the others need not.
                    if !V::homogeneous(row) {
                        return Result::Err(E::Other);
                    }
                    let m: Vec<Vec<bool>> = cols.iter().map(|c| within(c)).collect::<Result<_, _>>()?;
                    (0..x.len()).map(|i| m.iter().all(|c| c[i])).collect()
                }
                _ => within(x)?,
            }
        }
        _ => return Result::Err(E::Other),
    };
    Ok((x.iter().zip(&keep).filter(|(_, k)| **k).map(|(v, _)| v.clone()).collect(), keep))
}
