use crate::{Error, Result, Value};

fn head(major: u8, n: u64, out: &mut Vec<u8>) {
    let m = major << 5;
    match n {
        0..=23 => out.push(m | n as u8),
        24..=0xff => out.extend([m | 24, n as u8]),
        0x100..=0xffff => {
            out.push(m | 25);
            out.extend((n as u16).to_be_bytes());
        }
        0x1_0000..=0xffff_ffff => {
            out.push(m | 26);
            out.extend((n as u32).to_be_bytes());
        }
        _ => {
            out.push(m | 27);
            out.extend(n.to_be_bytes());
        }
    }
}

pub(crate) fn encode(v: &Value, out: &mut Vec<u8>) -> Result<()> {
    match v {
        Value::Null => out.push(0xf6),
        Value::Bool(b) => out.push(0xf4 | u8::from(*b)),
        Value::Integer(i) => {
            let (m, n) = if *i < 0 { (1, -(i + 1)) } else { (0, *i) };
            head(m, u64::try_from(n).map_err(|_| Error::new("The number can't be stored in CBOR", 0))?, out);
        }
        Value::Float(f) => {
            let f = *f;
            let s = f as f32;
            if f.is_nan() {
                out.extend([0xf9, 0x7e, 0x00]);
            } else if f64::from(s) == f {
                let h = half::f16::from_f32(s);
                if h.to_f32() == s {
                    out.push(0xf9);
                    out.extend(h.to_bits().to_be_bytes());
                } else {
                    out.push(0xfa);
                    out.extend(s.to_bits().to_be_bytes());
                }
            } else {
                out.push(0xfb);
                out.extend(f.to_bits().to_be_bytes());
            }
        }
        Value::Bytes(b) => {
            head(2, b.len() as u64, out);
            out.extend_from_slice(b);
        }
        Value::Text(b) => {
            head(3, b.len() as u64, out);
            out.extend_from_slice(b.as_bytes());
        }
        Value::Array(a) => {
            head(4, a.len() as u64, out);
            for x in a {
                encode(x, out)?;
            }
        }
        Value::Map(a) => {
            head(5, a.len() as u64, out);
            for (k, x) in a {
                encode(k, out)?;
                encode(x, out)?;
            }
        }
        Value::Tag(_, v) => encode(v, out)?,
        Value::__Hidden => unreachable!(),
    }
    Ok(())
}
