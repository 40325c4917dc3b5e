//! What is written for people, in JSON and in the database reads back as the same value.
use crate::arb;
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use std::str::FromStr;
use vpkit::{Check, Obs, ensure, ensure_eq, tape::*};
use witnet_data_structures::{
    chain::*,
    staking::prelude::StakeKey,
    transaction::Transaction,
    utxo_pool::UtxoSelectionStrategy,
    wit::{PrecisionLoss, Wit},
};

type R = Result<(), String>;
const ENVS: [Environment; 3] = [Environment::Mainnet, Environment::Testnet, Environment::Development];
const CHARS: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";

fn text<T: std::fmt::Display>(x: T) -> String {
    x.to_string()
}
fn hex_of(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

// Bech32, written from BIP-173.
fn polymod(v: &[u8]) -> u32 {
    let mut c: u32 = 1;
    for x in v {
        let t = c >> 25;
        c = ((c & 0x1ff_ffff) << 5) ^ u32::from(*x);
        for (i, g) in [0x3b6a_57b2u32, 0x2650_8e6d, 0x1ea1_19fa, 0x3d42_33dd, 0x2a14_62b3].into_iter().enumerate() {
            if (t >> i) & 1 == 1 {
                c ^= g;
            }
        }
    }
    c
}
fn spread(hrp: &str) -> Vec<u8> {
    let h = hrp.to_ascii_lowercase();
    h.bytes().map(|c| c >> 5).chain([0]).chain(h.bytes().map(|c| c & 31)).collect()
}
fn fives(data: &[u8], pad: bool) -> Vec<u8> {
    let bits: Vec<u8> = data.iter().flat_map(|b| (0..8).rev().map(move |i| (b >> i) & 1)).collect();
    bits.chunks(5).map(|c| (0..5).fold(0, |a, i| (a << 1) | c.get(i).copied().unwrap_or(pad as u8))).collect()
}
fn bech32(hrp: &str, data: &[u8], target: u32, pad: bool) -> String {
    let f = fives(data, pad);
    let mut all = spread(hrp);
    all.extend(&f);
    all.extend([0; 6]);
    let sum = polymod(&all) ^ target;
    let tail = (0..6).map(|i| ((sum >> (5 * (5 - i))) & 31) as u8);
    format!("{hrp}1{}", f.into_iter().chain(tail).map(|x| CHARS[x as usize] as char).collect::<String>())
}
/// The address that a text stands for.
fn read_address(env: Environment, s: &str) -> Option<[u8; 20]> {
    if s.bytes().any(|c| !(33..=126).contains(&c)) || (s.to_ascii_lowercase() != s && s.to_ascii_uppercase() != s) {
        return None;
    }
    let s = s.to_ascii_lowercase();
    let hrp = if env == Environment::Mainnet { "wit" } else { "twit" };
    let i = s.rfind('1')?;
    if &s[..i] != hrp {
        return None;
    }
    let f: Vec<u8> = s[i + 1..].bytes().map(|c| CHARS.iter().position(|x| *x == c).map(|p| p as u8)).collect::<Option<_>>()?;
    // 160 bits, and the checksum.
    if f.len() != 32 + 6 {
        return None;
    }
    let mut all = spread(hrp);
    all.extend(&f);
    // The library takes both variants of the checksum.
    if ![1, 0x2bc8_30a3].contains(&polymod(&all)) {
        return None;
    }
    let bits: Vec<u8> = f[..32].iter().flat_map(|b| (0..5).rev().map(move |i| (b >> i) & 1)).collect();
    let mut out = [0; 20];
    for (o, c) in out.iter_mut().zip(bits.chunks(8)) {
        *o = c.iter().fold(0, |a, b| (a << 1) | b);
    }
    Some(out)
}
fn read_hex<const N: usize>(s: &str) -> Option<[u8; N]> {
    let b = s.as_bytes();
    if b.len() != 2 * N {
        return None;
    }
    let mut out = [0; N];
    for (i, c) in b.iter().enumerate() {
        out[i / 2] = (out[i / 2] << 4) | (*c as char).to_digit(16)? as u8;
    }
    Some(out)
}
fn read_number(s: &str, max: u128) -> Option<u64> {
    let d = s.strip_prefix('+').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    d.bytes().try_fold(0u128, |a, c| a.checked_mul(10)?.checked_add(u128::from(c - b'0')).filter(|x| *x <= max)).map(|x| x as u64)
}
fn read_pointer(s: &str) -> Option<([u8; 32], u32)> {
    let (h, i) = s.trim().split_once(':')?;
    Some((read_hex(h)?, read_number(i, u128::from(u32::MAX))? as u32))
}

/// Written to JSON as `form`, to the database as `bytes`, and read from both.
fn forms<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(x: &T, form: Value, bytes: &[u8], what: &str) -> R {
    ensure_eq!(serde_json::to_value(x).map_err(text)?, form, "JSON form of the {what}");
    ensure_eq!(serde_json::from_value::<T>(form.clone()).map_err(text)?, *x, "the {what} read from its JSON form");
    ensure_eq!(serde_json::from_str::<T>(&form.to_string()).map_err(text)?, *x, "the {what} read from its JSON text");
    ensure_eq!(bincode::serialize(x).map_err(text)?, bytes, "stored form of the {what}");
    ensure_eq!(bincode::deserialize::<T>(bytes).map_err(text)?, *x, "the {what} read from its stored form");
    Ok(())
}
/// As `forms`, where only reading back is settled.
fn keeps<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(x: &T, what: &str) -> R {
    let j = serde_json::to_string(x).map_err(text)?;
    ensure!(serde_json::from_str::<T>(&j).map_err(|e| format!("{what} is not read back from {j}: {e}"))? == *x, "{what} is another one once read from JSON: {j}");
    let b = bincode::serialize(x).map_err(text)?;
    ensure!(bincode::deserialize::<T>(&b).map_err(|e| format!("{what} is not read back from the database: {e}"))? == *x, "{what} is another one once read from the database");
    Ok(())
}

fn values(b: &Bytes, obs: &mut Obs) -> R {
    let t = &mut b.tape();
    let (h, p, i, n, m) = (t.array::<32>(), t.array::<20>(), t.u32(), t.u64(), t.u64());
    let hash = Hash::SHA256(h);
    let pkh = PublicKeyHash::from_bytes(&p).map_err(text)?;
    obs.nontrivial_if(h != [0; 32] && p != [0; 20] && i != 0);
    // Hashes
    ensure_eq!(text(hash), hex_of(&h), "text of a hash");
    ensure_eq!(format!("{hash:?}"), hex_of(&h), "debug text of a hash");
    ensure_eq!(Hash::from_str(&hex_of(&h)).map_err(text)?, hash, "the hash read");
    let mut stored = vec![0, 0, 0, 0];
    stored.extend(h);
    forms(&hash, json!(hex_of(&h)), &stored, "hash")?;
    ensure_eq!((hash.data(), hash.as_ref(), Hash::from(h.to_vec())), (h, &h[..], hash), "bytes of a hash");
    let other = Hash::SHA256(t.array());
    ensure_eq!(hash.cmp(&other), h.cmp(&other.data()), "order of hashes");
    ensure!(Hash::min() <= hash && hash <= Hash::max() && Hash::min() == Hash::SHA256([0; 32]) && Hash::max() == Hash::SHA256([255; 32]), "extreme hashes");
    let first = Hash::with_first_u32(i).data();
    ensure!(first[..4] == i.to_be_bytes() && first[4..].iter().all(|x| *x == 255), "hash made from {i}");
    // Division of hashes, digit by digit
    let d = [n, u64::from(i), n >> 40, 1, u64::MAX, 1 << 63][t.below(6)].max(1);
    let (mut rest, mut quot) = (0u128, [0u8; 32]);
    for (k, byte) in h.iter().enumerate() {
        rest = rest << 8 | u128::from(*byte);
        quot[k] = (rest / u128::from(d)) as u8;
        rest %= u128::from(d);
    }
    ensure_eq!(hash.div_mod(d), (Hash::SHA256(quot), rest as u64), "hash divided by {d}");
    // Addresses
    for env in ENVS {
        let hrp = if env == Environment::Mainnet { "wit" } else { "twit" };
        let want = bech32(hrp, &p, 1, false);
        ensure_eq!(pkh.bech32(env), want, "address in {env}");
        ensure_eq!(read_address(env, &want), Some(p), "REFERENCE");
        ensure_eq!(PublicKeyHash::from_bech32(env, &want).map_err(text)?, pkh, "the address read in {env}");
        for wrong in ENVS {
            if (wrong == Environment::Mainnet) != (env == Environment::Mainnet) {
                match PublicKeyHash::from_bech32(wrong, &want) {
                    Err(PublicKeyHashParseError::WrongEnvironment { prefix, expected_environment }) => {
                        ensure_eq!((&*prefix, expected_environment), (hrp, wrong), "what is said of {want} in {wrong}")
                    }
                    r => return Err(format!("{want} read as an address of {wrong}: {r:?}")),
                }
            }
        }
        ensure_eq!(serde_json::to_value(env).map_err(text)?, json!(text(env)), "name of the environment");
        ensure_eq!(serde_json::from_value::<Environment>(json!(text(env))).map_err(text)?, env, "the environment read by its name");
    }
    let address = bech32("wit", &p, 1, false);
    ensure_eq!(text(pkh), address, "text of an address");
    ensure_eq!(PublicKeyHash::from_str(&address).map_err(text)?, pkh, "the address read");
    forms(&pkh, json!(address), &p, "address")?;
    ensure_eq!(pkh.to_hex(), hex_of(&p), "address in hex");
    ensure_eq!(PublicKeyHash::from_hex(&hex_of(&p)).map_err(text)?, pkh, "the address read from hex");
    ensure_eq!(pkh.as_ref(), &p[..], "bytes of an address");
    let key = StakeKey::<PublicKeyHash>::from(&*address);
    ensure!(key.validator == pkh && key.withdrawer == pkh, "stake key read from an address");
    // Pointers
    let ptr = OutputPointer { transaction_id: hash, output_index: i };
    let pt = format!("{}:{i}", hex_of(&h));
    ensure_eq!((text(ptr), format!("{ptr:?}")), (pt.clone(), pt.clone()), "text of a pointer");
    ensure_eq!(OutputPointer::from_str(&pt).map_err(text)?, ptr, "the pointer read");
    let mut ps = stored.clone();
    ps.extend(i.to_le_bytes());
    forms(&ptr, json!(pt), &ps, "pointer")?;
    let ptr2 = OutputPointer { transaction_id: if t.bool() { hash } else { other }, output_index: t.u32() };
    ensure_eq!(ptr.cmp(&ptr2), (h, i).cmp(&(ptr2.transaction_id.data(), ptr2.output_index)), "order of pointers");
    // Outputs, with numbers as numbers or as text
    let out = ValueTransferOutput { pkh, value: n, time_lock: m };
    let mut os = p.to_vec();
    os.extend(n.to_le_bytes());
    os.extend(m.to_le_bytes());
    forms(&out, json!({"pkh": address, "value": n, "time_lock": m}), &os, "output")?;
    for v in [json!({"pkh": address, "value": n.to_string(), "time_lock": m}), json!({"pkh": address, "value": n, "time_lock": m.to_string()}), json!({"pkh": address, "value": n.to_string(), "time_lock": m.to_string()})] {
        match serde_json::from_str::<ValueTransferOutput>(&v.to_string()) {
            Ok(o) => ensure_eq!(o, out, "output read from {v}"),
            // Text is for what may be a large amount.
            Err(e) => ensure!(v["time_lock"].is_string(), "output {v} is refused: {e}"),
        }
    }
    // Ways to choose outputs
    let from = t.bool().then_some(pkh);
    let (s, name, alias) = [
        (UtxoSelectionStrategy::Random { from }, "random", "Random"),
        (UtxoSelectionStrategy::BigFirst { from }, "big_first", "BigFirst"),
        (UtxoSelectionStrategy::SmallFirst { from }, "small_first", "SmallFirst"),
    ][t.below(3)]
    .clone();
    let own = if from.is_some() { json!({"strategy": name, "from": address}) } else { json!(name) };
    ensure_eq!(serde_json::to_value(&s).map_err(text)?, own, "JSON form of a choice of outputs");
    let mut others = vec![own, json!({"strategy": alias, "from": from.map(text)})];
    if from.is_none() {
        others.extend([json!(alias), json!({"strategy": name}), json!({"strategy": name, "from": null})]);
    }
    for o in others {
        ensure_eq!(serde_json::from_str::<UtxoSelectionStrategy>(&o.to_string()).map_err(|e| format!("{o}: {e}"))?, s, "choice of outputs read from {o}");
    }
    let twit = bech32("twit", &p, 1, false);
    for o in [json!({"strategy": name, "from": twit}), json!({"from": address}), json!("largest"), json!(1), json!(null)] {
        ensure!(serde_json::from_str::<UtxoSelectionStrategy>(&o.to_string()).is_err(), "choice of outputs read from {o}");
    }
    ensure!(s.allows_from(&pkh) && (from.is_none() || p == [7; 20] || !s.allows_from(&PublicKeyHash::from_bytes(&[7; 20]).unwrap())), "outputs allowed");
    Ok(())
}

fn amounts(b: &Bytes, obs: &mut Obs) -> R {
    obs.nontrivial();
    let t = &mut b.tape();
    let (a, c, e) = (t.u64(), t.u64(), t.u32());
    let (w, x) = (Wit::from_nanowits(a), Wit::from(c));
    let want = format!("{}.{:09}", a / 1_000_000_000, a % 1_000_000_000);
    ensure_eq!(text(w), want, "text of an amount");
    ensure_eq!(w.wits_and_nanowits(), (a / 1_000_000_000, a % 1_000_000_000), "wits and nanowits");
    ensure_eq!((w.nanowits(), u64::from(w)), (a, a), "nanowits");
    forms(&w, json!(a), &a.to_le_bytes(), "amount")?;
    ensure_eq!(w.cmp(&x), a.cmp(&c), "order of amounts");
    let full = a % (u64::MAX / 1_000_000_000);
    ensure_eq!(Wit::from_wits(full).nanowits(), full * 1_000_000_000, "{full} wits");
    if let Some(s) = a.checked_add(c) {
        ensure_eq!((w + x).nanowits(), s, "sum");
        ensure_eq!([w, x].into_iter().sum::<Wit>().nanowits(), s, "sum of a list");
    }
    if let Some(s) = a.checked_sub(c) {
        ensure_eq!((w - x).nanowits(), s, "difference");
    }
    if let Some(s) = a.checked_mul(c) {
        ensure_eq!((w * x).nanowits(), s, "product");
    }
    if let Some(s) = a.checked_mul(u64::from(e)) {
        ensure_eq!(u64::from(w * e), s, "power");
    }
    if c != 0 {
        ensure_eq!(((w / x).nanowits(), (w % x).nanowits()), (a / c, a % c), "quotient");
    }
    let digits = t.below(20) as u8;
    ensure_eq!((w.lose_precision(digits).nanowits(), a.lose_precision(digits)), (a / 10u64.pow(digits.into()), a / 10u64.pow(digits.into())), "{a} without {digits} digits");
    Ok(())
}

fn odd_texts(b: &Bytes, obs: &mut Obs) -> R {
    let t = &mut b.tape();
    let (h, p, i) = (t.array::<32>(), t.array::<20>(), t.u32());
    let wit = *t.pick(&["wit", "twit", "wit", "twit", "bc", "wi", "wit1"]);
    let (kind, mut s) = match t.below(10) {
        0 | 1 => ("hash", hex_of(&h)),
        2 => ("hex", hex_of(&p)),
        3 | 4 => ("pointer", format!("{}:{i}", hex_of(&h))),
        5 => ("pointer", format!("{}:{}", hex_of(&h), t.pick(&["", "-1", "+7", "4294967295", "4294967296", "18446744073709551617", "1:2", "1:", "0x1", " 1", "1 ", "01", "1e3"]))),
        6 => {
            let n = *t.pick(&[0, 19, 21, 32, 1, 40]);
            ("address of another length", bech32(wit, &t.bytes(n), *t.pick(&[1, 0x2bc8_30a3]), t.bool()))
        }
        7 => ("address with another checksum", bech32(wit, &p, *t.pick(&[0, 2, 0x2bc8_30a3, 0x3fff_ffff]), false)),
        _ => ("address", bech32(wit, &p, 1, false)),
    };
    for _ in 0..t.below(3) {
        let cs: Vec<char> = s.chars().collect();
        let k = t.below(cs.len() + 1);
        let c = *t.pick(&['0', '1', 'f', 'g', 'q', 'b', ':', ' ', '\n', '\0', 'é', 'Q', 'A', '-', '+', '\u{ff11}', 'İ']);
        s = match t.below(9) {
            0 if k < cs.len() => cs.iter().enumerate().map(|(j, x)| if j == k { c } else { *x }).collect(),
            1 => cs[..k].iter().chain([&c]).chain(&cs[k..]).collect(),
            2 if k < cs.len() => cs[..k].iter().chain(&cs[k + 1..]).collect(),
            3 => cs[..k].iter().collect(),
            4 => s.to_uppercase(),
            5 => cs.iter().enumerate().map(|(j, x)| if j == k { x.to_ascii_uppercase() } else { *x }).collect(),
            6 => format!(" {s}\n"),
            7 if k + 1 < cs.len() => cs.iter().enumerate().map(|(j, _)| if j == k { cs[k + 1] } else if j == k + 1 { cs[k] } else { cs[j] }).collect(),
            _ => s,
        };
    }
    obs.label(kind);
    obs.nontrivial();
    obs.show(|| format!("{s:?}"));
    let got = Hash::from_str(&s).ok().map(|x| x.data());
    ensure_eq!(got, read_hex::<32>(&s), "{s:?} read as a hash");
    ensure_eq!(serde_json::from_value::<Hash>(json!(s)).ok().map(|x| x.data()), got, "{s:?} read as a hash in JSON");
    let got = PublicKeyHash::from_hex(&s).ok().map(|x| x.as_ref().to_vec());
    ensure_eq!(got, read_hex::<20>(&s).map(|x| x.to_vec()), "{s:?} read as an address in hex");
    for env in ENVS {
        let got = PublicKeyHash::from_bech32(env, &s).ok().map(|x| x.as_ref().to_vec());
        ensure_eq!(got, read_address(env, &s).map(|x| x.to_vec()), "{s:?} read as an address of {env}");
        obs.label_if(got.is_some(), "address");
    }
    let got = PublicKeyHash::from_str(&s).ok();
    ensure_eq!(got.map(|x| x.as_ref().to_vec()), read_address(Environment::Mainnet, &s).map(|x| x.to_vec()), "{s:?} read as an address");
    ensure_eq!(serde_json::from_value::<PublicKeyHash>(json!(s)).ok(), got, "{s:?} read as an address in JSON");
    let got = OutputPointer::from_str(&s).ok();
    ensure_eq!(got.map(|x| (x.transaction_id.data(), x.output_index)), read_pointer(&s), "{s:?} read as a pointer");
    ensure_eq!(serde_json::from_value::<OutputPointer>(json!(s)).ok(), got, "{s:?} read as a pointer in JSON");
    ensure_eq!(PublicKeyHash::from_bytes(s.as_bytes()).is_ok(), s.len() == 20, "bytes taken for an address");
    Ok(())
}

/// Numbers of all sorts where an amount is expected.
fn numbers(b: &Bytes, obs: &mut Obs) -> R {
    let t = &mut b.tape();
    let n = t.u64();
    let digits: String = (0..t.len(22)).map(|_| (b'0' + t.below(10) as u8) as char).collect();
    let s = match t.below(9) {
        0 => n.to_string(),
        1 => format!("-{n}"),
        2 => format!("+{n}"),
        3 => format!("{n}.0"),
        4 => digits.clone(),
        5 => format!("{}", u128::from(u64::MAX) + u128::from(n)),
        6 => format!(" {n}"),
        7 => format!("{}e{}", n % 100, t.below(30)),
        _ => format!("0{n}"),
    };
    let address = bech32("wit", &[1; 20], 1, false);
    let quoted = format!(r#"{{"pkh":"{address}","value":"{s}","time_lock":3}}"#);
    let plain = format!(r#"{{"pkh":"{address}","value":{s},"time_lock":3}}"#);
    let want = read_number(&s, u128::from(u64::MAX));
    obs.nontrivial_if(want.is_none());
    let got = serde_json::from_str::<ValueTransferOutput>(&quoted).ok().map(|x| x.value);
    ensure_eq!(got, want, "amount {quoted}");
    // A JSON number has neither a plus sign nor leading zeros; blanks are not part of it.
    let bare = s.trim();
    let want = if bare.starts_with('+') || (bare.len() > 1 && bare.starts_with('0')) { None } else { read_number(bare, u128::from(u64::MAX)) };
    let got = serde_json::from_str::<ValueTransferOutput>(&plain).ok().map(|x| x.value);
    ensure_eq!(got, want, "amount {plain}");
    // The genesis block gives all its numbers as text.
    let doc = format!(r#"{{"alloc":[[],[{{"address":"{address}","value":"{s}","timelock":"{n}"}},{{"address":"{address}","value":"1","timelock":"0"}}]]}}"#);
    let got = serde_json::from_str::<GenesisBlockInfo>(&doc).ok().map(|x| x.alloc);
    let pkh = PublicKeyHash::from_bytes(&[1; 20]).unwrap();
    let want = read_number(&s, u128::from(u64::MAX))
        .map(|value| vec![vec![], vec![ValueTransferOutput { pkh, value, time_lock: n }, ValueTransferOutput { pkh, value: 1, time_lock: 0 }]]);
    ensure_eq!(got, want, "genesis block {doc}");
    Ok(())
}

fn structures(b: &Bytes, obs: &mut Obs) -> R {
    let t = &mut b.tape();
    obs.nontrivial_if(b.0.len() > 64);
    match t.below(8) {
        0..3 => {
            let tx = arb::transaction(t);
            obs.label(arb::kind(&tx));
            obs.show(|| format!("{tx:?}"));
            keeps(&tx, arb::kind(&tx))?;
            let j = serde_json::to_value(&tx).map_err(text)?;
            // What a client looks at.
            match &tx {
                Transaction::ValueTransfer(v) => {
                    let body = &j["ValueTransfer"]["body"];
                    let inputs: Vec<Value> = v.body.inputs.iter().map(|i| json!({"output_pointer": text(i.output_pointer())})).collect();
                    let outputs: Vec<Value> = v.body.outputs.iter().map(|o| json!({"pkh": text(o.pkh), "value": o.value, "time_lock": o.time_lock})).collect();
                    ensure_eq!((&body["inputs"], &body["outputs"]), (&json!(inputs), &json!(outputs)), "JSON form of a value transfer");
                }
                Transaction::Reveal(r) => {
                    let body = &j["Reveal"]["body"];
                    ensure_eq!(*body, json!({"dr_pointer": text(r.body.dr_pointer), "reveal": r.body.reveal, "pkh": text(r.body.pkh)}), "JSON form of a reveal");
                }
                Transaction::DataRequest(d) => {
                    let o = &j["DataRequest"]["body"]["dr_output"];
                    let d = &d.body.dr_output;
                    ensure_eq!(
                        (&o["witness_reward"], &o["witnesses"], &o["commit_and_reveal_fee"], &o["min_consensus_percentage"], &o["collateral"]),
                        (&json!(d.witness_reward), &json!(d.witnesses), &json!(d.commit_and_reveal_fee), &json!(d.min_consensus_percentage), &json!(d.collateral)),
                        "JSON form of a data request"
                    );
                }
                _ => (),
            }
            Ok(())
        }
        3 => {
            let x = arb::block(t);
            obs.label("block");
            keeps(&x, "block")
        }
        4 => {
            let x = arb::superblock(t);
            obs.label("superblock");
            keeps(&x, "superblock")
        }
        5 => {
            obs.label("request");
            let x = arb::dr_output(t);
            // Amounts may be given as text.
            let mut j = serde_json::to_value(&x).map_err(text)?;
            for f in ["witness_reward", "commit_and_reveal_fee", "collateral"] {
                if t.bool() {
                    j[f] = json!(j[f].to_string());
                }
            }
            if let Ok(y) = serde_json::from_value::<DataRequestOutput>(j.clone()) {
                ensure!(x == y, "request read from {j}");
            }
            keeps(&x, "request")
        }
        6 => {
            obs.label("retrieval");
            let x = arb::retrieve(t);
            keeps(&x, "retrieval")?;
            // Fields that are left out are empty.
            let j = serde_json::to_value(&x).map_err(text)?;
            for (f, empty) in [("url", x.url.is_empty()), ("script", x.script.is_empty()), ("body", x.body.is_empty()), ("headers", x.headers.is_empty())] {
                ensure_eq!(j.get(f).is_none(), empty, "{f} of {j}");
            }
            // Stored with the version of its form.
            let b = bincode::serialize(&x).map_err(text)?;
            ensure_eq!(b[..4], 3u32.to_le_bytes()[..], "version of a stored retrieval");
            Ok(())
        }
        _ => {
            obs.label("vote and header");
            keeps(&arb::beacon(t), "beacon")?;
            keeps(&arb::header(t), "header")?;
            keeps(&arb::stake_output(t), "stake output")?;
            keeps(&arb::keyed(t), "signature")
        }
    }
}

pub fn c42(c: &mut Check) {
    c.assume("bech32 0.11 is a stand-in here; like the original, it takes both Bech32 and Bech32m checksums");
    c.sub("values", "neither the hash nor the address nor the index is zero", 60_000, 1_000_000, || tapes(160), values);
    c.sub("amounts", "every case", 60_000, 1_000_000, || tapes(40), amounts);
    c.sub("odd-texts", "every case", 300_000, 5_000_000, || tapes(160), odd_texts);
    c.sub("numbers", "the number is not an amount", 100_000, 1_000_000, || tapes(60), numbers);
    c.sub("structures", "more than the emptiest structure", 60_000, 1_000_000, || tapes(2500), structures);
}
