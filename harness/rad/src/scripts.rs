//! C31: RADON scripts.
use crate::{
    interp::{self, Call, Cx, Res, run, step},
    v::{self, E, KEYS, OPS, V, op_name},
};
use serde_cbor::Value;
use std::collections::{BTreeMap, HashMap};
use std::convert::TryFrom;
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, long_tapes, tapes},
};
use witnet_data_structures::{
    chain::tapi::ActiveWips,
    proto::versioning::ProtocolVersion,
    radon_report::{RadonReport, ReportContext, RetrievalMetadata, Stage, TallyMetaData},
};
use witnet_rad::{
    error::RadError,
    operators::RadonOpCodes,
    script::{RadonCall, RadonScriptExecutionSettings, execute_contextfree_radon_script, execute_radon_script, unpack_radon_script, unpack_subscript},
    types::{RadonTypes, RadonTypesDiscriminant},
};

type R = Result<(), String>;

/// The rules in force: proposals and protocol version.
pub struct Rules {
    pub wips: Option<ActiveWips>,
    pub version: Option<ProtocolVersion>,
}
pub fn wips(names: &[&str]) -> ActiveWips {
    ActiveWips { active_wips: names.iter().map(|n| (n.to_string(), 0)).collect::<HashMap<_, _>>(), block_epoch: 0 }
}
impl Rules {
    pub fn draw(t: &mut Tape) -> (Rules, Cx) {
        let mut names = vec!["WIP0017-0018-0019", "WIP0024"];
        let some = match t.below(6) {
            0 | 1 => true,
            2 => false,
            3 => {
                names.remove(0);
                true
            }
            4 => {
                names.remove(1);
                true
            }
            _ => {
                names.clear();
                true
            }
        };
        let version = *t.pick(&[
            Some(ProtocolVersion::V2_1),
            Some(ProtocolVersion::V2_1),
            Some(ProtocolVersion::V2_1),
            Some(ProtocolVersion::V2_0),
            Some(ProtocolVersion::V1_8),
            None,
        ]);
        let cx = Cx {
            wip24: !some || names.contains(&"WIP0024"),
            wip17: some && names.contains(&"WIP0017-0018-0019"),
            wip19: some && names.contains(&"WIP0017-0018-0019"),
            v21: version == Some(ProtocolVersion::V2_1),
            retrieval: false,
            subs: vec![],
            subscripts_run: 0,
        };
        (Rules { wips: some.then(|| wips(&names)), version }, cx)
    }
}

fn txt(s: &str) -> Value {
    Value::Text(s.to_string())
}
fn int(i: impl Into<i128>) -> Value {
    Value::Integer(i.into())
}
/// An argument of any sort.
pub fn any_arg(t: &mut Tape, depth: usize) -> Value {
    match t.below(if depth == 0 { 7 } else { 9 }) {
        0 => int(v::cbor_int(t)),
        1 => Value::Text(v::text(t)),
        2 => Value::Float(v::floats(t)),
        3 => Value::Bool(t.bool()),
        4 => {
            let n = t.below(4);
            Value::Bytes(t.bytes(n))
        }
        5 => Value::Null,
        6 => int(t.below(10) as i128),
        7 => {
            let n = t.below(4);
            Value::Array((0..n).map(|_| any_arg(t, depth - 1)).collect())
        }
        _ => {
            let n = t.below(4);
            Value::Map(
                (0..n)
                    .map(|_| {
                        let k = if t.odds(30) { any_arg(t, 0) } else { txt(*t.pick(&KEYS)) };
                        // A map cannot tell -1 from 1 as its key.
                        let k = if let Value::Integer(i) = k { int(i.abs()) } else { k };
                        (k, any_arg(t, depth - 1))
                    })
                    .collect(),
            )
        }
    }
}
fn separators(t: &mut Tape, out: &mut Vec<Value>) {
    let n = *t.pick(&[0, 0, 0, 1, 2, 2, 3]);
    for _ in 0..n {
        let v = if t.odds(30) { any_arg(t, 1) } else { txt(*t.pick(&[",", ".", "", " ", "00", "_", "é"])) };
        out.push(v);
    }
}
fn number(t: &mut Tape) -> Value {
    if t.bool() { int(v::cbor_int(t)) } else { Value::Float(v::floats(t)) }
}
fn path(t: &mut Tape) -> Value {
    let n = t.below(4);
    let mut p = "$".to_string();
    for _ in 0..n {
        p += *t.pick(&[".a", ".b", ".c", "..a", "..price", ".*", "[0]", "[1]", "['a']", "[*]", "['a b']", "..b"]);
    }
    Value::Text(if t.odds(15) { t.pick(&["", "a", "$.", "$[", "$..", "$[x]"]).to_string() } else { p })
}
fn regex(t: &mut Tape) -> Value {
    txt(*t.pick(&["", ",", "[0-9]+", "\\s", "(.)(.)", "x|y", "é", "(", "[", "^", "$", ".", "a*", "(?P<n>\\d)", "\\"]))
}

/// A call that can be made on a value, with arguments that mostly fit.
fn call(t: &mut Tape, v: &V, cx: &Cx, depth: usize) -> Call {
    if t.odds(24) {
        // Any call at all.
        let op = t.pick(OPS).0;
        let args = t.bool().then(|| {
            let n = t.below(4);
            (0..n).map(|_| any_arg(t, 2)).collect()
        });
        return (op, args);
    }
    let ops: Vec<u8> = match v {
        V::Arr(_) => vec![0x10, 0x11, 0x11, 0x11, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1a, 0x1a, 0x1b, 0x1b, 0x1b, 0x1d, 0x1d, 0x1d],
        V::Bool(_) => vec![0x20, 0x22],
        V::Bytes(_) => vec![0x30, 0x30, 0x31, 0x32, 0x32, 0x34, 0x3c],
        V::Int(_) => vec![0x40, 0x41, 0x42, 0x43, 0x44, 0x46, 0x47, 0x48, 0x49, 0x4a],
        V::Float(_) => vec![0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5b, 0x5d],
        V::Map(_) => vec![0x61, 0x62, 0x63, 0x64, 0x64, 0x65, 0x65, 0x66, 0x67, 0x67, 0x68, 0x69],
        V::Str(_) => vec![0x70, 0x71, 0x71, 0x72, 0x73, 0x74, 0x75, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0x7b, 0x7c, 0x7d],
        V::Err(_) => unreachable!(),
    };
    let mut op = if t.odds(8) { 0 } else { *t.pick(&ops) };
    let mut a: Vec<Value> = vec![];
    let mut none = false;
    let wrong = t.odds(20);
    match (op, v) {
        (0x13..=0x19, V::Arr(x)) => {
            let i = match t.below(12) {
                0 => -1 - (t.below(3) as i128),
                1 => x.len() as i128 + t.below(2) as i128,
                2 => v::cbor_int(t),
                _ => t.below(x.len().max(1)) as i128,
            };
            // Ask for what is there, more often than not.
            if let Some(item) = usize::try_from(i).ok().and_then(|i| x.get(i)).filter(|_| t.odds(150)) {
                op = match item {
                    V::Arr(_) => 0x13,
                    V::Bool(_) => 0x14,
                    V::Bytes(_) => 0x15,
                    V::Float(_) => 0x16,
                    V::Int(_) => 0x17,
                    V::Map(_) => 0x18,
                    _ => *t.pick(&[0x16, 0x17, 0x19]),
                };
            }
            a.push(int(i));
            if matches!(op, 0x16 | 0x17) {
                separators(t, &mut a);
            }
        }
        (0x61..=0x67, V::Map(m)) => {
            let k = if m.is_empty() || t.odds(30) { t.pick(&KEYS).to_string() } else { m.keys().nth(t.below(m.len())).unwrap().clone() };
            if let Some(item) = m.get(&k).filter(|_| t.odds(150)) {
                op = match item {
                    V::Arr(_) => 0x61,
                    V::Bool(_) => 0x62,
                    V::Bytes(_) => 0x63,
                    V::Float(_) => 0x64,
                    V::Int(_) => 0x65,
                    V::Map(_) => 0x66,
                    _ => *t.pick(&[0x64, 0x65, 0x67]),
                };
            }
            a.push(Value::Text(k));
            if matches!(op, 0x64 | 0x65) || t.odds(20) {
                separators(t, &mut a);
            }
        }
        (0x11, V::Arr(x)) => match t.below(5) {
            0 => {
                a.push(int(5));
                a.push(if t.odds(200) { Value::Float(t.below(9) as f64 / 4.0) } else { number(t) });
            }
            1 => a.push(int(8)),
            2 => {
                a.push(int(*t.pick(&[0, 1, 7, 0x80, 0x88, 0x89, 9, 256, -1, 5])));
                a.push(number(t));
            }
            _ => a.push(subscript(t, x, cx, depth, true)),
        },
        (0x1a, V::Arr(x)) => a.push(subscript(t, x, cx, depth, false)),
        (0x1d, V::Arr(x)) => {
            if t.odds(160) {
                a.push(subscript(t, x, cx, depth, false));
            }
        }
        (0x1b, _) => a.push(int(*t.pick(&[2, 3, 5, 7, 0xb, 3, 2, 0, 0xa, 0xc, 255]))),
        (0x30, _) => none = opt_u8(t, &mut a, &[0, 0x10, 0x11, 0x80, 1]),
        (0x31, _) => a.push(int(*t.pick(&[0xa, 0xa, 0xa, 0, 0xb, 0xff, 0x12]))),
        (0x32 | 0x4a, _) => none = opt_u8(t, &mut a, &[0, 1, 1, 2, 255]),
        (0x71, _) => none = opt_u8(t, &mut a, &[0, 0x10, 0x11, 0x80, 0x80, 1]),
        (0x3c | 0x7c, _) => {
            a.push(int(t.below(14) as i128 - 5));
            if t.odds(150) {
                a.push(if t.odds(40) { any_arg(t, 0) } else { int(t.below(14) as i128 - 5) });
            }
        }
        (0x43 | 0x44 | 0x46 | 0x47, V::Int(i)) => a.push(int(match t.below(5) {
            0 => *i,
            1 => 0,
            2 => -1,
            _ => v::cbor_int(t),
        }
        .clamp(-(1 << 64), (1 << 64) - 1))),
        (0x49, _) => a.push(int(*t.pick(&[2, 0, 1, 3, 5, 40, 126, 127, 128, 1 << 31, (1i128 << 32) - 1, 1 << 32, -1]))),
        (0x53 | 0x55 | 0x56 | 0x57 | 0x59, _) => a.push(number(t)),
        (0x72 | 0x73, _) => {
            separators(t, &mut a);
            none = a.is_empty() && t.bool();
        }
        (0x75, V::Str(s)) => {
            let n = t.below(4);
            let like = any_arg(t, 1);
            let kind = t.below(3);
            let mut m: BTreeMap<Value, Value> = (0..n).map(|_| (txt(*t.pick(&KEYS)), any_arg(t, 1))).collect();
            if t.odds(170) {
                m.insert(txt(s), if kind == 0 { like.clone() } else { any_arg(t, 1) });
            }
            a.push(Value::Map(m));
            a.push(like);
        }
        (0x76, _) => match t.below(5) {
            0 | 1 => none = true,
            2 => {}
            3 => a.push(path(t)),
            _ => {
                let n = t.below(4);
                a.push(Value::Array((0..n).map(|_| if t.odds(10) { Value::Null } else { path(t) }).collect()));
            }
        },
        (0x77, _) => match t.below(4) {
            0 | 1 => none = true,
            2 => {}
            _ => a.push(path(t)),
        },
        (0x7b, _) => {
            a.push(regex(t));
            a.push(txt(*t.pick(&["", "X", "$1", "${n}", "$2$1", "é", "$"])));
        }
        (0x7d, _) => {
            if t.odds(230) {
                a.push(regex(t));
            } else {
                none = t.bool();
            }
        }
        _ => none = true,
    }
    if wrong {
        match t.below(4) {
            0 => a.push(any_arg(t, 1)),
            1 => {
                a.pop();
            }
            2 => {
                a.pop();
                a.insert(0, any_arg(t, 2));
            }
            _ => none = !none,
        }
    }
    (op, if none { None } else { Some(a) })
}
fn opt_u8(t: &mut Tape, a: &mut Vec<Value>, from: &[i128]) -> bool {
    if t.odds(200) {
        a.push(int(*t.pick(from)));
        false
    } else {
        t.bool()
    }
}
/// A script for the items of an array, as an argument.
fn subscript(t: &mut Tape, items: &[V], cx: &Cx, depth: usize, filter: bool) -> Value {
    if t.odds(6) {
        return any_arg(t, 1);
    }
    let Some(x) = items.first() else {
        return Value::Array(if t.bool() { vec![int(0)] } else { vec![] });
    };
    let n = t.below(4);
    let (mut calls, last) = script(t, x, cx, depth.saturating_sub(1), n);
    if filter && let Some(v) = last && !matches!(v, V::Bool(_)) && t.odds(230) {
        // Make it say yes or no.
        let mut tail = match v {
            V::Int(_) => vec![(0x43 + t.below(2) as u8, Some(vec![int(t.below(5) as i128)]))],
            V::Float(_) => vec![(0x53, Some(vec![Value::Float(1.0)]))],
            V::Str(s) => vec![(0x75, Some(vec![Value::Map([(txt(&s), Value::Bool(t.bool()))].into()), Value::Bool(t.bool())]))],
            V::Arr(_) => vec![(0x10, None), (0x43, Some(vec![int(1)]))],
            V::Map(_) => vec![(0x68, None), (0x10, None), (0x44, Some(vec![int(2)]))],
            V::Bytes(_) => vec![(0x34, None), (0x43, Some(vec![int(1)]))],
            _ => vec![],
        };
        calls.append(&mut tail);
    }
    pack(&calls)
}
/// A script for a value: the next call is drawn for the result of the previous one.
pub fn script(t: &mut Tape, input: &V, cx: &Cx, depth: usize, n: usize) -> (Vec<Call>, Option<V>) {
    let mut cur = input.clone();
    let mut calls = vec![];
    for _ in 0..n {
        let mut c = call(t, &cur, cx, depth);
        let mut scratch = cx.clone();
        let mut r = step(&cur, &c, &mut scratch);
        if r.is_err() && t.odds(170) {
            c = call(t, &cur, cx, depth);
            r = step(&cur, &c, &mut scratch);
        }
        calls.push(c);
        match r {
            Ok(v) if v.size() < 400 => cur = v,
            _ => return (calls, None),
        }
    }
    (calls, Some(cur))
}
pub fn pack(calls: &[Call]) -> Value {
    Value::Array(
        calls
            .iter()
            .map(|(op, args)| match args {
                None => int(*op),
                Some(a) => Value::Array(std::iter::once(int(*op)).chain(a.iter().cloned()).collect()),
            })
            .collect(),
    )
}
pub fn input(t: &mut Tape) -> V {
    match t.below(6) {
        0 | 1 => V::Str(v::json(t, 3)),
        2 => V::Str(v::xml(t, 3)),
        3 => V::Str(v::text(t)),
        4 => V::Arr(v::items(t, 2)),
        _ => v::value(t, 3),
    }
}

/// Whether a result of the engine is what is expected.
pub fn same(got: &RadonTypes, want: &Res) -> bool {
    match (V::of(got), want) {
        (V::Err(e), Err(w)) => e == *w,
        (_, Err(_)) => false,
        (g, Ok(w)) => g == *w,
    }
}
fn code_of(op: RadonOpCodes) -> u8 {
    op as u8
}
fn calls_of(s: &[RadonCall]) -> Vec<Call> {
    s.iter().map(|(o, a)| (code_of(*o), a.clone())).collect()
}
fn settings(t: &mut Tape) -> RadonScriptExecutionSettings {
    RadonScriptExecutionSettings { breakpoints: t.bool(), partial_results: t.bool(), timing: t.bool() }
}
fn brief(c: &[Call]) -> String {
    c.iter().map(|(o, a)| format!("{}{}", op_name(*o).unwrap(), a.as_ref().map_or(String::new(), |a| format!("{a:?}")))).collect::<Vec<_>>().join(" ")
}

/// Runs a script of the engine under the given rules and checks everything that it says about the run.
fn check_run(v: &V, calls: &[Call], real: &[RadonCall], rules: &Rules, cx: &Cx, t: &mut Tape, o: &mut Obs) -> R {
    let set = settings(t);
    let stage = t.below(3);
    let mut cx = cx.clone();
    cx.retrieval = stage == 0;
    let trace = run(v, calls, &mut cx);
    let want = trace.last().unwrap();
    let make = || {
        let stage = match stage {
            0 => Stage::Retrieval(RetrievalMetadata::default()),
            1 => Stage::Aggregation,
            _ => Stage::Contextless,
        };
        let mut c: ReportContext<RadonTypes> = ReportContext::from_stage(stage);
        c.active_wips = rules.wips.clone();
        c.protocol_version = rules.version;
        c
    };
    let mut context = make();
    let report: RadonReport<RadonTypes> =
        execute_radon_script(v.rt(), real, &mut context, set).map_err(|e| format!("execution failed altogether: {e}"))?;
    let what = || format!("{}\n on {v:?}\n under wips {:?} version {:?}", brief(calls), rules.wips.as_ref().map(|w| &w.active_wips), rules.version);
    ensure!(same(&report.result, want), "result {:?}, expected {want:?}\n of {}", report.result, what());
    // The trace of the run
    ensure_eq!(report.partial_results.is_some(), set.partial_results, "partial results kept without being asked, or not kept");
    if let Some(p) = &report.partial_results {
        ensure_eq!(p.len(), trace.len(), "number of partial results of {}", what());
        for (i, (g, w)) in p.iter().zip(&trace).enumerate() {
            ensure!(same(g, w), "partial result {i} is {g:?}, expected {w:?}\n of {}", what());
        }
    }
    let c = &report.context;
    if stage == 0 {
        let Stage::Retrieval(m) = &c.stage else { return Err("the stage changed".into()) };
        let got: Vec<Vec<Vec<V>>> = m.subscript_partial_results.iter().map(|s| s.iter().map(|r| r.iter().map(V::of).collect()).collect()).collect();
        ensure!(got == cx.subs, "partial results of subscripts {got:?}\n expected {:?}\n of {}", cx.subs, what());
    }
    if cx.subscripts_run == 0 {
        let last = trace.len().checked_sub(2);
        ensure_eq!(c.call_index, if set.breakpoints { last } else { None }, "index of the last call of {}", what());
        ensure_eq!((c.start_time.is_some(), c.completion_time.is_some()), (set.timing, set.timing), "times of the run");
    }
    ensure!(c.active_wips.is_some() == rules.wips.is_some() && c.protocol_version == rules.version, "the rules in the report are not those of the run");
    // Once more: the same.
    let again = execute_radon_script(v.rt(), real, &mut make(), RadonScriptExecutionSettings::disable_all()).map_err(|e| e.to_string())?;
    ensure!(same(&again.result, want), "another run gives {:?}, expected {want:?}\n of {}", again.result, what());
    // Without a context
    if t.odds(60) {
        let mut plain = Cx { wip24: true, wip17: false, wip19: false, v21: false, retrieval: false, subs: vec![], subscripts_run: 0 };
        let w = run(v, calls, &mut plain).pop().unwrap();
        let g = execute_contextfree_radon_script(v.rt(), real);
        let ok = match (&g, &w) {
            (Ok(g), Ok(w)) => V::of(g) == *w,
            (Err(g), Err(w)) => E::of(g) == *w,
            _ => false,
        };
        ensure!(ok, "without a context: {g:?}, expected {w:?}\n of {}", what());
        o.label("also without a context");
    }
    // What was covered
    o.nontrivial_if(trace.len() > 2 || cx.subscripts_run > 0);
    o.label(match want {
        Ok(V::Arr(_)) => "array",
        Ok(V::Map(_)) => "map",
        Ok(_) => "scalar",
        Err(E::Unsupported { .. }) => "unsupported operator",
        Err(E::Index(_)) => "index out of bounds",
        Err(E::Key(_)) => "key not found",
        Err(E::Overflow) => "overflow",
        Err(_) => "other error",
    });
    o.label_if(cx.subscripts_run > 0, "with subscripts");
    o.label_if(!cx.subs.is_empty(), "subscript results kept");
    for (i, c) in calls.iter().enumerate().take(trace.len() - 1) {
        if trace[i + 1].is_ok() {
            o.label(op_name(c.0).unwrap());
        }
    }
    o.show(|| format!("{} on {v:?} -> {want:?}", brief(calls)));
    Ok(())
}

fn typed(t: &mut Tape, o: &mut Obs) -> R {
    let (rules, cx) = Rules::draw(t);
    let v = input(t);
    let n = 1 + t.below(7);
    let (calls, _) = script(t, &v, &cx, 2, n);
    let packed = serde_cbor::to_vec(&pack(&calls)).map_err(|e| format!("packing: {e}"))?;
    let real = unpack_radon_script(&packed).map_err(|e| format!("valid script {} does not unpack: {e}", brief(&calls)))?;
    ensure!(calls_of(&real) == calls, "unpacks as {real:?}, expected {}", brief(&calls));
    check_run(&v, &calls, &real, &rules, &cx, t, o)
}

/// A single call on a value made for it.
fn single(t: &mut Tape, o: &mut Obs) -> R {
    let (rules, cx) = Rules::draw(t);
    let v = match t.below(8) {
        0 => V::Arr(v::items(t, 2)),
        1 => V::Bool(t.bool()),
        2 => {
            let n = t.below(20);
            V::Bytes(t.bytes(n))
        }
        3 => V::Int(v::ints(t)),
        4 => V::Float(v::floats(t)),
        5 => V::Map((0..4).map(|_| (t.pick(&KEYS).to_string(), v::value(t, 2))).collect()),
        6 => V::Str(v::text(t)),
        _ => V::Str(if t.bool() { v::json(t, 3) } else { v::xml(t, 3) }),
    };
    let c = vec![call(t, &v, &cx, 2)];
    let real = unpack_radon_script(&serde_cbor::to_vec(&pack(&c)).unwrap()).map_err(|e| format!("{}: {e}", brief(&c)))?;
    check_run(&v, &c, &real, &rules, &cx, t, o)?;
    o.nontrivial();
    Ok(())
}

/// Anything as a script.
fn arbitrary(t: &mut Tape, o: &mut Obs) -> R {
    let bytes = match t.below(4) {
        0 => {
            let n = t.below(24);
            t.bytes(n)
        }
        1 => serde_cbor::to_vec(&any_arg(t, 3)).unwrap(),
        _ => {
            let n = t.below(5);
            let calls: Vec<Value> = (0..n)
                .map(|_| match t.below(8) {
                    0 => any_arg(t, 3),
                    1 | 2 => int(if t.odds(30) { v::cbor_int(t) } else { i128::from(t.pick(OPS).0) + if t.odds(20) { 256 } else { 0 } }),
                    _ => {
                        let n = t.below(4);
                        let head = if t.odds(30) { any_arg(t, 1) } else { int(t.pick(OPS).0) };
                        let empty = t.odds(10);
                        Value::Array(std::iter::once(head).chain((0..n).map(|_| any_arg(t, 3))).skip(usize::from(empty) * 9).collect())
                    }
                })
                .collect();
            let mut b = serde_cbor::to_vec(&Value::Array(calls)).unwrap();
            if t.odds(30) && !b.is_empty() {
                let i = t.below(b.len());
                b[i] ^= 1 << t.below(8);
            }
            b
        }
    };
    let got = unpack_radon_script(&bytes);
    let want = serde_cbor::from_slice::<Value>(&bytes).map_err(|_| ()).and_then(|v| interp::unpack(&v));
    match (got, want) {
        (Ok(g), Ok(w)) => {
            ensure!(calls_of(&g) == w, "{} unpacks as {g:?}, expected {}", hex::encode(&bytes), brief(&w));
            // As a subscript, the same
            let v: Value = serde_cbor::from_slice(&bytes).unwrap();
            let sub = unpack_subscript(&v).map_err(|e| format!("{} unpacks as a script and not as a subscript: {e}", hex::encode(&bytes)))?;
            ensure!(calls_of(&sub) == w, "{} unpacks as subscript {sub:?}", hex::encode(&bytes));
            let (rules, cx) = Rules::draw(t);
            let v = input(t);
            o.label("unpacks");
            check_run(&v, &w, &g, &rules, &cx, t, o)
        }
        (Err(_), Err(())) => {
            o.label("does not unpack");
            Ok(())
        }
        (g, w) => Err(format!("{} unpacks as {g:?}, expected {w:?}", hex::encode(&bytes))),
    }
}

/// A call that names an opcode and gives no usable argument must fail and not crash.
fn malformed(t: &mut Tape, o: &mut Obs) -> R {
    let (rules, cx) = Rules::draw(t);
    let v = input(t);
    let op = t.pick(OPS).0;
    let args = match t.below(4) {
        0 => None,
        1 => Some(vec![]),
        _ => {
            let n = t.below(5);
            Some((0..n).map(|_| any_arg(t, 2)).collect())
        }
    };
    let c = vec![(op, args)];
    let real = unpack_radon_script(&serde_cbor::to_vec(&pack(&c)).unwrap()).map_err(|e| format!("{}: {e}", brief(&c)))?;
    // A type for which the operator exists
    let v = match op >> 4 {
        1 => V::Arr(v::items(t, 2)),
        2 => V::Bool(true),
        3 => V::Bytes(t.bytes(4)),
        4 => V::Int(v::ints(t)),
        5 => V::Float(v::floats(t)),
        6 => V::Map([("a".to_string(), v::value(t, 1)), ("b".to_string(), V::Int(1))].into()),
        _ => v,
    };
    check_run(&v, &c, &real, &rules, &cx, t, o)?;
    o.nontrivial();
    Ok(())
}

/// Opcodes: which exist, and on what they operate.
fn opcodes(code: &u16, o: &mut Obs) -> R {
    use RadonTypesDiscriminant as D;
    let code = *code;
    let script = |v: Value| unpack_radon_script(&serde_cbor::to_vec(&Value::Array(vec![v])).unwrap());
    let plain = script(int(code));
    let compound = script(Value::Array(vec![int(code)]));
    if code > 255 {
        ensure!(compound.is_err(), "opcode {code} is accepted in a compound call");
        return Ok(());
    }
    o.nontrivial();
    let op = code as u8;
    match op_name(op) {
        None => ensure!(plain.is_err() && compound.is_err(), "opcode {op:#x} does not exist and is accepted"),
        Some(name) => {
            let p = plain.map_err(|e| format!("{name}: {e}"))?;
            let c = compound.map_err(|e| format!("{name}: {e}"))?;
            ensure!(calls_of(&p) == vec![(op, None)], "{name} unpacks as {p:?}");
            ensure!(calls_of(&c) == vec![(op, Some(vec![]))], "{name} with no arguments unpacks as {c:?}");
            ensure_eq!(p[0].0.to_string(), name, "name of opcode {op:#x}");
            for (d, high) in [(D::Array, 1), (D::Boolean, 2), (D::Bytes, 3), (D::Integer, 4), (D::Float, 5), (D::Map, 6), (D::String, 7)] {
                ensure_eq!(p[0].0.operates_on(d), op < 0x10 || op >> 4 == high, "{name} operates on {d:?}");
            }
            ensure_eq!(p[0].0.operates_on(D::Error), op < 0x10, "{name} operates on errors");
        }
    }
    ensure!(unpack_radon_script(&serde_cbor::to_vec(&Value::Array(vec![int(-1 - i128::from(op))])).unwrap()).is_err(), "negative opcode accepted");
    Ok(())
}

/// Numbers of a JSON document: those without a fraction become integers, whatever the sign.
fn json_numbers(t: &mut Tape, o: &mut Obs) -> R {
    let n = t.u32() >> t.below(32);
    let n = n.max(1);
    let scale = t.below(12);
    let text = match t.below(4) {
        0 => format!("{n}.0"),
        1 => format!("{n}e{scale}"),
        2 => format!("{n}E+{scale}"),
        _ => format!("{n}"),
    };
    let run = |s: &str| -> Result<V, String> {
        let script = vec![(RadonOpCodes::StringParseJSONArray, None)];
        let r = execute_contextfree_radon_script(V::Str(format!("[{s}]")).rt(), &script).map_err(|e| e.to_string())?;
        match V::of(&r) {
            V::Arr(mut a) if a.len() == 1 => Ok(a.remove(0)),
            v => Err(format!("[{s}] parses as {v:?}")),
        }
    };
    let pos = run(&text)?;
    o.nontrivial();
    let V::Int(p) = pos else { return Err(format!("{text} parses as {pos:?} and not as an integer")) };
    let want: i128 = i128::from(n) * if text.contains(['e', 'E']) { 10i128.pow(scale as u32) } else { 1 };
    // Where floats are wider apart than 1, the nearest one or the next is good.
    let slack = if want < 1 << 53 || !text.contains(['.', 'e', 'E']) { 0 } else { want >> 51 };
    ensure!((p - want).abs() <= slack, "{text} parses as {p}");
    let want = p;
    let neg = run(&format!("-{text}"))?;
    let float = neg == V::Float(-(want as f64)) && text.contains(['.', 'e', 'E']);
    ensure!(neg == V::Int(-want) || float, "-{text} parses as {neg:?}, while {text} parses as {pos:?}");
    ensure!(!float, "negative numbers without a fraction: -{text} parses as {neg:?}, while {text} parses as {pos:?}");
    Ok(())
}

/// A report can be made whatever the clock did between the start and the end of a run.
fn clocks(t: &mut Tape, o: &mut Obs) -> R {
    let mut c: ReportContext<RadonTypes> = ReportContext::from_stage(Stage::Tally(TallyMetaData::default()));
    let base = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_700_000_000);
    let (a, b) = (u64::from(t.u32()), u64::from(t.u32()));
    c.start_time = t.odds(230).then(|| base + std::time::Duration::from_millis(a));
    c.completion_time = t.odds(230).then(|| base + std::time::Duration::from_millis(b));
    let both = c.start_time.is_some() && c.completion_time.is_some();
    let r = RadonReport::from_result(Ok(V::Int(1).rt()), &c);
    let want = if both { b.saturating_sub(a) } else { 0 };
    ensure_eq!(r.running_time, std::time::Duration::from_millis(want), "running time");
    o.nontrivial_if(both);
    o.label_if(both && b < a, "the clock went back");
    Ok(())
}

pub fn c31(c: &mut Check) {
    let rule = "two calls or more had an effect, or a subscript ran";
    c.sub("typed scripts", rule, 260_000, 4_000_000, || long_tapes(260), |b, o| typed(&mut b.tape(), o));
    c.sub("single calls", "always", 260_000, 4_000_000, || long_tapes(140), |b, o| single(&mut b.tape(), o));
    c.sub("arbitrary scripts", rule, 120_000, 1_500_000, || tapes(160), |b, o| arbitrary(&mut b.tape(), o));
    c.sub("malformed calls", "always", 120_000, 1_500_000, || long_tapes(120), |b, o| malformed(&mut b.tape(), o));
    c.each("opcodes", "the number fits a byte", (0..1024u16).collect::<Vec<_>>(), opcodes);
    c.sub("json numbers", "always", 20_000, 100_000, || tapes(24), |b, o| json_numbers(&mut b.tape(), o));
    c.sub("clocks", "both times are set", 10_000, 50_000, || tapes(16), |b, o| clocks(&mut b.tape(), o));
    let _ = (RadError::default(), u8::try_from(1));
}
