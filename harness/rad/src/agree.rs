//! C32: how values become one value: filters, reducers, aggregation, tally.
use crate::{
    interp::{Cx, Res, filter, reduce},
    scripts::{same, wips},
    v::{self, E, V},
};
use serde_cbor::Value;
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, long_tapes, tapes},
};
use witnet_data_structures::{
    chain::{
        RADAggregate, RADFilter, RADTally,
        tapi::{ActiveWips, current_active_wips},
    },
    radon_report::{RadonReport, ReportContext, Stage, TallyMetaData},
};
use witnet_rad::{
    conditions::{
        TallyPreconditionClauseResult as Clause, construct_report_from_clause_result, evaluate_tally_postcondition_clause,
        evaluate_tally_precondition_clause,
    },
    error::RadError,
    run_aggregation, run_aggregation_report, run_aggregation_with_context_report, run_tally, run_tally_report, run_tally_with_context_report,
    script::{RadonScriptExecutionSettings, create_radon_script_from_filters_and_reducer},
    types::{RadonType, RadonTypes},
};

type R = Result<(), String>;

/// A script of the aggregation or of the tally: filters with their arguments, and a reducer.
#[derive(Clone, Debug)]
pub struct Agg {
    pub filters: Vec<(u32, Option<Value>)>,
    pub reducer: u32,
}
impl Agg {
    fn filters(&self) -> Vec<RADFilter> {
        self.filters
            .iter()
            .map(|(op, a)| RADFilter { op: *op, args: a.as_ref().map_or(vec![], |a| serde_cbor::to_vec(a).unwrap()) })
            .collect()
    }
    pub fn aggregate(&self) -> RADAggregate {
        RADAggregate { filters: self.filters(), reducer: self.reducer }
    }
    pub fn tally(&self) -> RADTally {
        RADTally { filters: self.filters(), reducer: self.reducer }
    }
    pub fn valid(&self, cx: &Cx) -> bool {
        self.filters.iter().all(|f| f.0 == 5 || f.0 == 8) && reducer_allowed(self.reducer, cx)
    }
    pub fn draw(t: &mut Tape) -> Agg {
        let n = *t.pick(&[0, 1, 1, 2, 2, 3]);
        Agg {
            filters: (0..n)
                .map(|_| match t.below(12) {
                    0..=5 => (5, Some(if t.odds(200) { Value::Float(t.below(10) as f64 / 4.0) } else { sigmas(t) })),
                    6..=9 => (8, None),
                    10 => (5, t.bool().then(|| crate::scripts::any_arg(t, 1))),
                    _ => {
                        let a = t.bool().then(|| sigmas(t));
                        (if t.odds(80) { *t.pick(&[0, 6, 0x88, 9, 256, 264, u32::MAX]) } else { *t.pick(&[8, 5]) }, a)
                    }
                })
                .collect(),
            reducer: if t.odds(20) { *t.pick(&[7, 0, 1, 4, 0xa, 255, 258]) } else { *t.pick(&[3, 2, 5, 3, 2, 5, 0xb]) },
        }
    }
}
fn sigmas(t: &mut Tape) -> Value {
    if t.bool() { Value::Integer(t.below(5) as i128 - 1) } else { Value::Float(v::floats(t)) }
}
fn reducer_allowed(r: u32, cx: &Cx) -> bool {
    matches!(r, 2 | 3) || r == 5 && cx.wip17 || r == 0xb && cx.wip19
}
pub fn rules(t: &mut Tape) -> (ActiveWips, Cx) {
    let on = t.odds(210);
    let w = if on { wips(&["WIP0017-0018-0019", "WIP0024", "WIP0009-0011-0012"]) } else { wips(&["WIP0009-0011-0012"]) };
    (w, Cx { wip24: on, wip17: on, wip19: on, v21: false, retrieval: false, subs: vec![], subscripts_run: 0 })
}
pub fn settings(t: &mut Tape) -> RadonScriptExecutionSettings {
    RadonScriptExecutionSettings { breakpoints: t.bool(), partial_results: t.bool(), timing: t.bool() }
}

/// Values that sources give or witnesses reveal: mostly of one type, close to each other, many of them equal.
pub fn values(t: &mut Tape, max: usize) -> Vec<V> {
    let kind = t.below(8);
    let n = t.below(max);
    let mut out: Vec<V> = vec![];
    let base = v::floats(t);
    for _ in 0..n {
        let x = match kind {
            0 | 1 => V::Int(match t.below(4) {
                0 => v::ints(t),
                _ => 100 + t.below(8) as i128,
            }),
            2 => V::Float(match t.below(4) {
                0 => v::floats(t),
                1 => base + t.below(9) as f64,
                _ => 10.0 + t.below(16) as f64 / 4.0,
            }),
            3 => V::Str(if t.odds(40) { v::text(t) } else { hex::encode([t.below(3) as u8; 2]) }),
            4 => {
                let n = *t.pick(&[1, 0, 31, 32, 33, 2]);
                V::Bytes(vec![t.below(3) as u8; n])
            }
            5 => {
                let w = if t.odds(12) { t.below(4) } else { 2 };
                let ints = t.odds(128);
                V::Arr((0..w).map(|_| if ints && t.odds(248) { V::Int(t.below(6) as i128) } else { V::Float(t.below(12) as f64 / 2.0) }).collect())
            }
            6 => v::value(t, 2),
            _ => V::Bool(t.bool()),
        };
        let x = if t.odds(5) { v::value(t, 1) } else { x };
        let times = if t.odds(25) { *t.pick(&[2, 3, 126, 127, 128, 129, 255, 256, 300]) } else { 1 };
        out.extend(std::iter::repeat_n(x, times));
        if out.len() > 400 {
            break;
        }
    }
    // Spread the equal ones.
    if t.bool() && out.len() > 3 {
        let k = 1 + t.below(out.len() - 1);
        out.rotate_left(k);
        let n = out.len();
        out.swap(0, n / 2);
    }
    out
}
fn is_nan(v: &V) -> bool {
    matches!(v, V::Float(f) if f.is_nan())
}

/// Makes a script fit the values, more often than not.
fn fit(t: &mut Tape, a: &mut Agg, vals: &[V]) {
    if t.odds(90) || vals.is_empty() {
        return;
    }
    let numbers = matches!(vals[0], V::Int(_) | V::Float(_) | V::Arr(_));
    if !numbers {
        for f in &mut a.filters {
            *f = (8, None);
        }
    }
    if a.reducer != 2 {
        a.reducer = match vals[0] {
            V::Int(_) | V::Float(_) => *t.pick(&[3, 3, 5]),
            V::Arr(_) => 3,
            V::Str(_) | V::Bytes(_) => 0xb,
            _ => 2,
        };
    }
}

/// The result of the script of an aggregation, and the values at each step.
pub fn aggregated(values: &[V], a: &Agg, cx: &Cx, mut kept: impl FnMut(&[bool])) -> (Vec<Res>, bool) {
    let mut trace = vec![Ok(V::Arr(values.to_vec()))];
    let mut cur = values.to_vec();
    let mut touched = false;
    for (op, arg) in &a.filters {
        let args: Vec<Value> = arg.iter().cloned().collect();
        match filter(&cur, i128::from(*op), &args) {
            Ok((left, keep)) => {
                touched |= left.len() < cur.len();
                if !cur.is_empty() {
                    kept(&keep);
                }
                cur = left;
                trace.push(Ok(V::Arr(cur.clone())));
            }
            Err(e) => {
                trace.push(Err(e));
                return (trace, touched);
            }
        }
    }
    trace.push(reduce(&cur, a.reducer as u8, cx));
    (trace, touched)
}

fn label(o: &mut Obs, r: &Res) {
    o.label(match r {
        Ok(V::Arr(_)) => "result: array",
        Ok(V::Float(f)) if f.is_nan() => "result: not a number",
        Ok(_) => "result: value",
        Err(_) => "result: error",
    });
}

fn aggregation(t: &mut Tape, o: &mut Obs) -> R {
    let (w, cx) = rules(t);
    let mut a = Agg::draw(t);
    let vals = values(t, 14);
    fit(t, &mut a, &vals);
    let rts: Vec<RadonTypes> = vals.iter().map(V::rt).collect();
    let set = settings(t);
    let plain = run_aggregation(rts.clone(), a.aggregate(), &w);
    let (report, context) = run_aggregation_report(rts.clone(), a.aggregate(), set, &w);
    let what = || format!("{a:?} on {vals:?} with {:?}", w.active_wips);
    if !a.valid(&cx) {
        ensure!(plain.is_err() && report.is_err(), "script refused by the protocol runs: {}", what());
        o.label("refused");
        return Ok(());
    }
    let (trace, touched) = aggregated(&vals, &a, &cx, |_| ());
    let want = trace.last().unwrap();
    let plain = plain.map_err(|e| format!("{e} for {}", what()))?;
    let report = report.map_err(|e| format!("{e} for {}", what()))?;
    ensure!(same(&plain, want), "result {plain:?}, expected {want:?}, of {}", what());
    ensure!(same(&report.result, want), "result in the report {:?}, expected {want:?}, of {}", report.result, what());
    ensure!(matches!(report.context.stage, Stage::Aggregation) && matches!(context.stage, Stage::Aggregation), "stage of the report");
    ensure_eq!(report.partial_results.is_some(), set.partial_results, "partial results kept without being asked, or not kept");
    if let Some(p) = &report.partial_results {
        ensure_eq!(p.len(), trace.len(), "number of partial results of {}", what());
        for (g, w) in p.iter().zip(&trace) {
            ensure!(same(g, w), "partial result {g:?}, expected {w:?}, of {}", what());
        }
    }
    // With the rules left for the engine to choose: those in force
    let mut c = ReportContext::from_stage(Stage::Aggregation);
    let free = run_aggregation_with_context_report(rts, a.aggregate(), &mut c, set).map_err(|e| format!("with the rules in force: {e} for {}", what()))?;
    let all = Cx { wip24: true, wip17: true, wip19: true, ..cx.clone() };
    let (trace, _) = aggregated(&vals, &a, &all, |_| ());
    let want_free = trace.last().unwrap();
    ensure!(same(&free.result, want_free), "with the rules in force: result {:?}, expected {want_free:?}, of {}", free.result, what());
    o.nontrivial_if(vals.len() > 2 && want.is_ok());
    o.label_if(touched, "something filtered out");
    o.label_if(touched && want.is_ok(), "filtered and reduced");
    o.label_if(vals.len() > 127, "more than 127 values");
    label(o, want);
    o.show(|| format!("{a:?} on {vals:?} -> {want:?}"));
    Ok(())
}

fn tallies(t: &mut Tape, o: &mut Obs) -> R {
    let (w, cx) = rules(t);
    let mut a = Agg::draw(t);
    let vals = values(t, 14);
    fit(t, &mut a, &vals);
    let rts: Vec<RadonTypes> = vals.iter().map(V::rt).collect();
    let set = settings(t);
    let what = || format!("{a:?} on {vals:?} with {:?}", w.active_wips);
    // Those already out of consensus, in between
    let given = t.bool();
    let mut liars: Vec<bool> = vec![];
    for _ in 0..vals.len() {
        while given && t.odds(40) {
            liars.push(true);
        }
        liars.push(false);
    }
    let errors: Vec<bool> = liars.iter().map(|l| *l && t.bool()).collect();
    let plain = run_tally(rts.clone(), &a.tally(), &w);
    let (report, _) = run_tally_report(rts.clone(), &a.tally(), given.then(|| liars.clone()), given.then(|| errors.clone()), set, &w);
    if !a.valid(&cx) {
        ensure!(plain.is_err() && report.is_err(), "script refused by the protocol runs: {}", what());
        o.label("refused");
        return Ok(());
    }
    let plain = plain.map_err(|e| format!("{e} for {}", what()))?;
    let report = report.map_err(|e| format!("{e} for {}", what()))?;
    let Stage::Tally(m) = &report.context.stage else { return Err("the report is not of the tally".into()) };
    if vals.is_empty() {
        let none = Err(E::Coded(0x50));
        ensure!(same(&plain, &none) && same(&report.result, &none), "no reveals: {plain:?} and {:?}", report.result);
        o.label("no reveals");
        return Ok(());
    }
    let mut honest: Vec<usize> = (0..liars.len()).filter(|i| !liars[*i]).collect();
    let mut out = liars.clone();
    let mut updated = false;
    let (trace, touched) = aggregated(&vals, &a, &cx, |keep| {
        updated = true;
        honest = honest.iter().zip(keep).filter_map(|(i, k)| if *k { Some(*i) } else { out[*i] = true; None }).collect();
    });
    let want = trace.last().unwrap();
    ensure!(same(&plain, want), "result {plain:?}, expected {want:?}, of {}", what());
    ensure!(same(&report.result, want), "result in the report {:?}, expected {want:?}, of {}", report.result, what());
    ensure_eq!(m.liars, out, "who is out of consensus, in {} with {liars:?}", what());
    ensure_eq!(m.errors, if given { errors } else { vec![false; vals.len()] }, "who revealed an error, in {}", what());
    let share = if updated { out.iter().filter(|l| !**l).count() as f32 / out.len() as f32 } else { 1.0 };
    ensure_eq!(m.consensus, share, "share of those in consensus, in {}", what());
    // Rules left to the engine
    let mut c = ReportContext::from_stage(Stage::Tally(TallyMetaData::default()));
    let free = run_tally_with_context_report(rts.clone(), &a.tally(), &mut c, set).map_err(|e| format!("with the rules in force: {e} for {}", what()))?;
    let all = Cx { wip24: true, wip17: true, wip19: true, ..cx.clone() };
    let (trace, _) = aggregated(&vals, &a, &all, |_| ());
    ensure!(same(&free.result, trace.last().unwrap()), "with the rules in force: result {:?}, expected {:?}, of {}", free.result, trace.last().unwrap(), what());
    // The order of reveals is nothing to go by
    if vals.iter().all(|v| !matches!(v, V::Float(_) | V::Arr(_))) && want.is_ok() && a.reducer != 0xb && vals.iter().all(|v| !matches!(v, V::Int(i) if i.unsigned_abs() > 1 << 40)) {
        let mut other = rts;
        for i in (1..other.len()).rev() {
            other.swap(i, t.below(i + 1));
        }
        let r = run_tally(other, &a.tally(), &w).map_err(|e| e.to_string())?;
        ensure!(same(&r, want), "in another order: result {r:?}, expected {want:?}, of {}", what());
        o.label("in another order");
    }
    o.nontrivial_if(vals.len() > 2 && want.is_ok());
    o.label_if(touched, "liars found");
    o.label_if(given, "liars given");
    o.label_if(touched && liars.contains(&true), "liars given and found");
    o.label_if(vals.len() > 127, "more than 127 reveals");
    o.label_if(vals.iter().any(is_nan), "with something not a number");
    label(o, want);
    o.show(|| format!("{a:?} on {vals:?} -> {want:?}, out {out:?}"));
    Ok(())
}

/// Which scripts an aggregation or a tally may have, and what they turn into.
fn acceptance(t: &mut Tape, o: &mut Obs) -> R {
    let (w, cx) = rules(t);
    let n = t.below(4);
    let filters: Vec<RADFilter> = (0..n)
        .map(|_| {
            let op = match t.below(8) {
                0 | 1 | 2 => 5,
                3 | 4 | 5 => 8,
                6 => t.below(300) as u32,
                _ => t.u32(),
            };
            let args = match t.below(4) {
                0 | 1 => vec![],
                2 => serde_cbor::to_vec(&crate::scripts::any_arg(t, 2)).unwrap(),
                _ => {
                    let n = t.below(5);
                    t.bytes(n)
                }
            };
            RADFilter { op, args }
        })
        .collect();
    let reducer = match t.below(8) {
        0 => t.below(300) as u32,
        1 => t.u32(),
        _ => *t.pick(&[2, 3, 5, 0xb, 7]),
    };
    let mut want = Some(vec![]);
    for f in &filters {
        let arg = if f.args.is_empty() { Some(vec![]) } else { serde_cbor::from_slice::<Value>(&f.args).ok().map(|v| vec![v]) };
        want = match (want, arg) {
            (Some(mut w), Some(mut a)) if f.op == 5 || f.op == 8 => {
                a.insert(0, Value::Integer(f.op.into()));
                w.push((0x11u8, Some(a)));
                Some(w)
            }
            _ => None,
        };
    }
    let want = want.filter(|_| reducer_allowed(reducer, &cx)).map(|mut w| {
        w.push((0x1b, Some(vec![Value::Integer(reducer.into())])));
        w
    });
    let got = create_radon_script_from_filters_and_reducer(&filters, reducer, &w);
    match (&got, &want) {
        (Ok(g), Some(w)) => {
            let g: Vec<_> = g.iter().map(|(o, a)| (*o as u8, a.clone())).collect();
            ensure!(g == *w, "{filters:?} {reducer} turn into {g:?}, expected {w:?}");
        }
        (Err(e), None) => {
            // What is wrong with the first filter that is wrong, or else with the reducer
            let known = |c: u32| c <= 8 || (0x80..=0x88).contains(&c);
            let bad = filters.iter().find(|f| !matches!(f.op, 5 | 8) || !f.args.is_empty() && serde_cbor::from_slice::<Value>(&f.args).is_err());
            let ok = match bad {
                Some(f) if !known(f.op) => *e == RadError::UnknownFilter { code: f.op.into() },
                Some(f) if !matches!(f.op, 5 | 8) => *e == RadError::UnsupportedFilterInAT { operator: f.op as u8 },
                Some(_) => matches!(e, RadError::BufferIsNotValue { .. }),
                None if reducer > 0xb => *e == RadError::UnknownReducer { code: reducer.into() },
                None => *e == RadError::UnsupportedReducerInAT { operator: reducer as u8 },
            };
            ensure!(ok, "{filters:?} {reducer} refused with {e:?}");
        }
        _ => return Err(format!("{filters:?} {reducer} under {:?}: {got:?}, expected {want:?}", w.active_wips)),
    }
    o.nontrivial_if(n > 0);
    o.label(if want.is_some() { "accepted" } else { "refused" });
    Ok(())
}

// From reveals to the outcome

#[derive(Clone, Debug, PartialEq)]
enum Out {
    Value(Res),
    /// Too few of the same; how many of how many there were
    Insufficient(usize),
    Tie(u16),
}
#[derive(Clone, Debug)]
struct Outcome {
    out: Out,
    liars: Vec<bool>,
    errors: Vec<bool>,
}

/// The rules of consensus with the limit in percent.
fn outcome(vals: &[V], commits: usize, percent: usize, a: &Agg, cx: &Cx, too_many: bool) -> Outcome {
    let n = vals.len();
    let all = |out| Outcome { out, liars: vec![true; n], errors: vec![true; n] };
    let error = |c| all(Out::Value(Err(E::Coded(c))));
    let enough = |k: usize| k * 100 >= percent * commits;
    if too_many {
        return error(0x54);
    }
    if commits == 0 {
        return error(0x52);
    }
    if n == 0 {
        return error(0x50);
    }
    let count = |ty: &str| vals.iter().filter(|v| v.ty() == ty).count();
    let most = vals.iter().map(|v| count(v.ty())).max().unwrap();
    if !enough(most) {
        return all(Out::Insufficient(most));
    }
    let mut types: Vec<&str> = vals.iter().map(V::ty).filter(|ty| count(ty) == most).collect();
    types.sort();
    types.dedup();
    if types.len() > 1 {
        return all(Out::Tie(most as u16));
    }
    let ty = types[0];
    if ty == "RadonError" {
        let errs: Vec<&V> = vals.iter().filter(|v| v.ty() == ty).collect();
        let times = |v: &V| errs.iter().filter(|w| **w == v).count();
        let top = errs.iter().map(|v| times(v)).max().unwrap();
        if !enough(top) {
            return all(Out::Insufficient(top));
        }
        let mut winners = errs.iter().filter(|v| times(v) == top);
        let w = *winners.next().unwrap();
        if winners.any(|v| *v != w) {
            return all(Out::Tie(top as u16));
        }
        let V::Err(e) = w else { unreachable!() };
        // Nobody is out of consensus
        return Outcome { out: Out::Value(Err(e.clone())), liars: vec![false; n], errors: vec![true; n] };
    }
    let errors: Vec<bool> = vals.iter().map(|v| v.ty() == "RadonError").collect();
    let mut liars: Vec<bool> = vals.iter().map(|v| v.ty() != ty).collect();
    if !a.valid(cx) {
        return error(0x53);
    }
    let good: Vec<V> = vals.iter().filter(|v| v.ty() == ty).cloned().collect();
    let mut honest: Vec<usize> = (0..n).filter(|i| !liars[*i]).collect();
    let (trace, _) = aggregated(&good, a, cx, |keep| {
        honest = honest.iter().zip(keep).filter_map(|(i, k)| if *k { Some(*i) } else { liars[*i] = true; None }).collect();
    });
    match trace.last().unwrap() {
        Err(e) => Outcome { out: Out::Value(Err(e.clone())), liars, errors },
        Ok(v) => {
            let k = liars.iter().filter(|l| !**l).count();
            // Here, exactly as many as the limit are not enough
            if k * 100 > percent * commits { Outcome { out: Out::Value(Ok(v.clone())), liars, errors } } else { all(Out::Insufficient(k)) }
        }
    }
}

fn reveals(t: &mut Tape, o: &mut Obs) -> R {
    let (w, cx) = rules(t);
    let mut a = Agg::draw(t);
    if t.odds(200) {
        a.reducer = *t.pick(&[2, 3, 5]);
        for f in &mut a.filters {
            f.0 = if f.0 == 5 { 5 } else { 8 };
        }
    }
    let mut vals = values(t, 12);
    fit(t, &mut a, &vals);
    // Errors, too
    let rate = *t.pick(&[0, 30, 100, 250]);
    for x in vals.iter_mut() {
        if t.odds(rate) {
            *x = V::Err(match t.below(10) {
                0..=5 => E::Coded(0x30 + t.below(2) as u8),
                6 => E::Overflow,
                7 => E::Index(t.below(2) as i32),
                8 => E::Unsupported { ty: "RadonArray", op: 0x1b },
                _ => E::Coded(0x60),
            });
        }
    }
    // Errors can hide in arrays, when someone reveals them on purpose.
    if t.odds(12) && !vals.is_empty() {
        let i = t.below(vals.len());
        vals[i] = V::Arr(vec![if t.bool() { V::Err(E::Overflow) } else { V::Map([("a".to_string(), V::Err(E::Index(1)))].into()) }]);
        o.label("an error inside of an array");
    }
    let commits = vals.len() + *t.pick(&[0, 0, 0, 1, 2, 5]);
    let percent = *t.pick(&[51, 51, 60, 67, 70, 75, 80, 90, 99, 100, 33, 20, 1]);
    let too_many = t.odds(6);
    let min = percent as f64 / 100.0;
    let reports: Vec<RadonReport<RadonTypes>> = vals.iter().map(|v| RadonReport::from_result(Ok(v.rt()), &ReportContext::default())).collect();
    let what = || format!("{vals:?} of {commits} commits, {percent} %, {a:?}, under {:?}", w.active_wips);
    let want = outcome(&vals, commits, percent, &a, &cx, too_many);
    let clause = evaluate_tally_precondition_clause(reports.clone(), min, commits, &w, too_many);
    let mut passed = "";
    match &clause {
        Ok(Clause::MajorityOfValues { values, liars, errors }) => {
            passed = "values";
            ensure!(values.len() == liars.iter().filter(|l| !**l).count() && liars.len() == vals.len() && errors.len() == vals.len(), "sizes of the values, liars and errors for {}", what());
            let mut left = vals.iter().zip(liars).filter(|(_, l)| !**l).map(|(v, _)| v);
            ensure!(values.iter().all(|v| left.next() == Some(&V::of(v))), "values that passed {values:?}, liars {liars:?}, for {}", what());
            ensure!(errors.iter().zip(&vals).all(|(e, v)| *e == (v.ty() == "RadonError")), "errors {errors:?} for {}", what());
        }
        Ok(Clause::MajorityOfErrors { .. }) => passed = "errors",
        Err(_) => {}
    }
    let report = construct_report_from_clause_result(clause, &a.tally(), vals.len(), &w);
    let report = evaluate_tally_postcondition_clause(report, min, commits);
    let Stage::Tally(m) = &report.context.stage else { return Err("the report is not of the tally".into()) };
    let ok = match (&want.out, &report.result) {
        (Out::Value(v), r) => same(r, v),
        (Out::Insufficient(k), RadonTypes::RadonError(e)) => match e.inner() {
            RadError::InsufficientConsensus { achieved, required } => {
                *required == min && (*achieved == *k as f64 / commits as f64 || achieved.is_nan())
            }
            _ => false,
        },
        (Out::Tie(k), RadonTypes::RadonError(e)) => match e.inner() {
            RadError::UnhandledIntercept { inner: Some(i), .. } => matches!(&**i, RadError::ModeTie { max_count, .. } if max_count == k),
            _ => false,
        },
        _ => false,
    };
    ensure!(ok, "outcome {:?}, expected {:?}, of {}", report.result, want.out, what());
    ensure_eq!(m.liars, want.liars, "who is out of consensus, in {}", what());
    ensure_eq!(m.errors, want.errors, "who is taken for an error, in {}", what());
    o.nontrivial_if(!passed.is_empty() && vals.len() > 1);
    o.label(match &want.out {
        Out::Value(Ok(_)) => "a value",
        Out::Value(Err(_)) if passed == "errors" => "an error agreed on",
        Out::Value(Err(_)) => "an error",
        Out::Insufficient(_) => "insufficient consensus",
        Out::Tie(_) => "a tie",
    });
    o.label_if(!passed.is_empty() && matches!(want.out, Out::Insufficient(_)), "insufficient after the filters");
    o.label_if(vals.len() > 127, "more than 127 reveals");
    o.show(|| format!("{} -> {want:?}", what()));
    Ok(())
}

/// One reveal more for what was agreed on does not turn agreement into disagreement.
fn one_more(t: &mut Tape, o: &mut Obs) -> R {
    let w = current_active_wips();
    let mut vals = values(t, 12);
    vals.truncate(60);
    let a = Agg { filters: vec![(8, None)], reducer: 2 };
    let percent = *t.pick(&[51, 60, 70, 80, 99]);
    let run = |vals: &[V]| {
        let reports: Vec<RadonReport<RadonTypes>> = vals.iter().map(|v| RadonReport::from_result(Ok(v.rt()), &ReportContext::default())).collect();
        let c = evaluate_tally_precondition_clause(reports, percent as f64 / 100.0, vals.len(), &w, false);
        let r = construct_report_from_clause_result(c, &a.tally(), vals.len(), &w);
        evaluate_tally_postcondition_clause(r, percent as f64 / 100.0, vals.len())
    };
    let before = run(&vals);
    let V::Err(_) = V::of(&before.result) else {
        let v = V::of(&before.result);
        vals.insert(t.below(vals.len() + 1), v.clone());
        let after = V::of(&run(&vals).result);
        ensure!(after == v, "{v:?} was agreed on; with one more for it, the outcome is {after:?}: {vals:?} at {percent} %");
        o.nontrivial();
        return Ok(());
    };
    Ok(())
}

pub fn c32(c: &mut Check) {
    let rule = "three values or more, and a result that is not an error";
    c.sub("aggregations", rule, 60_000, 3_000_000, || long_tapes(160), |b, o| aggregation(&mut b.tape(), o));
    c.sub("tallies", rule, 60_000, 3_000_000, || long_tapes(180), |b, o| tallies(&mut b.tape(), o));
    c.sub("accepted scripts", "it has filters", 36_000, 1_500_000, || tapes(48), |b, o| acceptance(&mut b.tape(), o));
    c.sub("outcomes of reveals", "two reveals or more, and enough of the same type", 60_000, 3_000_000, || long_tapes(180), |b, o| reveals(&mut b.tape(), o));
    c.sub("one more reveal", "a value was agreed on", 18_000, 600_000, || long_tapes(120), |b, o| one_more(&mut b.tape(), o));
    let _ = RadonTypes::num_types();
    let _ = <witnet_rad::types::array::RadonArray as RadonType<Vec<RadonTypes>>>::radon_type_name();
}
