//! C34: what data sources are asked, and what becomes of their answers.
use crate::{
    agree::{Agg, aggregated, settings, values},
    interp::{self, Call, Cx, Res, run},
    scripts::{pack, same, script, wips},
    v::{self, E, V},
};
use futures::executor::block_on;
use std::{
    collections::BTreeMap,
    sync::{Arc, Mutex, OnceLock},
    time::Duration,
};
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, long_tapes, tapes},
};
use witnet_data_structures::{
    chain::{RADRequest, RADRetrieve, RADType},
    proto::versioning::ProtocolVersion,
    radon_report::{ReportContext, RetrievalMetadata, Stage},
    set_protocol_version,
    witnessing::WitnessingConfig,
};
use witnet_rad::{
    error::RadError, run_paranoid_retrieval, run_retrieval, run_retrieval_report, run_retrieval_with_data, run_retrieval_with_data_report, script::RadonScriptExecutionSettings,
    try_data_request, types::RadonTypes,
};

type R = Result<(), String>;
type Answer = Result<(u16, Vec<(String, Vec<u8>)>, Vec<u8>), String>;
type Log = Arc<Mutex<Vec<reqwest::Request>>>;

/// Answers to the requests to come, in order, and what gets asked.
fn install(answers: Vec<Answer>) -> Log {
    let log: Log = Arc::default();
    let l = log.clone();
    let mut answers = answers.into_iter();
    reqwest::answer_with(Box::new(move |r| {
        l.lock().unwrap().push(r.clone());
        answers.next().unwrap_or_else(|| Err("asked too often".into()))
    }));
    log
}
fn runtime() -> &'static tokio::runtime::Runtime {
    static RT: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_time().build().unwrap())
}

/// What is expected of a retrieval.
#[derive(Clone, Debug, PartialEq)]
enum Exp {
    Done(Res),
    Url,
    Script,
    Header(String, String),
    Http,
    Status(u16),
    Unknown,
    Inconsistent,
}
fn check(got: &Result<RadonTypes, RadError>, want: &Exp, what: impl Fn() -> String) -> R {
    let ok = match (got, want) {
        (Ok(g), Exp::Done(w)) => same(g, w),
        (Err(RadError::UrlParseError { .. }), Exp::Url) | (Err(RadError::HttpOther { .. }), Exp::Http) => true,
        (Err(RadError::UnknownRetrieval), Exp::Unknown) | (Err(RadError::InconsistentSource), Exp::Inconsistent) => true,
        (Err(RadError::InvalidHttpHeader { name, value, .. }), Exp::Header(n, v)) => name == n && value == v,
        (Err(RadError::HttpStatus { status_code }), Exp::Status(s)) => status_code == s,
        (Err(e), Exp::Script) => E::of(e) != E::Coded(0x31) && !matches!(e, RadError::HttpOther { .. } | RadError::HttpStatus { .. } | RadError::InconsistentSource),
        _ => false,
    };
    ensure!(ok, "{got:?}, expected {want:?}\n of {}", what());
    Ok(())
}

const URLS: [&str; 12] = [
    "https://example.com/a?b=c#d",
    "http://example.com",
    "http://user:pw@10.0.0.1:8080/x/../y",
    "https://EXAMPLE.com:443/%7e?q=a b",
    "http://[::1]:21338/",
    "https://xn--e1afmkfd.example/é",
    "HTTPS://example.org",
    // Not URLs
    "",
    "example.com",
    "http://",
    "https://exa mple.com",
    "http://1.2.3.4:99999/",
];

/// A source: how to ask, and how to read the answer.
#[derive(Clone, Debug)]
struct Source {
    r: RADRetrieve,
    calls: Option<Vec<Call>>,
}
fn valid_name(n: &str) -> bool {
    !n.is_empty() && n.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b))
}
fn valid_value(v: &str) -> bool {
    v.bytes().all(|b| (0x20..0x7f).contains(&b) || b == b'\t')
}
fn header(t: &mut Tape) -> (String, String) {
    let n = match t.below(16) {
        0..=5 => t.pick(&["accept", "Accept", "X-API-Key", "user-agent", "User-Agent", "content-type", "x-a", "X-A", "cookie"]).to_string(),
        15 => t.pick(&["", "x y", "x:", "é", "a\n", "\u{7f}", "(a)", "x\0"]).to_string(),
        _ => t.pick(&["x-b", "accept", "!#$%&'*+-.^_`|~9", "host", "content-length"]).to_string(),
    };
    let v = match t.below(16) {
        0..=4 => t.pick(&["application/json", "a b", "", "k=v; x", "\t", " padded "]).to_string(),
        14 => t.pick(&["é", "a\r\nx: y", "a\0", "\u{7f}", "\n", "日本"]).to_string(),
        _ => "v".repeat(t.below(5)),
    };
    (n, v)
}
/// The answer that the script is to be run on, and the script.
fn source(t: &mut Tape, cx: &Cx) -> (Source, V) {
    let kind = match t.below(24) {
        0..=7 => RADType::HttpGet,
        8..=13 => RADType::HttpPost,
        14..=20 => RADType::HttpHead,
        23 => RADType::Unknown,
        _ => RADType::Rng,
    };
    let binary = t.odds(60) && kind != RADType::HttpHead;
    let input = if binary {
        let n = t.below(24);
        V::Bytes(t.bytes(n))
    } else if kind == RADType::HttpHead {
        let n = 1 + t.below(4);
        V::Map((0..n).map(|i| (t.pick(&["date", "x-b", "price", "a"]).to_string(), V::Str(if i == 0 { "12:34:56".into() } else { v::text(t) }))).collect())
    } else {
        match t.below(3) {
            0 => V::Str(v::json(t, 3)),
            1 => V::Str(v::text(t)),
            _ => V::Str(t.pick(&["42", "3.25", "true", "[1,2,3]", "{\"price\": 7}", "-1", "é,è"]).to_string()),
        }
    };
    let n = t.below(5);
    let (mut calls, _) = script(t, &input, cx, 2, n);
    if matches!(input, V::Str(_)) && calls.first().is_some_and(|c| (0x30..0x40).contains(&c.0)) {
        calls.clear();
    }
    let (bytes, calls) = if t.odds(14) {
        let b = match t.below(4) {
            0 => vec![],
            1 => serde_cbor::to_vec(&crate::scripts::any_arg(t, 2)).unwrap(),
            2 => vec![0x81, 0x18, 0xff],
            _ => {
                let n = t.below(8);
                t.bytes(n)
            }
        };
        let c = serde_cbor::from_slice::<serde_cbor::Value>(&b).ok().and_then(|v| interp::unpack(&v).ok());
        (b, c)
    } else {
        (serde_cbor::to_vec(&pack(&calls)).unwrap(), Some(calls))
    };
    let url = if t.odds(20) { t.pick(&URLS[7..]) } else { t.pick(&URLS[..7]) }.to_string();
    let body = if t.odds(100) {
        let n = t.below(12);
        t.bytes(n)
    } else {
        b"{\"query\": 1}".to_vec()
    };
    let n = *t.pick(&[0, 1, 2, 4]);
    let headers = (0..n).map(|_| header(t)).collect();
    (Source { r: RADRetrieve { kind, url, script: bytes, body, headers }, calls }, input)
}
/// An answer that mostly carries the given content.
fn answer(t: &mut Tape, content: &V) -> Answer {
    if t.odds(10) {
        return Err("connection refused".into());
    }
    let status = if t.odds(20) { *t.pick(&[404, 500, 301, 304, 199, 300, 400, 100, 599, 999]) } else { *t.pick(&[200, 200, 201, 204, 206, 299]) };
    let mut headers = vec![("content-type".to_string(), b"application/json; charset=utf-8".to_vec())];
    let mut body = vec![];
    match content {
        V::Str(s) => body = s.clone().into_bytes(),
        V::Bytes(b) => body = b.clone(),
        V::Map(m) => headers.extend(m.iter().filter_map(|(k, v)| if let V::Str(s) = v { Some((k.clone(), s.clone().into_bytes())) } else { None })),
        _ => {}
    }
    if t.odds(30) {
        let n = t.below(6);
        body = t.bytes(n);
    }
    if t.odds(80) {
        headers.push((t.pick(&["Date", "location", "X-Empty", "a", "a", "etag"]).to_string(), t.pick(&["Wed, 21 Oct 2015 07:28:00 GMT", "https://example.com:8443/x", "", "  spaces\t", "W/\"1:2\"", "caf\u{e9}"]).as_bytes().to_vec()));
    }
    Ok((status, headers, body))
}
fn binary(s: &Source) -> bool {
    s.calls.as_ref().and_then(|c| c.first()).is_some_and(|c| (0x30..0x40).contains(&c.0))
}
/// Header fields as a map: the last one of those with the same name counts.
fn map_of(fields: &[(String, Vec<u8>)]) -> V {
    let mut m = BTreeMap::new();
    for (k, v) in fields {
        // As http::HeaderMap takes them
        if !valid_name(k) || v.iter().any(|b| *b != b'\t' && (*b < 0x20 || *b == 0x7f)) {
            continue;
        }
        let text = if v.iter().all(|b| (0x20..0x7f).contains(b) || *b == b'\t') { String::from_utf8(v.clone()).unwrap() } else { String::new() };
        m.insert(k.to_ascii_lowercase(), V::Str(text.trim().to_string()));
    }
    V::Map(m)
}
/// What asking this source comes to: whether anything is sent, and the result.
fn expect(s: &Source, a: &Answer, cx: &Cx) -> (bool, Exp) {
    match s.r.kind {
        RADType::Unknown => return (false, Exp::Unknown),
        RADType::Rng => unreachable!(),
        _ => {}
    }
    if url::Url::parse(&s.r.url).is_err() {
        return (false, Exp::Url);
    }
    let Some(calls) = &s.calls else { return (false, Exp::Script) };
    if let Some((n, v)) = s.r.headers.iter().find(|(n, v)| !valid_name(n) || !valid_value(v)) {
        return (false, Exp::Header(n.clone(), v.clone()));
    }
    let (status, fields, body) = match a {
        Err(_) => return (true, Exp::Http),
        Ok(a) => a,
    };
    if !(200..300).contains(status) {
        return (true, Exp::Status(*status));
    }
    let input = match s.r.kind {
        RADType::HttpHead => map_of(fields),
        _ if binary(s) => V::Bytes(body.clone()),
        _ => V::Str(String::from_utf8_lossy(body.strip_prefix(b"\xef\xbb\xbf").unwrap_or(body)).into_owned()),
    };
    (true, Exp::Done(run(&input, calls, &mut cx.clone()).pop().unwrap()))
}
fn check_request(s: &Source, q: &reqwest::Request, proxy: Option<&str>, follow: bool, timeout: Duration) -> R {
    let method = match s.r.kind {
        RADType::HttpGet => "GET",
        RADType::HttpPost => "POST",
        _ => "HEAD",
    };
    ensure_eq!(q.method, method, "method for {:?}", s.r);
    ensure_eq!(q.url.as_str(), url::Url::parse(&s.r.url).unwrap().as_str(), "URL for {:?}", s.r);
    ensure_eq!(q.body, if method == "POST" { s.r.body.clone() } else { vec![] }, "body for {:?}", s.r);
    let mut want: BTreeMap<String, String> = BTreeMap::new();
    for (n, v) in &s.r.headers {
        want.insert(n.to_ascii_lowercase(), v.clone());
    }
    let mut got: BTreeMap<String, String> = BTreeMap::new();
    for (n, v) in &q.headers {
        ensure!(got.insert(n.to_string(), v.to_str().unwrap_or("?").to_string()).is_none(), "header {n} is sent twice");
    }
    if !want.contains_key("user-agent") {
        let ua = got.remove("user-agent").unwrap_or_default();
        ensure!(ua.contains("Mozilla"), "the witness tells who it is: {ua:?}");
    }
    ensure_eq!(got, want, "headers for {:?}", s.r);
    ensure_eq!(q.proxy.as_ref().map(|u| u.as_str().to_string()), proxy.map(|p| url::Url::parse(p).unwrap().as_str().to_string()), "proxy used for {}", q.url);
    ensure_eq!(q.redirects, if follow { 4 } else { 0 }, "redirects followed");
    ensure_eq!(q.timeout, Some(timeout), "time to answer");
    Ok(())
}
fn rules(t: &mut Tape) -> (witnet_data_structures::chain::tapi::ActiveWips, ProtocolVersion, Cx, bool) {
    let follow = t.bool();
    let on = t.odds(200);
    let mut names = vec![];
    if follow {
        names.push("WIP0025");
    }
    if on {
        names.extend(["WIP0017-0018-0019", "WIP0024"]);
    }
    let version = *t.pick(&[ProtocolVersion::V2_1, ProtocolVersion::V2_0, ProtocolVersion::V1_8]);
    (wips(&names), version, Cx { wip24: on, wip17: on, wip19: on, v21: version == ProtocolVersion::V2_1, retrieval: true, subs: vec![], subscripts_run: 0 }, follow)
}

fn label(o: &mut Obs, e: &Exp) {
    o.label(match e {
        Exp::Done(Ok(_)) => "a value",
        Exp::Done(Err(_)) => "the script fails",
        Exp::Url => "bad URL",
        Exp::Script => "bad script",
        Exp::Header(..) => "bad header",
        Exp::Http => "not reachable",
        Exp::Status(_) => "refused by the source",
        Exp::Unknown => "unknown kind",
        Exp::Inconsistent => "inconsistent",
    });
}

fn requests(t: &mut Tape, o: &mut Obs) -> R {
    let (w, version, cx, follow) = rules(t);
    let (s, input) = source(t, &cx);
    let a = answer(t, &input);
    let set = settings(t);
    let timeout = Duration::from_millis(1 + u64::from(t.u16()));
    let log = install(vec![a.clone(), a.clone()]);
    if s.r.kind == RADType::Rng {
        let one = block_on(run_retrieval_report(&s.r, set, w.clone(), version, None, Some(timeout))).map_err(|e| format!("no random number: {e}"))?;
        let two = block_on(run_retrieval(&s.r, w, version, None)).map_err(|e| format!("no random number: {e}"))?;
        for r in [&one.result, &two] {
            ensure!(matches!(V::of(r), V::Bytes(b) if b.len() == 32 && b != [0; 32]), "random number {r:?}");
        }
        ensure!(one.result != two, "twice the same random number {two:?}");
        ensure!(log.lock().unwrap().is_empty(), "a random number was asked for from outside");
        o.label("random number");
        return Ok(());
    }
    let (sent, want) = expect(&s, &a, &cx);
    let what = || format!("{s:?}\n answered with {a:?}");
    let report = block_on(run_retrieval_report(&s.r, set, w.clone(), version, None, Some(timeout)));
    if let Ok(r) = &report {
        ensure!(r.context.active_wips.as_ref().is_some_and(|x| x.active_wips == w.active_wips) && r.context.protocol_version == Some(version), "the report is under other rules");
        ensure!(matches!(r.context.stage, Stage::Retrieval(_)), "stage of the report");
        ensure!(r.context.start_time.is_some() && r.context.completion_time.is_some(), "times in the report");
    }
    check(&report.map(|r| r.result), &want, what)?;
    // Without a report, the same.
    let plain = block_on(run_retrieval(&s.r, w.clone(), version, Some(timeout)));
    check(&plain, &want, what)?;
    let log = log.lock().unwrap();
    ensure_eq!(log.len(), if sent { 2 } else { 0 }, "requests sent for {s:?}");
    for q in log.iter() {
        check_request(&s, q, None, follow, timeout)?;
    }
    drop(log);
    // What was answered, given at once
    if let (Ok((_, fields, body)), Exp::Done(res)) = (&a, &want) {
        let log = install(vec![]);
        let given = match s.r.kind {
            RADType::HttpHead => V::Str(fields.iter().map(|(k, v)| format!("{k}: {}\r\n", String::from_utf8_lossy(v))).collect()),
            _ if binary(&s) => V::Bytes(body.clone()),
            _ => V::Str(String::from_utf8_lossy(body).into_owned()),
        };
        let plain_text = fields.iter().all(|(k, v)| valid_name(k) && v.iter().all(|b| (0x20..0x7f).contains(b) || *b == b'\t') && *k == k.to_lowercase());
        if s.r.kind != RADType::HttpHead || plain_text {
            let r = run_retrieval_with_data(&s.r, &given.rt(), set, w.clone(), version);
            if !body.starts_with(b"\xef\xbb\xbf") {
                check(&r, &Exp::Done(res.clone()), || format!("{s:?}\n given {given:?}"))?;
            }
            let mut c = ReportContext::from_stage(Stage::Retrieval(RetrievalMetadata::default()));
            c.set_active_wips(w);
            c.set_protocol_version(version);
            let again = run_retrieval_with_data_report(&s.r, &given.rt(), &mut c, set).map_err(|e| e.to_string())?;
            let r = r.map_err(|e| e.to_string())?;
            ensure!(V::of(&again.result) == V::of(&r), "{again:?} with a report, {r:?} without");
        }
        ensure!(log.lock().unwrap().is_empty(), "a request was sent for what was given");
    }
    o.nontrivial_if(sent);
    o.label_if(sent && binary(&s), "binary");
    o.label_if(sent && s.r.kind == RADType::HttpHead, "headers");
    label(o, &want);
    o.show(|| format!("{} {} {a:?} -> {want:?}", s.r.kind as u8, s.r.url));
    Ok(())
}

const PROXIES: [&str; 5] = ["http://127.0.0.1:8118", "socks5://user:pw@tor.example:9050", "https://proxy.example:3128/", "socks4://10.0.0.1:1080", "http://[::1]:3128"];

fn vague(e: &E) -> bool {
    matches!(e, E::Other | E::Unsupported { .. } | E::Coded(_))
}

fn transports(t: &mut Tape, o: &mut Obs) -> R {
    let (w, version, cx, follow) = rules(t);
    let (mut s, input) = source(t, &cx);
    if s.r.kind == RADType::Rng {
        s.r.kind = RADType::HttpGet;
    }
    let n = *t.pick(&[2, 3, 1, 2, 4, 5, 3, 0]);
    let bad = t.odds(6);
    let ways: Vec<Option<&str>> = (0..n)
        .map(|i| {
            if bad && i + 1 == n {
                Some("ftp://127.0.0.1:21")
            } else if i == 0 && t.odds(170) {
                None
            } else {
                Some(*t.pick(&PROXIES))
            }
        })
        .collect();
    // Mostly the same answer to all
    let base = answer(t, &input);
    let pool = values(t, 5);
    let mixed = t.odds(120);
    if mixed && s.r.kind != RADType::HttpHead {
        // Plain numbers: something to aggregate
        s.calls = Some(vec![*t.pick(&[0x72, 0x73])].into_iter().map(|c| (c, None)).collect());
        s.r.script = serde_cbor::to_vec(&pack(s.calls.as_ref().unwrap())).unwrap();
    }
    let answers: Vec<Answer> = (0..n)
        .map(|_| {
            if mixed {
                if t.odds(10) {
                    return answer(t, &input);
                }
                let x = 10 + t.below(4);
                Ok((200, vec![], if t.odds(10) { b"x".to_vec() } else { format!("{x}").into_bytes() }))
            } else if t.odds(20) {
                answer(t, &input)
            } else {
                base.clone()
            }
        })
        .collect();
    let _ = pool;
    let mut a = Agg::draw(t);
    if t.odds(180) {
        a.reducer = *t.pick(&[3, 2, 5]);
        for f in &mut a.filters {
            f.0 = if f.0 == 5 { 5 } else { 8 };
        }
    }
    let threshold = t.below(101) as f32 / 100.0;
    let timeout = Duration::from_millis(1 + u64::from(t.u16()));
    let config = WitnessingConfig { transports: ways.iter().map(|w| w.map(|w| url::Url::parse(w).unwrap())).collect(), paranoid_threshold: threshold };
    let log = install(answers.clone());
    let got = block_on(run_paranoid_retrieval(&s.r, a.aggregate(), settings(t), w.clone(), version, config, Some(timeout)));
    let what = || format!("{s:?}\n through {ways:?}\n answered with {answers:?}\n and {a:?}, threshold {threshold}");
    let http = matches!(s.r.kind, RADType::HttpGet | RADType::HttpPost | RADType::HttpHead);
    if !http {
        check(&got.map(|r| r.result), &Exp::Unknown, what)?;
        o.label("unknown kind");
        return Ok(());
    }
    let log = log.lock().unwrap();
    if bad && n > 0 {
        ensure!(log.is_empty(), "requests were sent through some transports although another one is of no use");
        check(&got.map(|r| r.result), &Exp::Http, what)?;
        o.label("unusable transport");
        return Ok(());
    }
    let single: Vec<(bool, Exp)> = answers.iter().map(|x| expect(&s, x, &cx)).collect();
    ensure_eq!(log.len(), single.iter().filter(|x| x.0).count(), "requests sent for {}", what());
    for (q, way) in log.iter().zip(&ways) {
        check_request(&s, q, *way, follow, timeout)?;
    }
    let mut unsure = false;
    let want = match &single[..] {
        [] => Exp::Inconsistent,
        [one] => one.1.clone(),
        all => {
            let vals: Option<Vec<V>> = all
                .iter()
                .map(|x| match &x.1 {
                    Exp::Done(Ok(v)) => Some(v.clone()),
                    Exp::Done(Err(e)) => Some(V::Err(e.clone())),
                    _ => None,
                })
                .collect();
            let now = Cx { wip24: true, wip17: true, wip19: true, ..cx.clone() };
            match vals {
                Some(vals) if a.valid(&now) => {
                    // What is inside some errors is not told here.
                    unsure = vals.iter().any(|v| matches!(v, V::Err(e) if vague(e)));
                    let mut left: Vec<bool> = vec![true; n];
                    let mut touched = false;
                    let (trace, _) = aggregated(&vals, &a, &now, |keep| {
                        touched = true;
                        let mut k = keep.iter();
                        for l in left.iter_mut().filter(|l| **l) {
                            *l = *k.next().unwrap();
                        }
                    });
                    let share = if touched { left.iter().filter(|l| **l).count() as f32 / n as f32 } else { 1.0 };
                    match trace.last().unwrap() {
                        Ok(V::Err(e)) if share >= threshold => Exp::Done(Err(e.clone())),
                        Ok(v) if share >= threshold => Exp::Done(Ok(v.clone())),
                        // There is no telling what the source says.
                        _ => Exp::Inconsistent,
                    }
                }
                _ => Exp::Inconsistent,
            }
        }
    };
    if !unsure {
        check(&got.map(|r| r.result), &want, what)?;
    }
    o.nontrivial_if(n > 1 && single.iter().all(|x| x.0));
    o.label(match n {
        0 => "no transport",
        1 => "one transport",
        _ => "many transports",
    });
    o.label_if(n > 1 && single.iter().any(|x| x.1 != single[0].1), "different answers");
    label(o, &want);
    o.show(|| format!("{ways:?} {:?} -> {want:?}", single.iter().map(|s| &s.1).collect::<Vec<_>>()));
    Ok(())
}

/// The whole of a request: sources, aggregation and tally.
fn whole(t: &mut Tape, o: &mut Obs) -> R {
    let version = *t.pick(&[ProtocolVersion::V2_1, ProtocolVersion::V2_0, ProtocolVersion::V1_8]);
    let cx = Cx { wip24: true, wip17: true, wip19: true, v21: version == ProtocolVersion::V2_1, retrieval: true, subs: vec![], subscripts_run: 0 };
    let n = *t.pick(&[1, 2, 3, 3, 4, 5]);
    let inject = t.bool();
    let alike = t.odds(215);
    let mut sources = vec![];
    let mut inputs = vec![];
    for i in 0..n {
        if alike && i > 0 && t.odds(220) {
            let s: &Source = &sources[0];
            sources.push(s.clone());
            let x = if t.odds(140) { V::clone(&inputs[0]) } else { V::Str(t.pick(&["41", "43", "44", "true", "[1]"]).to_string()) };
            inputs.push(x);
        } else if alike && i == 0 && t.odds(200) {
            let (mut s, _) = source(t, &cx);
            s.r.kind = RADType::HttpGet;
            s.r.url = URLS[0].into();
            s.r.headers.clear();
            s.calls = Some(vec![(*t.pick(&[0x72, 0x73]), None)]);
            s.r.script = serde_cbor::to_vec(&pack(s.calls.as_ref().unwrap())).unwrap();
            sources.push(s);
            inputs.push(V::Str("42".into()));
        } else {
            let (mut s, input) = source(t, &cx);
            if s.r.kind == RADType::Rng {
                s.r.kind = RADType::HttpPost;
            }
            sources.push(s);
            inputs.push(input);
        }
    }
    let mut draw = |t: &mut Tape| {
        let mut a = Agg::draw(t);
        if t.odds(200) {
            a.reducer = *t.pick(&[3, 2, 5]);
            for f in &mut a.filters {
                f.0 = if f.0 == 5 { 5 } else { 8 };
            }
        }
        a
    };
    let (agg, tally) = (draw(t), draw(t));
    let too_many = t.odds(8);
    let set = settings(t);
    let request = RADRequest { time_lock: 0, retrieve: sources.iter().map(|s| s.r.clone()).collect(), aggregate: agg.aggregate(), tally: tally.tally() };
    let mut answers = vec![];
    let expected: Vec<Exp>;
    let texts: Vec<String>;
    if inject {
        texts = inputs
            .iter()
            .map(|i| match i {
                V::Str(s) => s.clone(),
                V::Map(m) => m.iter().map(|(k, v)| if let V::Str(s) = v { format!("{k}: {}\r\n", s.replace(['\r', '\n'], " ")) } else { String::new() }).collect(),
                _ => "7".into(),
            })
            .collect();
        expected = sources
            .iter()
            .zip(&texts)
            .map(|(s, x)| {
                let input = match s.r.kind {
                    RADType::HttpHead => V::Map(x.split("\r\n").filter_map(|l| l.split_once(':')).map(|(k, v)| (k.trim().to_string(), V::Str(v.trim().to_string()))).collect()),
                    RADType::Unknown => return Exp::Unknown,
                    _ => V::Str(x.clone()),
                };
                match &s.calls {
                    None => Exp::Script,
                    Some(c) => Exp::Done(run(&input, c, &mut cx.clone()).pop().unwrap()),
                }
            })
            .collect();
    } else {
        texts = vec![];
        answers = inputs.iter().map(|i| answer(t, i)).collect();
        expected = sources.iter().zip(&answers).map(|(s, a)| expect(s, a, &cx).1).collect();
    }
    let sent: Vec<Answer> = if inject { vec![] } else { sources.iter().zip(&answers).filter(|(s, a)| expect(s, a, &cx).0).map(|(_, a)| a.clone()).collect() };
    let asked = sent.len();
    let log = install(sent);
    let refs: Vec<&str> = texts.iter().map(String::as_str).collect();
    // Which version it is, is known to the whole process.
    static VERSION: Mutex<()> = Mutex::new(());
    let report = {
        let _lock = VERSION.lock().unwrap_or_else(|e| e.into_inner());
        set_protocol_version(version);
        let _guard = runtime().enter();
        let timeout = if t.bool() { None } else { Some(Duration::from_secs(5 + t.below(60) as u64)) };
        try_data_request(&request, set, inject.then_some(&refs[..]), None, too_many, timeout)
    };
    let log = log.lock().unwrap();
    ensure_eq!(log.len(), asked, "requests sent");
    let what = || format!("{sources:?}\n inputs {texts:?} answers {answers:?}\n {agg:?} {tally:?} under {version:?}");
    // Each source
    ensure_eq!(report.retrieve.len(), n, "number of retrieval reports");
    let mut vals = vec![];
    let mut unsure = 0;
    for (got, want) in report.retrieve.iter().zip(&expected) {
        let v = match want {
            Exp::Done(Ok(v)) => v.clone(),
            Exp::Done(Err(e)) => V::Err(e.clone()),
            Exp::Status(_) => V::Err(E::Coded(0x30)),
            // Which code, C31 tells.
            Exp::Script => V::of(&got.result),
            _ => V::Err(E::Other),
        };
        ensure!(V::of(&got.result) == v, "source gives {:?}, expected {v:?}\n of {}", got.result, what());
        if let V::Err(e) = &v {
            unsure += usize::from(vague(e) || matches!(want, Exp::Script));
        }
        if let RadonTypes::RadonError(e) = &got.result {
            let inside = match e.inner() {
                RadError::UnhandledIntercept { inner: Some(i), .. } => Err((**i).clone()),
                e => Err(e.clone()),
            };
            if !matches!(want, Exp::Done(_)) {
                check(&inside, want, what)?;
            }
        }
        vals.push(v);
    }
    // Aggregation
    let count = |ty: &str| vals.iter().filter(|v| v.ty() == ty).count();
    let most = vals.iter().map(|v| count(v.ty())).max().unwrap();
    let mut types: Vec<&str> = vals.iter().map(V::ty).filter(|ty| count(ty) == most).collect();
    types.sort();
    types.dedup();
    let aggregated_to: Option<Res> = if too_many {
        Some(Err(E::Coded(0x54)))
    } else if types.len() > 1 {
        Some(Err(E::Other))
    } else if types[0] == "RadonError" {
        // The most frequent error; a tie is an error as well.
        if n == 1 || unsure == 0 && vals.iter().filter(|v| v.ty() == "RadonError").all(|v| *v == *vals.iter().find(|v| v.ty() == "RadonError").unwrap()) {
            vals.iter().find_map(|v| if let V::Err(e) = v { Some(Err(e.clone())) } else { None })
        } else {
            None
        }
    } else if !agg.valid(&cx) {
        Some(Err(E::Other))
    } else {
        let good: Vec<V> = vals.iter().filter(|v| v.ty() == types[0]).cloned().collect();
        aggregated(&good, &agg, &cx, |_| ()).0.pop()
    };
    if let Some(w) = &aggregated_to {
        if agg.valid(&cx) || types[0] == "RadonError" || too_many {
            ensure!(same(&report.aggregate.result, w), "aggregated to {:?}, expected {w:?}\n of {}", report.aggregate.result, what());
        } else {
            ensure!(matches!(report.aggregate.result, RadonTypes::RadonError(_)), "aggregated by a script that is refused to {:?}", report.aggregate.result);
        }
    }
    // Tally of what came out
    let got = V::of(&report.aggregate.result);
    match &got {
        V::Err(_) => {}
        v if tally.valid(&cx) => {
            let (trace, _) = aggregated(std::slice::from_ref(v), &tally, &cx, |_| ());
            let w = trace.last().unwrap();
            ensure!(same(&report.tally.result, w), "tally of {v:?} is {:?}, expected {w:?}\n of {}", report.tally.result, what());
        }
        _ => ensure!(matches!(report.tally.result, RadonTypes::RadonError(_)), "tally by a script that is refused: {:?}", report.tally.result),
    }
    o.nontrivial_if(n > 1 && !matches!(got, V::Err(_)));
    o.label(if inject { "given" } else { "asked" });
    o.label(match &got {
        V::Err(_) => "an error",
        _ => "a value",
    });
    o.label_if(vals.iter().any(|v| matches!(v, V::Err(_))) && !matches!(got, V::Err(_)), "a value in spite of errors");
    o.show(|| format!("{vals:?} -> {got:?} -> {:?}", report.tally.result));
    Ok(())
}

/// Sources that do not answer in time: the other ones still count.
fn timeouts(t: &mut Tape, o: &mut Obs) -> R {
    let n = 1 + t.below(5);
    let late: Vec<bool> = (0..n).map(|_| t.bool()).collect();
    let log = install(late.iter().map(|l| if *l { Err("hang".into()) } else { Ok((200, vec![], b"42".to_vec())) }).collect());
    let r = RADRetrieve { kind: RADType::HttpGet, url: URLS[0].into(), script: vec![0x81, 0x18, 0x73], body: vec![], headers: vec![] };
    let a = Agg { filters: vec![], reducer: 2 };
    let request = RADRequest { time_lock: 0, retrieve: vec![r; n], aggregate: a.aggregate(), tally: a.tally() };
    let report = {
        let _guard = runtime().enter();
        try_data_request(&request, RadonScriptExecutionSettings::disable_all(), None, None, false, Some(Duration::from_millis(2)))
    };
    ensure_eq!(log.lock().unwrap().len(), n, "requests sent");
    for (r, l) in report.retrieve.iter().zip(&late) {
        let want = if *l { Err(E::Coded(0x31)) } else { Ok(V::Int(42)) };
        ensure!(same(&r.result, &want), "{:?}, expected {want:?}, with late ones {late:?}", r.result);
    }
    let k = late.iter().filter(|l| **l).count();
    if 2 * k != n {
        let want = if 2 * k > n { Err(E::Coded(0x31)) } else { Ok(V::Int(42)) };
        ensure!(same(&report.tally.result, &want), "tally {:?}, expected {want:?}, with late ones {late:?}", report.tally.result);
    }
    o.nontrivial_if(k > 0 && k < n);
    Ok(())
}

pub fn c34(c: &mut Check) {
    c.sub("requests", "something is sent", 90_000, 1_500_000, || long_tapes(160), |b, o| requests(&mut b.tape(), o));
    c.sub("transports", "several, and something is sent", 60_000, 1_000_000, || long_tapes(200), |b, o| transports(&mut b.tape(), o));
    c.sub("whole requests", "several sources and a value", 60_000, 1_000_000, || long_tapes(240), |b, o| whole(&mut b.tape(), o));
    c.sub("late answers", "some are late", 900, 4_000, || tapes(16), |b, o| timeouts(&mut b.tape(), o));
}
