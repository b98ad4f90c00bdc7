//! C24: decoding of Zuul answers.
use chrono::{DateTime, TimeZone, Utc};
use std::io::Read;
use url::Url;
use vengine::serde_json::{self, json, Map, Value};
use vengine::*;
use zuul_build::{decode_build, decode_builds, Artifact, Build};

fn time(s: &str) -> DateTime<Utc> {
    Utc.from_utc_datetime(&chrono::NaiveDateTime::parse_from_str(s, "%Y-%m-%dT%H:%M:%S").unwrap())
}

fn good(k: usize) -> (Map<String, Value>, Build) {
    let n = k as u64;
    let uuid = format!("{:032x}", 0xabcdef00u64 + n);
    let v = json!({
        "uuid": uuid, "job_name": format!("job-{k}"), "result": "SUCCESS", "start_time": "2021-10-13T12:57:20",
        "end_time": "2021-10-13T12:58:42", "duration": 82 + n, "voting": k % 2 == 0,
        "log_url": format!("https://logs.example.com/{k}/"), "ref_url": format!("https://review.example.com/{k}"),
        "artifacts": [], "project": "some/project", "branch": "master", "pipeline": "gate", "change": 100 + n,
        "patchset": "1", "ref": format!("refs/changes/{k}"), "event_id": format!("event{k}")
    });
    let b = Build {
        uuid,
        job_name: format!("job-{k}"),
        result: "SUCCESS".into(),
        start_time: time("2021-10-13T12:57:20"),
        end_time: time("2021-10-13T12:58:42"),
        duration: 82 + n as u32,
        voting: k % 2 == 0,
        log_url: Some(Url::parse(&format!("https://logs.example.com/{k}/")).unwrap()),
        ref_url: Some(Url::parse(&format!("https://review.example.com/{k}")).unwrap()),
        artifacts: vec![],
        project: "some/project".into(),
        branch: "master".into(),
        pipeline: "gate".into(),
        change: Some(100 + n),
        patchset: Some("1".into()),
        change_ref: format!("refs/changes/{k}"),
        event_id: format!("event{k}"),
    };
    let Value::Object(m) = v else { unreachable!() };
    (m, b)
}

#[derive(Clone)]
enum Verdict {
    /// Accepted, and this changes the build.
    Valid(std::rc::Rc<dyn Fn(&mut Build)>),
    Invalid,
    /// Left to the decoder, which must treat it alike alone and in a list.
    Either,
    /// Left to the decoder, but if it is accepted it has this effect.
    Maybe(std::rc::Rc<dyn Fn(&mut Build)>),
}
use Verdict::*;

/// Every deviation of a field: (field, value or missing, verdict).
fn deviations() -> Vec<(&'static str, Option<Value>, Verdict)> {
    let mut v: Vec<(&'static str, Option<Value>, Verdict)> = vec![];
    fn ok(f: impl Fn(&mut Build) + 'static) -> Verdict {
        Valid(std::rc::Rc::new(f))
    }
    type Set = fn(&mut Build, String);
    let strings: [(&'static str, Set); 8] = [
        ("uuid", |b, s| b.uuid = s),
        ("job_name", |b, s| b.job_name = s),
        ("result", |b, s| b.result = s),
        ("project", |b, s| b.project = s),
        ("branch", |b, s| b.branch = s),
        ("pipeline", |b, s| b.pipeline = s),
        ("ref", |b, s| b.change_ref = s),
        ("event_id", |b, s| b.event_id = s),
    ];
    for (name, set) in strings {
        for text in ["", "x", "with \"quotes\" and \\ and \n", "\u{e9}\u{2026}\u{1f980}", "null", "  spaces  "] {
            v.push((name, Some(json!(text)), ok(move |b| set(b, text.to_string()))));
        }
        let long = "l".repeat(5000);
        let l2 = long.clone();
        v.push((name, Some(json!(long)), ok(move |b| set(b, l2.clone()))));
        for bad in [json!(null), json!(1), json!(true), json!([]), json!({}), json!(["x"])] {
            v.push((name, Some(bad), Invalid));
        }
        v.push((name, None, Invalid));
    }
    type SetTime = fn(&mut Build, DateTime<Utc>);
    for (name, set) in [("start_time", (|b, t| b.start_time = t) as SetTime), ("end_time", |b, t| b.end_time = t)] {
        for t in ["1970-01-01T00:00:00", "2000-02-29T23:59:59", "2038-01-19T03:14:08", "9999-12-31T23:59:59", "0001-01-01T00:00:00", "2022-12-31T00:00:01", "2023-01-01T12:00:00"] {
            v.push((name, Some(json!(t)), ok(move |b| set(b, time(t)))));
        }
        for bad in [json!(null), json!(0), json!(1665665840), json!(""), json!("yesterday"), json!("2021-13-13T12:57:20"), json!("2021-02-29T00:00:00"), json!("2021-10-13T25:57:20"), json!("2021-10-13"), json!([]), json!({})] {
            v.push((name, Some(bad), Invalid));
        }
        for e in [json!("2021-10-13T12:57:20.5"), json!("2021-10-13T23:59:60")] {
            v.push((name, Some(e), Either));
        }
        for (e, is) in [
            ("2021-10-13T12:57:20Z", "2021-10-13T12:57:20"),
            ("2021-10-13 12:57:20", "2021-10-13T12:57:20"),
            (" 2021-10-13T12:57:20", "2021-10-13T12:57:20"),
            ("2021-10-13T12:57:20+00:00", "2021-10-13T12:57:20"),
            ("2021-10-13T12:57:20+05:00", "2021-10-13T07:57:20"),
            ("2021-10-13T12:57:20-0830", "2021-10-13T21:27:20"),
            ("2021-10-13T12:57:20.000", "2021-10-13T12:57:20"),
            ("21-10-13T12:57:20", "0021-10-13T12:57:20"),
            ("2021-1-3T2:7:20", "2021-01-03T02:07:20"),
        ] {
            v.push((name, Some(json!(e)), Maybe(std::rc::Rc::new(move |b| set(b, time(is))))));
        }
        for bad in ["2021-10-13T12:57:20 and more", "2021-10-13T12:57:20x", "2021-10-13T12:57:200", "2021-10-13T12:57", "x2021-10-13T12:57:20", "2021-10-13T12:57:20\u{e9}", "2021-10-13T12:57:20/2021-10-14T12:57:20", "20211-10-13T12:57:20"] {
            v.push((name, Some(json!(bad)), Invalid));
        }
        v.push((name, None, Invalid));
    }
    let mut durations: Vec<u32> = vec![0, 1, 2, 59, 60, 3600, 65535, 65536, 100_000, 999_999, u32::MAX, u32::MAX - 1];
    for p in 20..32 {
        durations.extend([(1u32 << p) - 1, 1 << p, (1 << p) + 1]);
    }
    for d in durations {
        v.push(("duration", Some(json!(d)), ok(move |b| b.duration = d)));
        v.push(("duration", Some(json!(d as f64)), ok(move |b| b.duration = d)));
    }
    for (x, d) in [(0.25, 0u32), (82.25, 82), (1e3, 1000), (0.001, 0), (16777216.25, 16777216)] {
        v.push(("duration", Some(json!(x)), ok(move |b| b.duration = d)));
    }
    for bad in [json!(null), json!("82"), json!(true), json!([]), json!({})] {
        v.push(("duration", Some(bad), Invalid));
    }
    for e in [json!(-1), json!(-0.5), json!(1e30), json!(4294967296u64), json!(82.5), json!(82.99)] {
        v.push(("duration", Some(e), Either));
    }
    v.push(("duration", None, Invalid));
    for t in [true, false] {
        v.push(("voting", Some(json!(t)), ok(move |b| b.voting = t)));
    }
    for bad in [json!(null), json!("true"), json!(1), json!(0), json!([])] {
        v.push(("voting", Some(bad), Invalid));
    }
    v.push(("voting", None, Invalid));
    type SetUrl = fn(&mut Build, Option<Url>);
    for (name, set) in [("log_url", (|b, u| b.log_url = u) as SetUrl), ("ref_url", |b, u| b.ref_url = u)] {
        for u in ["https://localhost/42", "http://h:81/a/b/?x=y#z", "http://[::1]/\u{e9}", "https://a.very/long/" /* extended below */] {
            let u = if u.ends_with("long/") { format!("{u}{}", "p/".repeat(500)) } else { u.to_string() };
            let p = Url::parse(&u).unwrap();
            v.push((name, Some(json!(u)), ok(move |b| set(b, Some(p.clone())))));
        }
        v.push((name, Some(json!(null)), ok(move |b| set(b, None))));
        v.push((name, None, ok(move |b| set(b, None))));
        for bad in [json!(1), json!(true), json!([]), json!({})] {
            v.push((name, Some(bad), Invalid));
        }
        for e in [json!(""), json!("not a url"), json!("/relative/path"), json!("http://"), json!("mailto:x@y")] {
            v.push((name, Some(e), Either));
        }
    }
    for c in [0u64, 1, 22894, u32::MAX as u64, u32::MAX as u64 + 1, 1 << 53, (1 << 53) + 1, i64::MAX as u64, u64::MAX] {
        v.push(("change", Some(json!(c)), ok(move |b| b.change = Some(c))));
    }
    v.push(("change", Some(json!(null)), ok(|b| b.change = None)));
    v.push(("change", None, ok(|b| b.change = None)));
    for bad in [json!("1"), json!(-1), json!(1.5), json!(true), json!([]), json!({})] {
        v.push(("change", Some(bad), Invalid));
    }
    for p in ["", "1", "27", "e9f0c2aa17", "\u{e9}"] {
        v.push(("patchset", Some(json!(p)), ok(move |b| b.patchset = Some(p.to_string()))));
    }
    v.push(("patchset", Some(json!(null)), ok(|b| b.patchset = None)));
    v.push(("patchset", None, ok(|b| b.patchset = None)));
    for bad in [json!(1), json!(true), json!([]), json!({})] {
        v.push(("patchset", Some(bad), Invalid));
    }
    let art = |n: usize| -> Vec<Artifact> { (0..n).map(|k| Artifact { name: format!("a{k}"), url: Url::parse(&format!("https://localhost/artifact/{k}")).unwrap() }).collect() };
    for n in [1usize, 2, 3, 17, 300] {
        let l: Vec<Value> = (0..n).map(|k| json!({"name": format!("a{k}"), "url": format!("https://localhost/artifact/{k}"), "metadata": {"type": "x", "n": [k]}})).collect();
        let a = art(n);
        v.push(("artifacts", Some(json!(l)), ok(move |b| b.artifacts = a.clone())));
    }
    // the same artifact more than once, or only its name or its url
    for l in [&[0usize, 0][..], &[0, 1, 0], &[1, 1, 1, 0], &[0, 2], &[0, 3], &[3, 2]] {
        let one = |k: &usize| Artifact { name: format!("a{}", k % 2), url: Url::parse(&format!("https://localhost/artifact/{}", [0, 1, 1, 0][*k])).unwrap() };
        let a: Vec<Artifact> = l.iter().map(one).collect();
        let j: Vec<Value> = a.iter().map(|x| json!({"name": &x.name, "url": x.url.as_str()})).collect();
        v.push(("artifacts", Some(json!(j)), ok(move |b| b.artifacts = a.clone())));
    }
    for bad in [
        json!(null), json!("x"), json!({}), json!([null]), json!([1]), json!([{}]), json!([{"name": "x"}]), json!([{"url": "https://x/"}]), json!([{"name": null, "url": "https://x/"}]),
        json!([{"name": "x", "url": "nope"}]), json!([{"name": "x", "url": "https://x/"}, {"name": "y"}]),
    ] {
        v.push(("artifacts", Some(bad), Invalid));
    }
    v.push(("artifacts", None, Invalid));
    for (name, x) in [("unknown", json!(null)), ("final", json!(true)), ("nodeset", json!({"a": [1, {"b": []}]})), ("", json!("")), ("Uuid", json!(3)), ("change_ref", json!(3)), ("newrev", json!([]))] {
        v.push((name, Some(x), ok(|_| ())));
    }
    v
}

fn apply(m: &mut Map<String, Value>, b: &mut Build, d: &(&'static str, Option<Value>, Verdict)) -> Verdict {
    match &d.1 {
        Some(x) => {
            m.insert(d.0.to_string(), x.clone());
        }
        None => {
            m.remove(d.0);
        }
    }
    if let Valid(f) | Maybe(f) = &d.2 {
        f(b);
    }
    d.2.clone()
}

fn expect_list(text: &str, exp: &[Build], what: &str) -> Res {
    let got = decode_builds(text.as_bytes()).map_err(|e| Fail::new("list", format!("{what}: {e}")))?;
    ensure!(got == exp, "list", "{what}: {} builds, expected {}; {:?}", got.len(), exp.len(), got.iter().zip(exp).find(|(a, b)| a != b));
    Ok(())
}

fn c24_fields(tier: Tier) -> Space {
    let dev = deviations();
    let n = dev.len() as u64;
    let show = |d: &(&'static str, Option<Value>, Verdict)| json!({"field": d.0, "value": d.1.as_ref().map(|v| if v.to_string().len() > 200 { json!("(long)") } else { v.clone() }), "missing": d.1.is_none()});
    let dev2 = dev.clone();
    let total = if tier == Tier::Quick { n * (n + 1) / 2 } else { n * n };
    let dec = move |i: u64| -> (usize, usize) {
        if tier == Tier::Quick {
            // pairs a <= b
            let mut b = (((8.0 * i as f64 + 1.0).sqrt() - 1.0) / 2.0) as u64;
            while b * (b + 1) / 2 > i {
                b -= 1;
            }
            while (b + 1) * (b + 2) / 2 <= i {
                b += 1;
            }
            ((i - b * (b + 1) / 2) as usize, b as usize)
        } else {
            ((i / n) as usize, (i % n) as usize)
        }
    };
    Space::new(
        "fields",
        format!("every pair of {n} deviations of the 17 fields (values, wrong types, null, missing, extra), alone and between two other builds"),
        total,
        move |i| {
            let (a, b) = dec(i);
            json!([show(&dev2[a]), show(&dev2[b])])
        },
        move |i, ctx| {
            let (a, b) = dec(i);
            let (mut m, mut build) = good(7);
            let mut verdict = vec![apply(&mut m, &mut build, &dev[a])];
            if dev[a].0 != dev[b].0 {
                verdict.push(apply(&mut m, &mut build, &dev[b]));
            } else if a != b {
                return Ok(());
            }
            let text = Value::Object(m.clone()).to_string();
            let alone = decode_build(text.as_bytes());
            let invalid = verdict.iter().any(|v| matches!(v, Invalid));
            let either = verdict.iter().any(|v| matches!(v, Either));
            let maybe = verdict.iter().any(|v| matches!(v, Maybe(_)));
            ctx.evals(2);
            ctx.step(2);
            ctx.state(i);
            ctx.nontrivial(i);
            ctx.outcome((alone.is_ok(), invalid, either));
            if invalid {
                ensure!(alone.is_err(), "invalid", "an invalid build is accepted: {}", &text[..text.len().min(600)]);
            } else if !either {
                match &alone {
                    Ok(x) => ensure!(*x == build, "field", "decoded {x:?}, expected {build:?}"),
                    Err(_) if maybe => {}
                    Err(e) => return Err(Fail::new("refused", format!("{e}: {}", &text[..text.len().min(600)]))),
                }
            }
            let (g1, b1) = good(1);
            let (g2, b2) = good(2);
            let mut exp = vec![b1];
            if let Ok(x) = alone {
                // what is encoded decodes to the same
                let enc = serde_json::to_string(&x).map_err(|e| Fail::new("encode", e.to_string()))?;
                let back = decode_build(enc.as_bytes()).map_err(|e| Fail::new("encode", format!("{enc} does not decode: {e}")))?;
                ensure!(back == x, "encode", "{x:?} comes back as {back:?}");
                exp.push(x);
            }
            exp.push(b2);
            expect_list(&json!([g1, m, g2]).to_string(), &exp, "between two builds")
        },
    )
}

const KINDS: usize = 16;
fn entry(kind: usize, pos: usize) -> (Value, Option<Build>) {
    let (mut m, mut b) = good(pos * 20 + kind);
    let mut drop = |f: &str| {
        m.remove(f);
    };
    match kind {
        0 => {}
        1 => {
            drop("change");
            b.change = None;
        }
        2 => {
            drop("log_url");
            b.log_url = None;
        }
        3 => {
            m.insert("ref_url".into(), json!(null));
            b.ref_url = None;
        }
        4 => {
            m.insert("extra".into(), json!({"nested": [1, 2, {"x": null}]}));
        }
        5 => {
            m.insert("duration".into(), json!(16777217.0));
            b.duration = 16777217;
        }
        6 => return (Value::Object(good(3).0), Some(good(3).1)), // the same one again
        7 => {
            drop("uuid");
            return (Value::Object(m), None);
        }
        8 => {
            m.insert("uuid".into(), json!(null));
            return (Value::Object(m), None);
        }
        9 => {
            m.insert("end_time".into(), json!(null));
            return (Value::Object(m), None);
        }
        10 => return (json!(null), None),
        11 => return (json!("build"), None),
        12 => return (json!([Value::Object(m)]), None),
        13 => return (json!({}), None),
        14 => {
            m.insert("duration".into(), json!(null));
            return (Value::Object(m), None);
        }
        _ => {
            m.insert("artifacts".into(), json!([{"name": "x"}]));
            return (Value::Object(m), None);
        }
    }
    (Value::Object(m), Some(b))
}

fn c24_lists(tier: Tier) -> Space {
    let max = tier.pick(3, 4);
    let k = KINDS as u64;
    Space::new(
        "lists",
        format!("every list of 0..={max} entries of {k} kinds (7 valid, 9 not)"),
        seq_count(k, 0, max),
        move |i| json!({"kinds": seq_decode(i, k, 0, max)}),
        move |i, ctx| {
            let seq = seq_decode(i, k, 0, max);
            let es: Vec<_> = seq.iter().enumerate().map(|(p, &x)| entry(x, p)).collect();
            let exp: Vec<Build> = es.iter().filter_map(|e| e.1.clone()).collect();
            let text = Value::Array(es.iter().map(|e| e.0.clone()).collect()).to_string();
            ctx.evals(2);
            ctx.step(seq.len() as u64);
            ctx.state(i);
            ctx.nontrivial(i);
            ctx.outcome(exp.len());
            expect_list(&text, &exp, "list")?;
            expect_list(&format!(" \n{}\r\n\t ", serde_json::to_string_pretty(&es.iter().map(|e| &e.0).collect::<Vec<_>>()).unwrap()), &exp, "pretty list")
        },
    )
}

fn c24_long() -> Space {
    const LENS: [usize; 17] = [9, 10, 11, 49, 50, 51, 99, 100, 101, 255, 256, 257, 499, 500, 501, 1000, 1500];
    Space::new(
        "long lists",
        "lists of 9..1500 entries, all valid, alternating, or with one bad one at the start, middle or end",
        17 * 5,
        |i| json!({"entries": LENS[(i / 5) as usize], "shape": i % 5}),
        |i, ctx| {
            let n = LENS[(i / 5) as usize];
            let es: Vec<_> = (0..n)
                .map(|k| {
                    let bad = match i % 5 {
                        0 => false,
                        1 => k % 2 == 1,
                        2 => k == 0,
                        3 => k == n / 2,
                        _ => k == n - 1,
                    };
                    entry(if bad { 7 + k % 9 } else { k % 6 }, k)
                })
                .collect();
            let exp: Vec<Build> = es.iter().filter_map(|e| e.1.clone()).collect();
            ctx.eval();
            ctx.step(n as u64);
            ctx.state(i);
            ctx.nontrivial(i);
            expect_list(&Value::Array(es.iter().map(|e| e.0.clone()).collect()).to_string(), &exp, "long list")
        },
    )
}

/// Delivers a document in parts of `part` bytes and fails where told.
struct Part<'a> {
    data: &'a [u8],
    part: usize,
    fail: bool,
}
impl Read for Part<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.data.is_empty() && self.fail {
            return Err(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "reset"));
        }
        let n = self.data.len().min(buf.len()).min(self.part);
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

fn documents() -> Vec<(String, bool)> {
    let (m, _) = good(1);
    vec![
        (Value::Object(m.clone()).to_string(), false),
        (json!([]).to_string(), true),
        (json!([m]).to_string(), true),
        (json!([m, null, good(2).0]).to_string(), true),
        (serde_json::to_string_pretty(&json!([entry(4, 0).0, entry(7, 1).0])).unwrap(), true),
    ]
}

fn c24_truncated() -> Space {
    let docs = documents();
    let n = docs.len() as u64;
    let d2 = docs.clone();
    Space::new(
        "truncated",
        "every prefix of 5 documents, ended or failing there, read in parts of 1, 7 or any bytes; the whole; the whole followed by each of 6 texts",
        n,
        move |i| json!({"document": d2[i as usize].0}),
        move |i, ctx| {
            let (text, list) = &docs[i as usize];
            let b = text.as_bytes();
            for cut in 0..=b.len() {
                for part in [1, 7, usize::MAX] {
                    for fail in [false, true] {
                        let r = Part { data: &b[..cut], part, fail };
                        let ok = if *list { decode_builds(r).is_ok() } else { decode_build(r).is_ok() };
                        ctx.eval();
                        ctx.step(1);
                        ctx.state((i, cut, fail));
                        ensure_eq!(ok, cut == b.len() && !fail, "cut", "document cut at {cut} of {} failing: {fail}", b.len());
                    }
                }
            }
            for tail in ["x", "]", "}", "[]", ",", " {}"] {
                let t = format!("{text}{tail}");
                let ok = if *list { decode_builds(t.as_bytes()).is_ok() } else { decode_build(t.as_bytes()).is_ok() };
                ensure!(!ok, "tail", "a document followed by {tail:?} is accepted");
            }
            ctx.nontrivial(i);
            Ok(())
        },
    )
}

fn c24_shapes() -> Space {
    let shapes: Vec<String> = vec![
        "".into(), " ".into(), "null".into(), "true".into(), "1".into(), "\"x\"".into(), "{}".into(), "<html></html>".into(), "{\"builds\": []}".into(), "oops".into(), "[".into(), "]".into(), "[,]".into(),
        "[{},]".into(), "[1 2]".into(), "{\"error\": \"not found\"}".into(), "\u{feff}[]".into(), "[\"unterminated]".into(), "[nul]".into(), Value::Object(good(1).0).to_string(), "\u{0}".into(), "[]]".into(), "[[]".into(),
    ];
    let n = shapes.len() as u64;
    let s2 = shapes.clone();
    Space::new(
        "malformed",
        "23 documents that are no list of builds",
        n,
        move |i| json!({"document": s2[i as usize]}),
        move |i, ctx| {
            let t = &shapes[i as usize];
            ctx.evals(2);
            ctx.step(1);
            ctx.state(i);
            ctx.nontrivial(i);
            ensure!(decode_builds(t.as_bytes()).is_err(), "malformed", "{t:?} is accepted as a list");
            if i != 19 {
                ensure!(decode_build(t.as_bytes()).is_err(), "malformed", "{t:?} is accepted as a build");
            }
            Ok(())
        },
    )
}

/// Invalid UTF-8 and every byte value inside a string.
fn c24_bytes() -> Space {
    Space::new(
        "bytes",
        "every byte value (with or without a following byte of 4) inside a string field",
        256 * 5,
        |i| json!({"byte": i / 5, "next": i % 5}),
        |i, ctx| {
            let (mut m, mut b) = good(1);
            m.insert("job_name".into(), json!("@@"));
            let text = Value::Object(m).to_string();
            let at = text.find("@@").unwrap();
            let mut body = vec![(i / 5) as u8];
            if i % 5 > 0 {
                body.push([b'n', b'"', 0x80, b'u'][(i % 5 - 1) as usize]);
            }
            let doc = [&text.as_bytes()[..at], &body, &text.as_bytes()[at + 2..]].concat();
            let got = decode_build(&doc[..]);
            ctx.eval();
            ctx.step(1);
            ctx.state(i);
            ctx.nontrivial(i);
            ctx.outcome(got.is_ok());
            let plain = body.iter().all(|c| *c >= 0x20 && *c < 0x7f && *c != b'"' && *c != b'\\');
            if plain || std::str::from_utf8(&body).is_ok_and(|s| s.chars().all(|c| c as u32 >= 0x80)) {
                b.job_name = String::from_utf8(body).unwrap();
                match got {
                    Ok(x) => ensure!(x == b, "byte", "{:?}", x.job_name),
                    Err(e) => return Err(Fail::new("byte", e.to_string())),
                }
            } else if std::str::from_utf8(&body).is_err() {
                ensure!(got.is_err(), "byte", "invalid UTF-8 is accepted as {:?}", got.map(|b| b.job_name));
            }
            Ok(())
        },
    )
}

fn main() {
    run_main(|p, tier| {
        Some(match p {
            "C24" => Check {
                level: "exploration",
                rule: "decoded builds equal those written by hand next to each record".into(),
                assumptions: vec!["values whose validity is a matter of taste are only required to be treated alike alone and in a list".into()],
                spaces: vec![c24_fields(tier), c24_lists(tier), c24_long(), c24_truncated(), c24_shapes(), c24_bytes()],
            },
            _ => return None,
        })
    });
}
