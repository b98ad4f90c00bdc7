use crate::html::{self, El, Ev, Kid};
use logreduce_model::{Anomaly, AnomalyContext, Content, IndexName, IndexReport, LogReport, Report, Source};
use std::collections::HashMap;
use std::path::PathBuf;
use std::time::{Duration, SystemTime};
use vengine::serde_json::{self, json};
use vengine::*;

const BASE: &str = "/top/dir/";

fn local(rel: &str) -> Source {
    Source::Local(BASE.len(), PathBuf::from(format!("{BASE}{rel}")))
}

fn anomaly(pos: usize, distance: f32, line: &str, before: Vec<String>, after: Vec<String>) -> AnomalyContext {
    AnomalyContext { before, anomaly: Anomaly { distance, pos, line: line.to_string() }, after }
}

fn log(source: Source, index: &str, anomalies: Vec<AnomalyContext>) -> LogReport {
    LogReport { test_time: Duration::from_millis(5), line_count: 100, byte_count: 1000, anomalies, source, index_name: IndexName(index.to_string()) }
}

fn report(target: Content, baselines: Vec<Content>, logs: Vec<LogReport>, indexes: Vec<(&str, Vec<Source>)>) -> Report {
    let n = logs.iter().map(|l| l.anomalies.len()).sum();
    Report {
        created_at: SystemTime::UNIX_EPOCH + Duration::from_secs(1_670_000_000),
        run_time: Duration::from_millis(1234),
        target,
        baselines,
        total_line_count: 100 * logs.len() + 7,
        total_anomaly_count: n,
        log_reports: logs,
        index_reports: indexes.into_iter().map(|(n, s)| (IndexName(n.to_string()), IndexReport { train_time: Duration::from_millis(9), sources: s })).collect::<HashMap<_, _>>(),
        index_errors: vec![],
        read_errors: vec![],
    }
}

fn render(r: &Report) -> Result<String, Fail> {
    guard("render", || logreduce_report::render(r))?.map_err(|e| Fail::new("error", format!("rendering fails: {e}")))
}

// ------------------------------------------------------------------ texts

const FIELDS: [&str; 15] = [
    "target file", "target directory", "build id", "baseline", "second baseline", "log name", "log directory", "index name", "baseline sample", "anomaly", "context before", "context after", "log url", "read error", "log without baseline",
];

/// Texts a url can hold, as the url holds them.
fn as_url(t: &str) -> Option<url::Url> {
    url::Url::parse(&format!("http://host/{t}")).ok()
}

/// A report where the field holds the text (every field, when None).
fn with(field: Option<usize>, t: &dyn Fn(usize) -> String) -> Option<(Report, Vec<String>)> {
    let set = |k: usize| if field.map_or(true, |f| f == k) { t(k) } else { format!("plain{k}text") };
    let url = as_url(&set(12))?;
    let url_text = url.as_str().strip_prefix("http://host/")?.to_string();
    let target = match field {
        Some(1) => Content::Directory(local(&set(1))),
        Some(2) => serde_json::from_value(json!({"Zuul": {
            "api": "http://host/api/", "uuid": set(2), "job_name": set(2), "project": set(2), "branch": set(2), "result": set(2), "pipeline": set(2),
            "log_url": "http://host/l/", "ref_url": "http://host/r", "end_time": "2022-10-13T12:58:42Z", "change": 3}}))
        .expect("a build"),
        _ => Content::File(local(&set(0))),
    };
    let a1 = anomaly(5, 0.5, &set(9), vec![set(10), "plain before".into()], vec!["plain after".into(), set(11)]);
    let a2 = anomaly(50, 1.0, &format!("x{}y", set(9)), vec![], vec![set(11)]);
    let mut r = report(
        target,
        vec![Content::Directory(local(&set(3))), Content::File(local(&set(4)))],
        vec![
            log(local(&set(5)), &set(7), vec![a1.clone(), a2]),
            log(Source::Local(1 + set(6).len() + 1, PathBuf::from(format!("/{}/rel.log", set(6)))), "other", vec![a1.clone()]),
            log(Source::Remote(12, url), "third", vec![]),
        ],
        vec![(&set(7), vec![local(&set(8)), local("plain.sample")]), ("third", vec![local("z")])],
    );
    r.read_errors = vec![(local("r"), set(13))];
    r.index_errors = vec![vec![local(&set(14))]];
    let mut used: Vec<String> = (0..FIELDS.len()).map(set).collect();
    used[12] = url_text;
    Some((r, used))
}

fn token(k: usize) -> String {
    format!("zq{k}token{k}qz")
}

fn check_text(field: Option<usize>, text: &str, ctx: &mut Ctx) -> Res {
    let Some((r, used)) = with(field, &|_| text.to_string()) else { return Ok(()) };
    let (neutral, tokens) = with(field, &token).expect("a report");
    let plain = html::parse(&render(&neutral)?);
    html::tree(&plain).map_err(|e| Fail::new("nesting", format!("neutral texts: {e}")))?;
    let page = render(&r)?;
    ctx.eval();
    let got = html::parse(&page);
    let put = |s: &str| {
        let mut s = s.to_string();
        for (k, t) in tokens.iter().enumerate() {
            if t != &used[k] && s.contains(t.as_str()) {
                s = s.replace(t.as_str(), &used[k]);
            }
        }
        s
    };
    let want: Vec<Ev> = plain
        .iter()
        .map(|e| match e {
            Ev::Open(t, a) => Ev::Open(t.clone(), a.iter().map(|(n, v)| (n.clone(), put(v))).collect()),
            Ev::Text(t) => Ev::Text(put(t)),
            e => e.clone(),
        })
        .collect();
    if got != want {
        let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        let show = |e: Option<&Ev>| format!("{e:?}").chars().take(300).collect::<String>();
        return Err(Fail::new("altered", format!("the text {text:?} in {:?}: {} instead of {}", field.map(|f| FIELDS[f]), show(got.get(k)), show(want.get(k)))));
    }
    ctx.nontrivial(h((field, text)));
    Ok(())
}

const ALPHABET: [char; 16] = ['<', '>', '&', '"', '\'', '/', '=', ' ', 'a', ';', '#', '!', '-', '\n', '\\', 'é'];
const TRICKY: [&str; 44] = [
    "<", "</pre>", "</pre><script>alert(1)</script>", "<script>", "</script>", "</title><script>", "</style>", "<!-- x", "-->", "<!DOCTYPE html>", "<?xml?>", "]]>", "<![CDATA[", "&lt;", "&amp;", "&amp;lt;", "&lt", "&#60;", "&#x3c;", "&#60", "&#0;", "&copy", "&nbsp;", "&apos;", "&quot;", "\" onclick=\"x", "' onclick='x", "\"><b>", "'><b>", "a\tb", "\u{0}", "\u{1}\u{7f}", "\u{a0}", "\u{2028}", "\u{feff}x", "<é>", "{}", "{0}", "%s %d", "$1", "${x}", "\\", "<a href=x>y</a>", "<img src=x onerror=y/>",
];

fn texts(tier: Tier) -> Vec<Space> {
    let nf = FIELDS.len() as u64 + 1;
    let field = move |k: u64| if k == nf - 1 { None } else { Some(k as usize) };
    let max = tier.pick(3, 4);
    let n = seq_count(ALPHABET.len() as u64, 0, max);
    let make = move |i: u64| seq_decode(i % n, ALPHABET.len() as u64, 0, max).into_iter().map(|k| ALPHABET[k]).collect::<String>();
    let short = Space::new(
        "short texts",
        format!("every text of up to {max} of 16 characters in each of {} fields, and in all", FIELDS.len()),
        n * nf,
        move |i| json!({"field": field(i / n).map(|f| FIELDS[f]), "text": make(i)}),
        move |i, ctx| {
            let f = field(i / n);
            let t = make(i);
            // a log line has no newline and no file has an empty name
            if (t.contains('\n') && matches!(f, Some(9..=11))) || (t.is_empty() && !matches!(f, Some(9..=11) | Some(13))) {
                return Ok(());
            }
            ctx.state(i);
            check_text(f, &t, ctx)
        },
    );
    let chars: Vec<String> = (0u32..tier.pick(0x800, 0x10000)).chain([0x10000, 0x1f600, 0x10ffff]).filter_map(char::from_u32).filter(|c| *c != '\n').map(String::from).chain(TRICKY.iter().map(|s| s.to_string())).collect();
    let nc = chars.len() as u64;
    let c2 = chars.clone();
    // the text alone, inside words, twice, far into a long line
    let form = |t: &str, k: u64| match k {
        0 => t.to_string(),
        1 => format!("word{t}word"),
        2 => format!("{t}{t}"),
        _ => format!("{}{t}{}", "long text ".repeat(800), "é".repeat(900)),
    };
    const FORMS: u64 = 4;
    let single = Space::new(
        "characters",
        format!("{nc} characters and markup fragments x {FORMS} places in a text, in each of {} fields, and in all", FIELDS.len()),
        nc * FORMS * nf,
        move |i| json!({"field": field(i / nc / FORMS).map(|f| FIELDS[f]), "text": c2[(i % nc) as usize], "form": i / nc % FORMS}),
        move |i, ctx| {
            let k = i / nc % FORMS;
            let t = &chars[(i % nc) as usize];
            if tier.pick(true, false) && k == 3 && t.chars().count() == 1 && t.as_str() > "\u{ff}" {
                return Ok(());
            }
            ctx.state(i);
            check_text(field(i / nc / FORMS), &form(t, k), ctx)
        },
    );
    vec![short, single]
}

// ------------------------------------------------------------------ shapes

fn squeeze(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

/// The lines the page shows for a log, as (score, number, text), None for a mark of left out lines.
fn lines_of(e: &El) -> Result<Vec<Option<(Option<u64>, u64, String)>>, Fail> {
    let mut v = vec![];
    for k in &e.kids {
        let Kid::El(k) = k else { continue };
        match k.tag.as_str() {
            "hr" => v.push(None),
            "pre" => {
                let t = k.text();
                let (num, text) = t.split_once(" | ").ok_or_else(|| Fail::new("line", format!("{t:?}")))?;
                let nums: Vec<u64> = num.split_whitespace().map(|n| n.parse().map_err(|_| Fail::new("line", format!("{t:?}")))).collect::<Result<_, _>>()?;
                let (score, n) = match nums.as_slice() {
                    [n] => (None, *n),
                    [s, n] => (Some(*s), *n),
                    _ => return Err(Fail::new("line", format!("{t:?}"))),
                };
                v.push(Some((score, n, text.trim_end().to_string())));
            }
            _ => return Err(Fail::new("line", format!("<{}> among the lines", k.tag))),
        }
    }
    Ok(v)
}

fn check_shape(r: &Report, ctx: &mut Ctx) -> Res {
    let page = render(r)?;
    ctx.eval();
    let tree = html::tree(&html::parse(&page)).map_err(|e| Fail::new("nesting", e))?;
    // target and baselines
    let cells = tree.find(|e| e.tag == "td").iter().map(|e| squeeze(&e.text())).collect::<Vec<_>>();
    for c in std::iter::once(&r.target).chain(&r.baselines) {
        let c = squeeze(&c.to_string());
        ensure!(cells.iter().any(|x| x.contains(&c)), "content", "{c} is not in {cells:?}");
    }
    let items = tree.find(|e| e.tag == "div" && e.has_class("list-group-item"));
    ensure!(items.len() == r.log_reports.len(), "logs", "{} logs instead of {}", items.len(), r.log_reports.len());
    for (e, l) in items.iter().zip(&r.log_reports) {
        let name = l.source.get_relative();
        let head = e.find(|e| e.has_class("list-group-item-heading"));
        ensure!(head.len() == 1 && head[0].text().trim() == name, "name", "{:?} instead of {name}", head.iter().map(|e| e.text()).collect::<Vec<_>>());
        let count = e.find(|e| e.tag == "strong");
        ensure!(count.len() == 1 && count[0].text().trim() == l.anomalies.len().to_string(), "count", "{:?} anomalies instead of {}", count.iter().map(|e| e.text()).collect::<Vec<_>>(), l.anomalies.len());
        ensure!(e.find(|e| e.tag == "a" && e.attr("href") == l.source.as_str()).len() == 1, "link", "no link to {}", l.source.as_str());
        let lines = e.find(|e| e.has_class("loglines"));
        ensure!(lines.len() == 1, "lines", "{} lists of lines", lines.len());
        let mut got = lines_of(lines[0])?.into_iter().peekable();
        let mut last: Option<usize> = None;
        for (k, a) in l.anomalies.iter().enumerate() {
            let (pos, n) = (a.anomaly.pos, a.before.len());
            // The first number of the context, if the lines of the context fit before the anomaly
            let start = pos.checked_sub(n);
            if let Some(last) = last {
                let marked = got.next_if(|x| x.is_none()).is_some();
                if let Some(start) = start.filter(|s| *s > 0) {
                    ensure!(marked == (last + 1 != start), "mark", "anomaly {k} of {name}: mark {marked} between the lines {last} and {start}");
                }
            }
            let before = a.before.iter().enumerate().map(|(j, t)| (start.filter(|s| *s > 0).map(|s| s + j), None, t));
            let after = a.after.iter().enumerate().map(|(j, t)| (Some(pos + 1 + j), None, t));
            for (num, dist, text) in before.chain([(Some(pos), Some(a.anomaly.distance), &a.anomaly.line)]).chain(after) {
                let Some(Some((score, n, t))) = got.next() else { return Err(Fail::new("missing", format!("no line for {text:?} of the anomaly {k} of {name}"))) };
                ensure!(&t == text, "text", "{t:?} instead of {text:?}, anomaly {k} of {name}");
                ensure!(num.map_or(true, |x| x as u64 == n), "number", "{n} instead of {num:?} for {text:?}");
                ensure!(score.is_some() == dist.is_some(), "score", "score {score:?} of {text:?}");
                if let (Some(s), Some(d)) = (score, dist) {
                    let x = d * 99.0;
                    ensure!((s as f32) > x - 1.0 && (s as f32) < x + 1.0, "score", "score {s} of {text:?} with distance {d}");
                }
            }
            last = Some(pos + a.after.len());
        }
        ensure!(got.next().is_none(), "more", "more lines than those of the report for {name}");
    }
    Ok(())
}

fn words(p: &str, n: usize) -> Vec<String> {
    (0..n).map(|k| format!("{p} {k} line")).collect()
}

const POS: [usize; 18] = [1, 2, 3, 4, 5, 6, 9, 10, 99, 100, 999, 1000, 9999, 10000, 99999, 100000, u32::MAX as usize, 1 << 52];
const DIST: [f32; 9] = [0.0, 0.004, 0.05, 0.31, 0.5, 0.75, 0.99, 0.999, 1.0];

fn shapes(tier: Tier) -> Vec<Space> {
    let simple = |logs: Vec<LogReport>| report(Content::Directory(local("the-target/")), vec![Content::File(local("first-base")), Content::Directory(Source::Remote(0, url::Url::parse("http://host/b/").unwrap()))], logs, vec![("idx", vec![local("a"), local("b"), local("c"), local("d")])]);
    let mut v = vec![];
    v.push(Space::new(
        "one anomaly",
        "contexts of 0..=4 lines before and after x 18 line numbers x 9 distances",
        25 * 18 * 9,
        |i| json!({"before": i % 5, "after": i / 5 % 5, "pos": POS[(i / 25 % 18) as usize], "distance": DIST[(i / 450) as usize]}),
        move |i, ctx| {
            let mut d = Dec(i);
            let (b, a) = (d.take(5), d.take(5));
            let (pos, dist) = (*d.pick(&POS), *d.pick(&DIST));
            ctx.state(i);
            ctx.nontrivial(i);
            check_shape(&simple(vec![log(local("one.log"), "idx", vec![anomaly(pos, dist, "the anomaly", words("before", b), words("after", a))])]), ctx)
        },
    ));
    let gaps = tier.pick(9u64, 12);
    let total = 3 * 3 * 3 * 3 * 3 * 3 * gaps * gaps;
    v.push(Space::new(
        "three anomalies",
        format!("three anomalies with contexts of 0..=2 lines, at every distance of 0..{gaps} lines from each other"),
        total,
        move |i| json!({"i": i}),
        move |i, ctx| {
            let mut d = Dec(i);
            let mut pos = 10;
            let mut list = vec![];
            for k in 0..3 {
                let (b, a) = (d.take(3), d.take(3));
                if k > 0 {
                    pos += d.take(gaps);
                }
                list.push(anomaly(pos, 0.6, &format!("anomaly {k}"), words("before", b), words("after", a)));
            }
            ctx.state(i);
            ctx.nontrivial(i);
            check_shape(&simple(vec![log(local("one.log"), "idx", list)]), ctx)
        },
    ));
    v.push(Space::new(
        "two anomalies",
        "two anomalies with contexts of 0..=6 lines, at every distance of 1..=16 lines from each other",
        7 * 7 * 7 * 7 * 16,
        move |i| json!({"before": [i % 7, i / 49 % 7], "after": [i / 7 % 7, i / 343 % 7], "apart": i / 2401 + 1}),
        move |i, ctx| {
            let mut d = Dec(i);
            let (b1, a1, b2, a2) = (d.take(7), d.take(7), d.take(7), d.take(7));
            let pos = 20 + d.take(16) + 1;
            ctx.state(i);
            ctx.nontrivial(i);
            check_shape(&simple(vec![log(local("one.log"), "idx", vec![anomaly(20, 0.6, "first anomaly", words("before", b1), words("after", a1)), anomaly(pos, 0.7, "second anomaly", words("before", b2), words("after", a2))])]), ctx)
        },
    ));
    v.push(Space::new(
        "logs",
        "every list of up to three logs of 0, 1 or 2 anomalies, same or other names and groups, with or without index",
        seq_count(12, 0, 3) * 2,
        |i| json!({"logs": seq_decode(i / 2, 12, 0, 3), "i": i}),
        move |i, ctx| {
            let logs = seq_decode(i / 2, 12, 0, 3)
                .into_iter()
                .enumerate()
                .map(|(k, s)| {
                    let list = (0..s % 3).map(|j| anomaly(3 + 5 * j, 0.4, &format!("anomaly {j} of {k}"), words("before", j), words("after", k))).collect();
                    let name = if s / 3 % 2 == 0 { "same.log".to_string() } else { format!("dir{k}/other{k}.log") };
                    log(local(&name), if s / 6 == 0 { "idx" } else { "unknown" }, list)
                })
                .collect();
            let mut r = simple(logs);
            if i % 2 == 1 {
                r.index_reports.clear();
                r.baselines.clear();
                r.total_line_count = 0;
            }
            ctx.state(i);
            ctx.nontrivial(i);
            check_shape(&r, ctx)
        },
    ));
    // scales
    let ladder: Vec<usize> = (0..=tier.pick(40usize, 300)).chain([64, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2500, 4096, 5000]).collect();
    let n = ladder.len() as u64;
    let l2 = ladder.clone();
    const WHAT: [&str; 7] = ["logs", "anomalies of a log", "lines before", "lines after", "characters of a line", "baselines", "characters of a name"];
    v.push(Space::new(
        "scales",
        format!("{n} sizes up to 5000 of: {}", WHAT.join(", ")),
        n * 7,
        move |i| json!({"size": l2[(i / 7) as usize], "of": WHAT[(i % 7) as usize]}),
        move |i, ctx| {
            let s = ladder[(i / 7) as usize];
            let one = |k: usize| log(local(&format!("{k}.log")), "idx", vec![anomaly(3, 0.4, &format!("anomaly of {k}"), words("before", 2), words("after", 1))]);
            let r = match i % 7 {
                0 => simple((0..s).map(one).collect()),
                1 => simple(vec![one(0), log(local("many.log"), "idx", (0..s).map(|k| anomaly(2 + 3 * k, 0.4, &format!("anomaly {k}"), words("before", 1), words("after", k % 3))).collect())]),
                2 => simple(vec![log(local("x.log"), "idx", vec![anomaly(10000, 0.4, "anomaly", words("before", s), words("after", 1))])]),
                3 => simple(vec![log(local("x.log"), "idx", vec![anomaly(10000, 0.4, "anomaly", words("before", 1), words("after", s))])]),
                4 => {
                    let t = "é<t".chars().cycle().take(s).collect::<String>();
                    simple(vec![log(local("x.log"), "idx", vec![anomaly(10000, 0.4, &t, vec![t.clone()], vec![t.clone()])])])
                }
                5 => {
                    let mut r = simple(vec![one(0)]);
                    r.baselines = (0..s).map(|k| Content::File(local(&format!("base{k}")))).collect();
                    r
                }
                _ => {
                    let t = "né&t".chars().cycle().take(s).collect::<String>();
                    simple(vec![log(local(&format!("n{t}")), "idx", vec![]), one(1)])
                }
            };
            ctx.state(i);
            ctx.nontrivial(i);
            check_shape(&r, ctx)
        },
    ));
    v
}

pub fn spaces(tier: Tier) -> Vec<Space> {
    let mut v = shapes(tier);
    v.extend(texts(tier));
    v
}

