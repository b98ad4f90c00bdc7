use crate::cli::{run, run_env, run_tty, snapshot, Out};
use logreduce_model::{hashing_index, AnomalyContext, Content, IndexName, Input, Model, OutputMode, Report, Source};
use std::collections::{BTreeMap, HashSet};
use std::path::Path;
use std::rc::Rc;
use httpsrv::Reply;
use vengine::serde_json::{self, json, Value};
use vengine::*;

type Files = BTreeMap<String, Vec<u8>>;

fn word(i: usize) -> String {
    const L: &[u8] = b"gjkpqvwxyzhmrt";
    (0..4).map(|k| L[i / 14usize.pow(k) % 14] as char).collect::<String>() + "qu"
}

fn good(salt: usize) -> Vec<String> {
    vec![
        format!("2022-10-01 service worker {} finished processing every request batch", salt),
        "known quiet line seen again".into(),
        "node manager started unit nominal without trouble today".into(),
        format!("closing {} connections of the pool at the end", salt + 3),
        "waiting until another message arrives from somebody".into(),
        "nothing further happened during that period".into(),
    ]
}

const KINDS: usize = 12;
/// A log of that kind; what makes it special besides nominal lines.
pub fn text(kind: usize, salt: usize) -> Vec<u8> {
    let mut l: Vec<String> = good(salt);
    let novel = |k: usize| format!("{} {} {} broke", word(salt + k), word(salt + k + 1), word(salt + k + 2));
    match kind {
        0 => {}
        1 => l.insert(3, novel(0)),
        2 => {
            l.insert(0, novel(0));
            l.push(novel(3));
        }
        3 => l.clear(),
        // beyond the buffers and the batches
        4 => {
            for k in 0..1500 {
                l.insert(1, good(k)[k % 6].clone());
            }
            for (k, at) in [1500, 1200, 1199, 1024, 513, 512, 511].into_iter().enumerate() {
                l.insert(at, novel(3 * k));
            }
        }
        5 => l.insert(2, format!("é… {} \u{2028} {} | 12 | --", word(salt), word(salt + 1))),
        // neighbours
        6 => {
            for (k, x) in l.iter_mut().enumerate() {
                *x = [format!("  {x}"), format!("{x} \t"), format!("\t{x} \u{a0}")][k % 3].clone();
            }
            l.insert(2, novel(0));
            l.insert(3, novel(3));
            l.insert(5, novel(6));
        }
        // far away
        7 => {
            for _ in 0..40 {
                l.extend(good(salt));
            }
            l.insert(100, novel(0));
            l.insert(200, novel(3));
        }
        // texts that look like the output
        8 => {
            l.insert(1, format!("99 12 | {} {}", word(salt), word(salt + 1)));
            l.insert(4, format!("-> No baselines for {}", word(salt + 2)));
            l.insert(5, format!("{} {} {}", word(salt + 5), word(salt + 6), "plenty of text that nobody reads ".repeat(175)));
            l.insert(7, format!("Could not read {}: {}", word(salt + 3), word(salt + 4)));
        }
        // not readable to its end
        9 | 10 => l.insert(1, novel(0)),
        11 => l = vec![novel(0)],
        _ => unreachable!(),
    }
    // lines that end with a carriage return
    let mut b = l.join(if kind == 7 { "\r\n" } else { "\n" }).into_bytes();
    if salt % 2 == 0 && !b.is_empty() {
        b.push(b'\n');
    }
    match kind {
        9 => b.extend_from_slice(b"\nnot utf-8 \xff\xfe byte\nmore\n"),
        10 => b.truncate(b.len() / 2),
        _ => {}
    }
    b
}

fn gz(data: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::new(6));
    std::io::Write::write_all(&mut e, data).unwrap();
    e.finish().unwrap()
}

/// Writes the files; .gz ones are compressed, cut when the kind is 10.
fn put(dir: &Path, files: &Files, cut: bool) {
    std::fs::create_dir_all(dir).unwrap();
    for (n, b) in files {
        let p = dir.join(n);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        let mut b = if n.ends_with(".gz") { gz(b) } else { b.clone() };
        if cut && n.ends_with(".gz") {
            b.truncate(b.len() - 9);
        }
        std::fs::write(p, b).unwrap();
    }
}

// ------------------------------------------------------------------ reference

pub enum Exp {
    Log { source: Source, anomalies: Vec<AnomalyContext>, failed: bool, lines: usize },
    NoBaseline(Source),
}

pub fn content(s: &str) -> Result<Content, Fail> {
    Content::from_input(Input::from_string(s.to_string())).map_err(|e| Fail::new("input", format!("{s}: {e:#}")))
}

pub fn train(b: &[&str]) -> Result<Model, Fail> {
    let b = b.iter().map(|s| content(s)).collect::<Result<Vec<_>, _>>()?;
    Model::train(OutputMode::Quiet, b, hashing_index::new).map_err(|e| Fail::new("train", format!("{e:#}")))
}

pub fn inspect(m: &Model, target: &str) -> Result<Vec<Exp>, Fail> {
    let c = content(target)?;
    let mut v = vec![];
    for source in c.get_sources().map_err(|e| Fail::new("sources", format!("{e:#}")))? {
        match m.get_index(&IndexName::from_source(&source)) {
            None => v.push(Exp::NoBaseline(source)),
            // see preload/
            Some(_) if source.as_str().contains("zz-closed") => v.push(Exp::Log { source, anomalies: vec![], failed: true, lines: 0 }),
            Some(ix) => {
                let mut skip = HashSet::new();
                let (mut anomalies, mut failed, mut lines) = (vec![], false, 0);
                match ix.get_processor(OutputMode::Quiet, &source, &mut skip) {
                    Err(_) => failed = true,
                    Ok(mut p) => {
                        for a in p.by_ref() {
                            match a {
                                Ok(a) => anomalies.push(a),
                                Err(_) => {
                                    failed = true;
                                    break;
                                }
                            }
                        }
                        lines = p.line_count;
                    }
                }
                v.push(Exp::Log { source, anomalies, failed, lines });
            }
        }
    }
    Ok(v)
}

// ------------------------------------------------------------------ output

#[derive(Debug, Clone, PartialEq)]
enum Got {
    Line(Option<u64>, u64, String),
    Mark,
    NoBaseline(String),
    Unread(String),
    Other(String),
}

fn strip_ansi(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            it.next();
            for c in it.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

fn is_trace(l: &str) -> bool {
    let l = strip_ansi(l);
    let b = l.as_bytes();
    b.len() > 11 && b[4] == b'-' && b[7] == b'-' && b[10] == b'T' && b[..4].iter().all(u8::is_ascii_digit)
}

fn line_of(l: &str) -> Option<Got> {
    let (num, text) = l.split_once(" | ")?;
    let f: Vec<&str> = num.split(' ').filter(|x| !x.is_empty()).collect();
    let n: Vec<u64> = f.iter().map(|x| x.parse().ok()).collect::<Option<_>>()?;
    match n.as_slice() {
        [n] if l.starts_with(' ') => Some(Got::Line(None, *n, text.to_string())),
        [s, n] if !l.starts_with(' ') => Some(Got::Line(Some(*s), *n, text.to_string())),
        _ => None,
    }
}

fn parse(out: &str, tty: bool) -> Vec<Got> {
    let mut v = vec![];
    for l in out.split('\n') {
        let l = match (tty, l.starts_with('\r')) {
            (true, true) => strip_ansi(l.rsplit('\r').next().unwrap()),
            (true, false) => strip_ansi(l),
            _ => l.to_string(),
        };
        if l.is_empty() || is_trace(&l) {
            continue;
        }
        if let Some(g) = line_of(&l) {
            v.push(g);
            continue;
        }
        let l = if tty {
            // behind the progress
            match l.find(" -> No baselines for ").or_else(|| l.find("Could not read ")) {
                Some(p) => l[p..].to_string(),
                None if l.starts_with("[+]") => continue,
                None => l,
            }
        } else {
            l
        };
        v.push(if l == "--" {
            Got::Mark
        } else if let Some(s) = l.strip_prefix(" -> No baselines for ") {
            Got::NoBaseline(s.to_string())
        } else if let Some(s) = l.strip_prefix("Could not read ") {
            Got::Unread(s.to_string())
        } else {
            Got::Other(l)
        });
    }
    v
}

/// The output against what the library gives.
fn compare(got: Vec<Got>, want: &[Exp]) -> Res {
    let mut it = got.into_iter().peekable();
    for e in want {
        match e {
            Exp::NoBaseline(s) => {
                let g = it.next();
                ensure!(g == Some(Got::NoBaseline(s.to_string())), "no-baseline", "{g:?} instead of the missing baseline of {s}");
            }
            Exp::Log { source, anomalies, failed, .. } => {
                let mut last: Option<usize> = None;
                for a in anomalies {
                    let (pos, n) = (a.anomaly.pos, a.before.len());
                    let start = pos.checked_sub(n).filter(|s| *s > 0);
                    if let Some(last) = last {
                        let marked = it.next_if_eq(&Got::Mark).is_some();
                        if let Some(start) = start {
                            ensure!(marked == (last + 1 != start), "mark", "{source}: mark {marked} between the lines {last} and {start}");
                        }
                    }
                    let before = a.before.iter().enumerate().map(|(j, t)| (start.map(|s| s + j), None, t));
                    let after = a.after.iter().enumerate().map(|(j, t)| (Some(pos + 1 + j), None, t));
                    for (num, dist, text) in before.chain([(Some(pos), Some(a.anomaly.distance), &a.anomaly.line)]).chain(after) {
                        let g = it.next();
                        let Some(Got::Line(score, n, t)) = &g else { return Err(Fail::new("missing", format!("{source}: {g:?} instead of {num:?} {text:?}"))) };
                        ensure!(t == text, "text", "{source}: {t:?} instead of {text:?}");
                        ensure!(num.map_or(true, |x| x as u64 == *n), "number", "{source}: number {n} instead of {num:?} for {text:?}");
                        ensure!(score.is_some() == dist.is_some(), "score", "{source}: score {score:?} of {text:?}");
                        if let (Some(s), Some(d)) = (score, dist) {
                            ensure!((*s as f32 - d * 99.0).abs() < 1.0, "score", "{source}: score {s} of {text:?} with distance {d}");
                        }
                    }
                    last = Some(pos + a.after.len());
                }
                if *failed {
                    let g = it.next();
                    ensure!(matches!(&g, Some(Got::Unread(s)) if s.starts_with(&format!("{source}: "))), "read-error", "{g:?} instead of the read error of {source}");
                }
            }
        }
    }
    let rest: Vec<_> = it.collect();
    ensure!(rest.is_empty(), "more", "unexpected output {rest:?}");
    Ok(())
}

fn check_live(o: &Out, want: &[Exp], tty: bool) -> Res {
    ensure!(o.ok(), "status", "{}", o.show());
    compare(parse(&o.out, tty), want).map_err(|f| Fail::new(f.key, format!("{}; {}", f.msg, o.show())))?;
    if tty {
        let (mut n, mut k) = (0, 0);
        for e in want {
            if let Exp::Log { anomalies, lines, .. } = e {
                n += lines;
                k += anomalies.len();
            }
        }
        let end = format!("Reduced from {n} to {k}");
        ensure!(o.out.trim_end().ends_with(&end), "summary", "no {end:?} at the end: {}", o.show());
    }
    Ok(())
}

/// As a quiet run: what is traced goes elsewhere.
fn check_debug(o: &Out, want: &[Exp]) -> Res {
    check_live(o, want, false)
}

/// The lines of a page and the marks between them, in no order: the groups of logs come in any order.
fn page_lines(page: &str) -> Vec<String> {
    let mut v: Vec<String> = page.split("<pre").skip(1).map(|p| p.split("</pre>").next().unwrap().split_once('>').map_or("", |x| x.1).trim().to_string()).collect();
    v.extend(page.matches("<hr").map(|m| m.to_string()));
    v.sort();
    v
}

/// A report without its times, the logs by name.
fn facts(r: &Report) -> Value {
    let mut logs: Vec<String> = r.log_reports.iter().map(|l| format!("{:?} {:?} {:?} {} {}", l.source, l.index_name, l.anomalies, l.line_count, l.byte_count)).collect();
    logs.sort();
    let mut unread: Vec<String> = r.read_errors.iter().map(|e| format!("{e:?}")).collect();
    unread.sort();
    let mut none: Vec<String> = r.index_errors.iter().map(|e| format!("{e:?}")).collect();
    none.sort();
    let mut indexes: Vec<String> = r.index_reports.iter().map(|(n, i)| format!("{n:?} {:?}", i.sources)).collect();
    indexes.sort();
    json!({"target": format!("{:?}", r.target), "baselines": format!("{:?}", r.baselines), "logs": logs, "unread": unread, "without baseline": none, "indexes": indexes, "lines": r.total_line_count, "anomalies": r.total_anomaly_count})
}

/// The page of the report against the library's report.
fn check_report(o: &Out, file: &Path, m: &Model, target: &str) -> Res {
    ensure!(o.ok(), "status", "{}", o.show());
    let page = std::fs::read_to_string(file).map_err(|e| Fail::new("report", format!("no report: {e}")))?;
    let r = m.report(OutputMode::Quiet, content(target)?).map_err(|e| Fail::new("report", format!("{e:#}")))?;
    let ours = logreduce_report::render(&r).map_err(|e| Fail::new("report", format!("rendering fails: {e}")))?;
    let (got, want) = (page_lines(&page), page_lines(&ours));
    ensure!(got == want, "report", "the lines of the report are {got:?} instead of {want:?}");
    let n: usize = r.log_reports.iter().flat_map(|l| &l.anomalies).map(|a| a.before.len() + 1 + a.after.len()).sum();
    ensure!(page.matches("<pre").count() == n && page.trim_end().ends_with("</html>"), "report", "{} lines in the report instead of {n}", page.matches("<pre").count());
    Ok(())
}

/// The report saved beside the page.
fn check_saved(file: &Path, m: &Model, target: &str) -> Res {
    let r = m.report(OutputMode::Quiet, content(target)?).map_err(|e| Fail::new("report", format!("{e:#}")))?;
    let saved = Report::load(file).map_err(|e| Fail::new("saved-report", format!("{file:?} does not load: {e:#}")))?;
    ensure_eq!(facts(&saved), facts(&r), "saved-report", "the saved report");
    Ok(())
}

// ------------------------------------------------------------------ outputs

const NAMES: [&str; 6] = ["job.log", "sub/audit.log.gz", "sub/out.json", "deep/er/x.txt", "job.log.1", "unknown/name.log"];

/// Directories of up to two (three) logs of every kind.
fn outputs(tier: Tier) -> Space {
    let max = tier.pick(2u32, 3);
    let subsets: Vec<Vec<usize>> = (1u32..1 << NAMES.len()).filter(|m| (1..=max).contains(&m.count_ones())).map(|m| (0..NAMES.len()).filter(|k| m >> k & 1 == 1).collect()).collect();
    // every kind for every log
    let mut cases: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    for s in &subsets {
        let n = KINDS.pow(s.len() as u32);
        for i in 0..n {
            let kinds: Vec<usize> = (0..s.len()).map(|k| i / KINDS.pow(k as u32) % KINDS).collect();
            if s.len() == 3 && kinds.iter().any(|k| [4, 7, 8, 11].contains(k)) {
                continue;
            }
            cases.push((s.clone(), kinds));
        }
    }
    let n = cases.len() as u64;
    let c2 = cases.clone();
    Space::new(
        "outputs",
        format!("every target directory of up to {max} among 6 names x {KINDS} kinds of logs each: diff, and on a terminal"),
        n,
        move |i| json!({"logs": c2[i as usize].0.iter().map(|k| NAMES[*k]).collect::<Vec<_>>(), "kinds": c2[i as usize].1}),
        move |i, ctx| {
            let (names, kinds) = &cases[i as usize];
            let d = ctx.clean_scratch();
            let root = d.join("w");
            // baselines for the other names too, so that there are several groups
            let base: Files = NAMES[..5].iter().filter(|n| !n.contains("audit") || i % 3 > 0).map(|n| (n.to_string(), text(0, 1))).collect();
            put(&root.join("base"), &base, false);
            for (k, (n, kind)) in names.iter().zip(kinds).enumerate() {
                put(&root.join("target"), &[(NAMES[*n].to_string(), text(*kind, 100 * (k + 1)))].into(), *kind == 10);
            }
            let (b, t) = (root.join("base").display().to_string(), root.join("target").display().to_string());
            let m = train(&[&b])?;
            let want = inspect(&m, &t)?;
            let before = snapshot(&root);
            ctx.state(i);
            let tty = i % 2 == 1;
            let o = if tty { run_tty(&root, &["diff", &b, &t])? } else { run(&root, &["diff", &b, &t])? };
            ctx.eval();
            ctx.step(1);
            check_live(&o, &want, tty)?;
            ensure!(snapshot(&root) == before, "files", "the command changes files");
            ctx.nontrivial(i);
            ctx.outcome(&o.out);
            Ok(())
        },
    )
}

/// Files, and targets that cannot be opened.
fn forms() -> Space {
    const FORM: [&str; 17] = ["debug", "debug traced", "debug path", "report directory", "report saved", "diff", "diff two", "path", "train then path", "diff tty", "path tty", "report", "report path", "unopenable", "unopenable tty", "relative", "slashes"];
    let n = (FORM.len() * KINDS * KINDS) as u64;
    Space::new(
        "forms",
        format!("{} forms of commands x {KINDS} kinds of target logs x {KINDS} kinds of baselines", FORM.len()),
        n,
        |i| json!({"form": FORM[i as usize % FORM.len()], "target": i as usize / FORM.len() % KINDS, "baseline": i as usize / FORM.len() / KINDS}),
        |i, ctx| {
            let i = i as usize;
            let (form, tk, bk) = (FORM[i % FORM.len()], i / FORM.len() % KINDS, i / FORM.len() / KINDS);
            let d = ctx.clean_scratch();
            let root = d.join("w");
            std::fs::create_dir_all(&root).unwrap();
            let at = |n: &str| root.join(n).display().to_string();
            std::fs::write(root.join("x.log"), text(tk, 100)).unwrap();
            std::fs::write(root.join("x.log.0"), text(bk, 7)).unwrap();
            std::fs::write(root.join("other.log"), text(0, 9)).unwrap();
            let (x, x0, other) = (at("x.log"), at("x.log.0"), at("other.log"));
            let tty = form.ends_with("tty");
            let go = |args: &[&str]| if tty { run_tty(&root, args) } else { run(&root, args) };
            ctx.state(i);
            ctx.nontrivial(i);
            match form {
                "diff" | "diff tty" => check_live(&go(&["diff", &x0, &x])?, &inspect(&train(&[&x0])?, &x)?, tty)?,
                "diff two" => check_live(&go(&["diff", &other, &x0, &x])?, &inspect(&train(&[&other, &x0])?, &x)?, tty)?,
                "path" | "path tty" => check_live(&go(&["path", &x])?, &inspect(&train(&[&x0])?, &x)?, tty)?,
                "train then path" => {
                    let want = inspect(&train(&[&x0])?, &x)?;
                    let m = at("m");
                    let o = go(&["--model", &m, "train", &x0])?;
                    ensure!(o.ok() && parse(&o.out, false).is_empty(), "train", "{}", o.show());
                    for s in ["x.log.0", "other.log"] {
                        std::fs::remove_file(root.join(s)).unwrap();
                    }
                    check_live(&go(&["--model", &m, "path", &x])?, &want, false)?;
                }
                "report" => check_report(&go(&["--report", &at("r.html"), "diff", &x0, &x])?, &root.join("r.html"), &train(&[&x0])?, &x)?,
                "report path" => check_report(&go(&["--report", &at("r.html"), "path", &x])?, &root.join("r.html"), &train(&[&x0])?, &x)?,
                "report directory" => {
                    // several logs, one that cannot be opened, one without baseline
                    let t = root.join("t");
                    std::fs::create_dir_all(t.join("sub")).unwrap();
                    for (k, n) in ["x.log", "sub/x.log", "other.log", "x.log.3", "never-seen/of.this", "zz-closed/x.log"].into_iter().enumerate() {
                        std::fs::create_dir_all(t.join(n).parent().unwrap()).unwrap();
                        std::fs::write(t.join(n), text([tk, bk, 1][k % 3], 100 * k)).unwrap();
                    }
                    let t = t.display().to_string();
                    let o = go(&["--report", &at("r.html"), "diff", &other, &x0, &t])?;
                    // the library does not see the closed log
                    std::fs::write(root.join("t/zz-closed/x.log"), "").unwrap();
                    let m = train(&[&other, &x0])?;
                    check_report(&o, &root.join("r.html"), &m, &t)?;
                }
                "report saved" => {
                    let m = train(&[&x0])?;
                    let (page, data) = [("r.html", "r.json"), ("r", "r.json"), ("a.b.html", "a.b.json")][bk % 3];
                    // a new one, over what an earlier run left, over something longer
                    for round in 0..3 {
                        let target = if round == 1 { &other } else { &x };
                        if round == 2 {
                            for f in [page, data] {
                                std::fs::write(root.join(f), "<old> ".repeat(30_000)).unwrap();
                            }
                        }
                        let o = run_env(&root, &["--report", &at(page), "diff", &x0, target], &[("LOGREDUCE_CACHE", "1")])?;
                        check_report(&o, &root.join(page), &m, target)?;
                        check_saved(&root.join(data), &m, target)?;
                    }
                }
                "unopenable" | "unopenable tty" => {
                    // logs that cannot be opened among others
                    let t = root.join("t");
                    std::fs::create_dir_all(&t).unwrap();
                    for k in 0..4 {
                        std::fs::write(t.join(format!("{}{}.log", word(k + bk), if (1 + bk) >> k & 1 == 1 { "zz-closed" } else { "" })), text(if k % 2 == 0 { tk } else { 1 }, 50 * k)).unwrap();
                    }
                    let t = t.display().to_string();
                    let m = train(&[&x0])?;
                    let want: Vec<Exp> = inspect(&m, &t)?;
                    check_live(&go(&["diff", &x0, &t])?, &want, tty)?;
                }
                "debug" => check_debug(&run_env(&root, &["diff", &x0, &x], &[("LOGREDUCE_LOG", ["debug", "info", "trace", "error"][(tk + bk) % 4])])?, &inspect(&train(&[&x0])?, &x)?)?,
                "debug path" => check_debug(&run_env(&root, &["path", &x], &[("LOGREDUCE_LOG", "debug")])?, &inspect(&train(&[&x0])?, &x)?)?,
                "debug traced" => {
                    let tr = at("trace.json");
                    check_debug(&run_env(&root, &["diff", &other, &x0, &x], &[("LOGREDUCE_LOG", "debug"), ("LOGREDUCE_TRACE", &tr)])?, &inspect(&train(&[&other, &x0])?, &x)?)?;
                    let t = std::fs::read(root.join("trace.json")).unwrap_or_default();
                    ensure!(serde_json::from_slice::<Value>(&t).map_or(false, |v| v.is_array()), "trace", "the trace is no list of events: {:?}", String::from_utf8_lossy(&t[..t.len().min(300)]));
                }
                "relative" => {
                    let o = go(&["diff", "x.log.0", "x.log"])?;
                    check_live(&o, &relative(&inspect(&train(&[&x0])?, &x)?, "x.log"), false)?;
                }
                _ => {
                    let t = at("t/");
                    std::fs::create_dir_all(&t).unwrap();
                    std::fs::write(root.join("t/x.log"), text(tk, 100)).unwrap();
                    check_live(&go(&["diff", &format!("{}//x.log.0", root.display()), &t])?, &inspect(&train(&[&x0])?, &t)?, false)?;
                }
            }
            ctx.eval();
            ctx.step(1);
            Ok(())
        },
    )
}

/// Commands about urls, served by the loopback interface.
fn urls() -> Space {
    const FORM: [&str; 14] = ["diff", "diff tty", "file and url", "url and file", "train then url", "build", "build tty", "build report", "build model", "cached", "directories", "missing", "broken", "no baseline"];
    const ID: &str = "a498f74ab32b49ffa9c9e7463fbf8885";
    let n = (FORM.len() * KINDS * KINDS) as u64;
    Space::new(
        "urls",
        format!("{} forms of commands with urls x {KINDS} kinds of target logs x {KINDS} kinds of baselines, served on the loopback interface", FORM.len()),
        n,
        |i| json!({"form": FORM[i as usize % FORM.len()], "target": i as usize / FORM.len() % KINDS, "baseline": i as usize / FORM.len() / KINDS}),
        |i, ctx| {
            let i = i as usize;
            let (form, tk, bk) = (FORM[i % FORM.len()], i / FORM.len() % KINDS, i / FORM.len() / KINDS);
            let srv = crate::server(ctx);
            let d = ctx.clean_scratch();
            let root = d.join("w");
            std::fs::create_dir_all(&root).unwrap();
            let at = |n: &str| root.join(n).display().to_string();
            let (target, good) = (text(tk, 100), text(bk, 7));
            let mut routes = std::collections::HashMap::new();
            for (n, b) in [("/t/x.log", &target), ("/b/x.log.0", &good), ("/t/sub/y.log", &good), ("/b/sub/y.log", &good)] {
                routes.insert(n.to_string(), Reply::ok(b.clone()));
            }
            for n in ["/t/", "/b/"] {
                let f = if n == "/t/" { "x.log" } else { "x.log.0" };
                routes.insert(n.to_string(), Reply::ok(format!("<a href=\"{f}\">f</a>")));
                routes.insert(format!("{n}sub/"), Reply::ok("<a href=\"y.log\">f</a>"));
            }
            std::fs::write(root.join("x.log"), &target).unwrap();
            std::fs::write(root.join("x.log.0"), &good).unwrap();
            let base = srv.base();
            let (x, x0, fx, fx0) = (format!("{base}/t/x.log"), format!("{base}/b/x.log.0"), at("x.log"), at("x.log.0"));
            // a build and one to compare it with
            let build = |id: &str, logs: &str, change: u64| {
                json!({"uuid": id, "job_name": "job", "result": "SUCCESS", "start_time": "2022-10-13T12:57:20", "end_time": "2022-10-13T12:58:42", "duration": 82.0, "voting": true, "log_url": format!("{base}{logs}"), "artifacts": [], "project": "p",
                    "branch": "main", "pipeline": "check", "change": change, "patchset": "1", "ref": "refs/changes/07/7/1", "ref_url": format!("{base}/ref/{change}"), "event_id": "e", "final": true})
            };
            routes.insert(format!("/zuul/api/build/{ID}"), Reply::ok(build(ID, "/t/", 7).to_string()));
            let list = json!([build(ID, "/t/", 7), build("b498f74ab32b49ffa9c9e7463fbf8885", "/b/", 8)]);
            routes.insert("*".into(), Reply::ok(list.to_string()));
            let page = format!("{base}/zuul/build/{ID}");
            srv.set(routes.clone());
            let found = || -> Result<Model, Fail> {
                let b = content(&page)?.discover_baselines().map_err(|e| Fail::new("discover", format!("{e:#}")))?;
                Model::train(OutputMode::Quiet, b, hashing_index::new).map_err(|e| Fail::new("train", format!("{e:#}")))
            };
            let tty = form.ends_with("tty");
            let go = |args: &[&str]| if tty { run_tty(&root, args) } else { run(&root, args) };
            ctx.state(i);
            ctx.nontrivial(i);
            match form {
                "diff" | "diff tty" => check_live(&go(&["diff", &x0, &x])?, &inspect(&train(&[&x0])?, &x)?, tty)?,
                "file and url" => check_live(&go(&["diff", &fx0, &x])?, &inspect(&train(&[&fx0])?, &x)?, tty)?,
                "url and file" => check_live(&go(&["diff", &x0, &fx])?, &inspect(&train(&[&x0])?, &fx)?, tty)?,
                "train then url" => {
                    let want = inspect(&train(&[&x0])?, &x)?;
                    let m = at("m");
                    let o = go(&["--model", &m, "train", &x0])?;
                    ensure!(o.ok() && parse(&o.out, false).is_empty(), "train", "{}", o.show());
                    srv.route("/b/x.log.0", Reply::status(404, ""));
                    check_live(&go(&["--model", &m, "url", &x])?, &want, false)?;
                }
                "build" | "build tty" => check_live(&go(&["url", &page])?, &inspect(&found()?, &page)?, tty)?,
                "build report" => check_report(&go(&["--report", &at("r.html"), "url", &page])?, &root.join("r.html"), &found()?, &page)?,
                "build model" => {
                    let (m, want) = (at("m"), inspect(&found()?, &page)?);
                    check_live(&go(&["--model", &m, "url", &page])?, &want, false)?;
                    // now the model is used, and not the baseline
                    srv.route("/b/x.log.0", Reply::status(404, ""));
                    srv.route("/b/", Reply::status(404, ""));
                    check_live(&go(&["--model", &m, "url", &page])?, &want, false)?;
                }
                "cached" => {
                    let want = inspect(&train(&[&x0])?, &x)?;
                    let failed = |w: &[Exp]| w.iter().any(|e| matches!(e, Exp::Log { failed: true, .. }));
                    let env = [("LOGREDUCE_CACHE", "1")];
                    for k in 0..3 {
                        // logs that cannot be read to their end are not kept
                        if k == 2 && !failed(&want) && bk != 9 {
                            srv.set(Default::default());
                        }
                        check_live(&run_env(&root, &["diff", &x0, &x], &env)?, &want, false).map_err(|f| Fail::new(f.key, format!("run {k} with a cache: {}", f.msg)))?;
                    }
                }
                "directories" => {
                    let (t, b) = (format!("{base}/t/"), format!("{base}/b/"));
                    check_live(&go(&["diff", &b, &t])?, &inspect(&train(&[&b])?, &t)?, false)?;
                }
                // a read error of the log, or of the baseline
                "missing" => {
                    srv.route("/t/x.log", Reply::status([404, 500][tk % 2], "not here"));
                    check_live(&go(&["diff", &x0, &x])?, &inspect(&train(&[&x0])?, &x)?, false)?;
                    srv.route("/b/x.log.0", Reply::status([404, 500][tk % 2], "not here"));
                    let o = go(&["diff", &x0, &x])?;
                    match train(&[&x0]) {
                        Ok(m) => check_live(&o, &inspect(&m, &x)?, false)?,
                        Err(f) => ensure!(o.is_error(), "status", "training fails ({}): {}", f.msg, o.show()),
                    }
                }
                "broken" => {
                    srv.route("/t/x.log", Reply::ok(target.clone()).cut(target.len() * 2 / 3));
                    let want = inspect(&train(&[&x0])?, &x)?;
                    check_live(&go(&["diff", &x0, &x])?, &want, false)?;
                    check_live(&run_env(&root, &["diff", &x0, &x], &[("LOGREDUCE_CACHE", "1")])?, &want, false)?;
                    // nothing of it was kept
                    srv.set(routes);
                    check_live(&run_env(&root, &["diff", &x0, &x], &[("LOGREDUCE_CACHE", "1")])?, &inspect(&train(&[&x0])?, &x)?, false)?;
                }
                _ => {
                    let dead = format!("{base}/zuul/build/b498f74ab32b49ffa9c9e7463fbf8885");
                    srv.route("/zuul/api/build/b498f74ab32b49ffa9c9e7463fbf8885", Reply::status(404, "no"));
                    for args in [vec!["url", &x[..]], vec!["url", &fx], vec!["url", "http://"], vec!["url", &dead], vec!["path", &x], vec!["diff", &dead, &x], vec!["--model", "m", "train", &dead]] {
                        let before = snapshot(&root);
                        let o = go(&args)?;
                        ensure!(o.is_error(), "status", "{args:?}: {}", o.show());
                        ensure!(snapshot(&root) == before, "files", "{args:?} changes files");
                    }
                }
            }
            ctx.eval();
            ctx.step(1);
            Ok(())
        },
    )
}

fn relative(want: &[Exp], name: &str) -> Vec<Exp> {
    want.iter()
        .map(|e| match e {
            Exp::NoBaseline(_) => Exp::NoBaseline(Source::Local(0, name.into())),
            Exp::Log { anomalies, failed, lines, .. } => Exp::Log { source: Source::Local(0, name.into()), anomalies: anomalies.clone(), failed: *failed, lines: *lines },
        })
        .collect()
}

// ------------------------------------------------------------------ scale

const SCALE: [&str; 8] = ["target logs", "anomalies of a log", "baselines", "characters of a line", "directories", "lines between anomalies", "groups", "repeated anomalies"];
const SIZES: [usize; 14] = [1, 2, 3, 9, 10, 11, 33, 64, 65, 100, 129, 256, 300, 1100];

/// Many logs, anomalies, baselines; on a terminal or not, as report or with a model file.
fn scale() -> Space {
    const HOW: usize = 4;
    Space::new(
        "scale",
        format!("{SIZES:?} of {}, printed, on a terminal, as a report, and with a model file", SCALE.join(", ")),
        (SCALE.len() * SIZES.len() * HOW) as u64,
        |i| {
            let mut d = Dec(i);
            json!({"how": d.take(HOW as u64), "size": *d.pick(&SIZES), "of": *d.pick(&SCALE)})
        },
        |i, ctx| {
            let mut d = Dec(i);
            let (how, n, what) = (d.take(HOW as u64), *d.pick(&SIZES), *d.pick(&SCALE));
            let dir = ctx.clean_scratch();
            let root = dir.join("w");
            let put1 = |n: &str, b: Vec<u8>| {
                let p = root.join(n);
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(p, b).unwrap();
            };
            let at = |n: &str| root.join(n).display().to_string();
            let novel = |k: usize| format!("{} {} {} broke", word(3 * k), word(3 * k + 1), word(3 * k + 2));
            let mut baselines = vec!["base".to_string()];
            put1("base/x.log", text(0, 1));
            let name = |k: usize| word(k);
            match what {
                "target logs" => (0..n.min(300)).for_each(|k| put1(&format!("target/{}/x.log", name(k)), text([1, 0, 6][k % 3], 10 * k))),
                "anomalies of a log" => put1("target/x.log", (0..n).map(|k| format!("{}\n{}\n", novel(k), good(k)[k % 6])).collect::<String>().into_bytes()),
                "baselines" => {
                    let n = n.min(129);
                    for k in 0..n {
                        baselines.push(format!("b{k}"));
                        put1(&format!("b{k}/x.log"), format!("{}\n", novel(2 * k)).into_bytes());
                    }
                    put1("target/x.log", (0..2 * n).map(|k| format!("{}\n{}\n", novel(k), good(k)[k % 6])).collect::<String>().into_bytes());
                }
                "characters of a line" => {
                    let long = format!("{} {}", novel(0), "wxyz ".repeat(n * 3));
                    put1("target/x.log", format!("{}\n{long}\n{}\n", good(1)[0], good(1)[1]).into_bytes());
                }
                "directories" => put1(&format!("target/{}x.log", (0..n.min(100)).map(|k| word(k) + "/").collect::<String>()), text(1, 5)),
                "lines between anomalies" => put1("target/x.log", format!("{}\n{}{}\n", novel(0), "known quiet line seen again\n".repeat(n), novel(1)).into_bytes()),
                "groups" => {
                    for k in 0..n.min(129) {
                        put1(&format!("base/{}.log", name(k)), text(0, k));
                        put1(&format!("target/{}.log", name(k)), text([1, 0, 2][k % 3], 10 * k));
                    }
                }
                _ => put1("target/x.log", (0..n).map(|k| format!("{}\n{}\n", novel(k % 2), good(k)[k % 6])).collect::<String>().into_bytes()),
            }
            let b: Vec<String> = baselines.iter().map(|b| at(b)).collect();
            let bs: Vec<&str> = b.iter().map(String::as_str).collect();
            let t = at("target");
            let m = train(&bs)?;
            ctx.state(i);
            ctx.nontrivial(i);
            ctx.eval();
            ctx.step(1);
            let all = |first: &[&str]| first.iter().copied().chain(bs.iter().copied()).map(String::from).collect::<Vec<_>>();
            let go = |args: Vec<String>, tty: bool| {
                let a: Vec<&str> = args.iter().map(String::as_str).collect();
                if tty { run_tty(&root, &a) } else { run(&root, &a) }
            };
            match how {
                0 | 1 => {
                    let mut a = all(&["diff"]);
                    a.push(t.clone());
                    check_live(&go(a, how == 1)?, &inspect(&m, &t)?, how == 1)
                }
                2 => {
                    let mut a = all(&["--report", &at("r.html"), "diff"]);
                    a.push(t.clone());
                    check_report(&go(a, false)?, &root.join("r.html"), &m, &t)
                }
                _ => {
                    let o = go(all(&["--model", &at("m"), "train"]), false)?;
                    ensure!(o.ok(), "train", "{}", o.show());
                    check_live(&go(vec!["--model".into(), at("m"), "path".into(), t.clone()], false)?, &inspect(&m, &t)?, false)
                }
            }
        },
    )
    .timeout(200)
}

// ------------------------------------------------------------------ histories

const OPS: [&str; 19] = [
    "diff base target",
    "--model m diff base target",
    "--model m diff base base2 target",
    "--model m path target",
    "--model m path logs/x.log",
    "--model m train base",
    "--model m train base2 base",
    "--model m train base missing",
    "edit base",
    "damage m",
    "remove m",
    "--model m --report r.html path target",
    "--model m diff missing target",
    "--model m diff base missing",
    "train base",
    "path logs/x.log",
    "--model m --report r.html diff base target",
    "edit target",
    "--report missing/r.html diff base target",
];

enum File {
    None,
    Good(Rc<Model>),
    Damaged,
}

fn histories(tier: Tier) -> Space {
    let max = tier.pick(3, 4);
    let n = OPS.len() as u64;
    Space::new(
        "histories",
        format!("every sequence of up to {max} of {n} commands and changes of files"),
        seq_count(n, 1, max),
        move |i| json!({"commands": seq_decode(i, n, 1, max).into_iter().map(|k| OPS[k]).collect::<Vec<_>>()}),
        move |i, ctx| {
            let ops = seq_decode(i, n, 1, max);
            // the last step must be a command, and a change of files is seen by a later one
            if !is_command(ops[ops.len() - 1]) {
                return Ok(());
            }
            // nothing happens to a model file before something creates it
            if ops.len() == 4 && ops.iter().filter(|k| OPS[**k].contains("--model m")).count() < 2 {
                return Ok(());
            }
            let d = ctx.clean_scratch();
            let root = d.join("w");
            let put1 = |n: &str, b: Vec<u8>| {
                let p = root.join(n);
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(p, b).unwrap();
            };
            put1("base/a.log", text(0, 1));
            put1("base/b.log", text(0, 2));
            put1("base2/c.log", text(1, 5));
            put1("target/a.log", text(6, 100));
            put1("target/b.log", text(2, 200));
            put1("target/c.log", text(1, 5));
            put1("logs/x.log", text(1, 300));
            put1("logs/x.log.0", text(0, 1));
            let mut file = File::None;
            ctx.state(i);
            for (step, op) in ops.iter().enumerate() {
                let last = step + 1 == ops.len();
                let fail = |f: Fail| Fail::new(f.key, format!("step {} ({}): {}", step + 1, OPS[*op], f.msg));
                match OPS[*op] {
                    "edit base" => {
                        put1("base/a.log", text(6, 100));
                        put1("base/new.log", text(0, 1));
                    }
                    "edit target" => put1("target/b.log", text(8, 400 + step)),
                    "damage m" => {
                        if let Ok(b) = std::fs::read(root.join("m")) {
                            std::fs::write(root.join("m"), &b[..b.len() / 2]).unwrap();
                            file = File::Damaged;
                        }
                    }
                    "remove m" => {
                        let _ = std::fs::remove_file(root.join("m"));
                        file = File::None;
                    }
                    cmd => {
                        ctx.step(1);
                        command(cmd, &root, &mut file, last).map_err(fail)?;
                        ctx.eval();
                    }
                }
            }
            ctx.nontrivial(i);
            Ok(())
        },
    )
}

fn is_command(k: usize) -> bool {
    !OPS[k].starts_with("edit") && !OPS[k].starts_with("damage") && !OPS[k].starts_with("remove")
}

/// Runs the command and compares what it does; `file` is what the model file holds.
fn command(cmd: &str, root: &Path, file: &mut File, check: bool) -> Res {
    let at = |n: &str| root.join(n).display().to_string();
    // options and words; names are made absolute
    let words: Vec<&str> = cmd.split(' ').collect();
    let mut args: Vec<String> = vec![];
    let (mut model, mut report, mut rest) = (false, None, vec![]);
    let mut k = 0;
    while k < words.len() {
        match words[k] {
            o @ ("--model" | "--report") => {
                args.extend([o.to_string(), at(words[k + 1])]);
                if o == "--model" {
                    model = true;
                } else {
                    report = Some(words[k + 1]);
                }
                k += 2;
            }
            w => {
                rest.push(w);
                k += 1;
            }
        }
    }
    args.push(rest[0].to_string());
    let names: Vec<String> = rest[1..].iter().map(|w| at(w)).collect();
    args.extend(names.iter().cloned());
    let names: Vec<&str> = names.iter().map(String::as_str).collect();
    // what should happen
    let exists = |n: &&str| Path::new(n).exists();
    let (baselines, target): (Option<Vec<&str>>, Option<&str>) = match rest[0] {
        "train" => (Some(names.clone()), None),
        "diff" => (Some(names[..names.len() - 1].to_vec()), names.last().copied()),
        _ => (None, names.last().copied()),
    };
    let before = snapshot(root);
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    let o = run(root, &a)?;
    if !check && !model {
        return Ok(());
    }
    let after = snapshot(root);
    let discovered = target.map(|t| format!("{t}.0"));
    // Err: the command must fail; the model it uses, and whether it is saved
    enum Use {
        Fails,
        Existing(Rc<Model>),
        New(Rc<Model>),
    }
    let wanted = if target.map_or(false, |t| !exists(&t)) || (rest[0] == "train" && !model) {
        Use::Fails
    } else if rest[0] != "train" && model && !matches!(file, File::None) {
        match (&*file, &baselines) {
            (File::Good(m), None) => Use::Existing(m.clone()),
            _ => Use::Fails,
        }
    } else {
        let b: Vec<&str> = match &baselines {
            Some(b) => b.clone(),
            None => vec![discovered.as_deref().unwrap()],
        };
        if b.iter().all(exists) {
            Use::New(Rc::new(train(&b)?))
        } else {
            Use::Fails
        }
    };
    let mut expected = before.clone();
    let used = match wanted {
        Use::Fails => {
            ensure!(o.is_error(), "no-error", "{}", o.show());
            ensure!(parse(&o.out, false).iter().all(|g| !matches!(g, Got::Line(..))), "output", "{}", o.show());
            None
        }
        Use::Existing(m) => Some(m),
        Use::New(m) => {
            if model {
                let b = after.get("m").ok_or_else(|| Fail::new("not-saved", format!("no model file: {}", o.show())))?;
                // the saved file gives what the model gives
                let loaded = Model::load(&root.join("m")).map_err(|e| Fail::new("not-saved", format!("the model file does not load: {e:#}")))?;
                if check {
                    for t in ["target", "logs/x.log"] {
                        let (x, y) = (inspect(&m, &at(t))?, inspect(&loaded, &at(t))?);
                        let flat = |v: &[Exp]| v.iter().map(|e| match e { Exp::NoBaseline(s) => format!("none {s}"), Exp::Log { source, anomalies, lines, .. } => format!("{source} {anomalies:?} {lines}") }).collect::<Vec<_>>();
                        ensure!(flat(&x) == flat(&y), "saved", "the saved model gives other anomalies for {t}");
                    }
                }
                expected.insert("m".into(), b.clone());
                *file = File::Good(m.clone());
            }
            Some(m)
        }
    };
    if let Some(m) = used {
        finish(check, rest[0], report, &o, &m, target, root, &after, &mut expected)?;
    }
    for (n, b) in &expected {
        ensure!(after.get(n) == Some(b), "files", "{n} is {}", if after.contains_key(n) { "changed" } else { "gone" });
    }
    for n in after.keys() {
        ensure!(expected.contains_key(n), "files", "{n} appeared");
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn finish(check: bool, what: &str, report: Option<&str>, o: &Out, m: &Model, target: Option<&str>, root: &Path, after: &Files, expected: &mut Files) -> Res {
    if what == "train" {
        ensure!(o.ok() && parse(&o.out, false).is_empty(), "train", "{}", o.show());
        return Ok(());
    }
    match report {
        // a place that does not exist
        Some(r) if r.contains('/') => ensure!(o.is_error(), "no-error", "{}", o.show()),
        Some(r) => {
            if check {
                check_report(o, &root.join(r), m, target.unwrap())?;
            }
            expected.insert(r.to_string(), after.get(r).cloned().unwrap_or_default());
        }
        None => {
            if check {
                check_live(o, &inspect(m, target.unwrap())?, false)?;
            }
        }
    }
    Ok(())
}

/// A model file that is damaged in every way is an error and stays as it is.
fn damaged(tier: Tier) -> Space {
    const CUTS: u64 = 400;
    let flips = tier.pick(150u64, 1500);
    Space::new(
        "damaged models",
        format!("{CUTS} truncations and {flips} changed bytes of a model file, a directory, an empty file, a text"),
        CUTS + flips + 4,
        |i| json!({"i": i}),
        move |i, ctx| {
            let d = ctx.clean_scratch();
            let root = d.join("w");
            std::fs::create_dir_all(&root).unwrap();
            let at = |n: &str| root.join(n).display().to_string();
            std::fs::write(root.join("x.log.0"), text(0, 1)).unwrap();
            std::fs::write(root.join("x.log"), text(6, 100)).unwrap();
            let model = train(&[&at("x.log.0")])?;
            let want = inspect(&model, &at("x.log"))?;
            model.save(&root.join("m")).unwrap();
            let b = std::fs::read(root.join("m")).unwrap();
            let mut may_load = false;
            if i < CUTS {
                std::fs::write(root.join("m"), &b[..(b.len() as u64 * i / CUTS) as usize]).unwrap();
            } else if i < CUTS + flips {
                let mut b = b.clone();
                let k = (b.len() as u64 * (i - CUTS) / flips) as usize;
                b[k] ^= 0x10;
                // bytes of the gzip header, or after what is read, do not matter
                may_load = true;
                std::fs::write(root.join("m"), b).unwrap();
            } else {
                std::fs::remove_file(root.join("m")).unwrap();
                match i - CUTS - flips {
                    0 => std::fs::create_dir(root.join("m")).unwrap(),
                    1 => std::fs::write(root.join("m"), b"").unwrap(),
                    2 => std::fs::write(root.join("m"), b"some text\n").unwrap(),
                    _ => std::fs::write(root.join("m"), gz(b"some text\n")).unwrap(),
                }
            }
            let before = snapshot(&root);
            let o = run(&root, &["--model", &at("m"), "path", &at("x.log")])?;
            ctx.eval();
            ctx.step(1);
            ctx.state(i);
            ctx.nontrivial(i);
            ctx.outcome(o.code);
            if o.ok() && may_load {
                // only the header can be changed without a trace
                check_live(&o, &want, false)?;
            } else {
                ensure!(o.is_error(), "no-error", "{}", o.show());
            }
            ensure!(snapshot(&root) == before, "files", "the command changes files");
            Ok(())
        },
    )
}

pub fn spaces(tier: Tier) -> Vec<Space> {
    vec![damaged(tier), forms(), urls(), scale(), outputs(tier), histories(tier)]
}
