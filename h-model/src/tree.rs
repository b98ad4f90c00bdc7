//! C13 - C17: training and reporting on real files in a scratch directory.
use crate::proc::{again, base_lines, contexts, far, near, word, Ref, KNOWN};
use interpose::{Act, Kind};
use logreduce_model::{hashing_index, Content, IndexName, Input, Model, OutputMode, Report, Source};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use vengine::serde_json::json;
use vengine::*;

pub fn gz(data: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

pub fn put(dir: &Path, rel: &str, data: &[u8]) {
    let p = dir.join(rel);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    if rel.ends_with(".gz") {
        std::fs::write(p, gz(data, 6)).unwrap();
    } else {
        std::fs::write(p, data).unwrap();
    }
}

pub fn input(p: &Path) -> Result<Content, Fail> {
    Content::from_input(Input::Path(p.to_str().unwrap().to_string())).map_err(|e| Fail::new("input", format!("{p:?}: {e:#}")))
}

pub fn train(b: Vec<Content>) -> Result<Model, Fail> {
    Model::train(OutputMode::Quiet, b, hashing_index::new).map_err(|e| Fail::new("train", format!("training failed: {e:#}")))
}

pub fn report(m: &Model, t: Content) -> Result<Report, Fail> {
    m.report(OutputMode::Quiet, t).map_err(|e| Fail::new("report", format!("report failed: {e:#}")))
}

/// All anomalies as (source, position, line).
pub fn anomalies(r: &Report) -> BTreeSet<(String, usize, String)> {
    r.log_reports.iter().flat_map(|l| l.anomalies.iter().map(move |a| (l.source.as_str().to_string(), a.anomaly.pos, a.anomaly.line.clone()))).collect()
}

pub fn summary(r: &Report) -> String {
    format!(
        "anomalies {:?}, read errors {:?}, without baseline {:?}",
        anomalies(r),
        r.read_errors.iter().map(|(s, e)| (s.as_str(), e.as_str())).collect::<Vec<_>>(),
        r.index_errors.iter().flatten().map(|s| s.as_str()).collect::<Vec<_>>()
    )
}

fn nothing(r: &Report, what: &str) -> Res {
    ensure!(
        r.log_reports.is_empty() && r.total_anomaly_count == 0 && r.read_errors.is_empty() && r.index_errors.is_empty(),
        "self",
        "{what}: {}",
        summary(r)
    );
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C13

fn kind_line(k: usize, salt: usize) -> String {
    match k {
        0 => format!("2022-10-0{} job {} started without trouble", 1 + salt % 9, salt * 31),
        1 => format!("Traceback: {} failed in module {}", word(salt), word(salt + 40)),
        2 => format!("{{\"time\": {salt}, \"msg\": \"{} is, [quite] {{odd}}\", \"tags\": [\"{}\", \"two words\"]}}", word(salt + 80), word(salt + 120)),
        3 => format!("first part\\nsecond {} part\\nthird, part", word(salt + 160)),
        4 => format!("single{}", word(salt + 200)),
        5 => String::new(),
        6 => format!("long {}", "x y ".repeat(1600)),
        7 => format!("a \\\\ backslash {} \\\" quote \\", word(salt + 240)),
        _ => format!("dGhpcyBpcyBhIHZlcnkgbG9uZyBiYXNlNjQ{} {} == é…", salt, word(salt + 280)),
    }
}
const KINDS: u64 = 9;
const NAMES: [&str; 9] = ["job.log", "job.log.1", "sub/out.json", "sub/out.json.1", "sub/out.json.gz", "audit/audit.log.gz", "audit/audit.log", "deep/er/x.txt", "sub/job.log"];

fn body(kinds: &[usize], salt: usize) -> String {
    kinds.iter().enumerate().map(|(j, &k)| kind_line(k, salt + j)).collect::<Vec<_>>().join("\n") + if salt % 2 == 0 { "\n" } else { "" }
}

pub fn c13(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    // one file, compared with itself as file and directory
    let max = tier.pick(3, 4);
    let per = seq_count(KINDS, 0, max);
    v.push(Space::new(
        "file",
        format!("every file of 0..={max} lines over 9 line kinds under 4 names, compared with itself as a file and as a directory"),
        per * 4,
        move |i| json!({"name": NAMES[[0, 2, 4, 5][(i / per) as usize]], "lines": body(&seq_decode(i % per, KINDS, 0, max), 1)}),
        move |i, ctx| {
            let name = NAMES[[0, 2, 4, 5][(i / per) as usize]];
            let kinds = seq_decode(i % per, KINDS, 0, max);
            let dir = ctx.clean_scratch();
            put(&dir, name, body(&kinds, 1 + kinds.len()).as_bytes());
            for c in [input(&dir.join(name))?, input(&dir)?] {
                let m = train(vec![c.clone()])?;
                nothing(&report(&m, c.clone())?, &format!("{c} against itself"))?;
                ctx.eval();
            }
            ctx.step(kinds.len() as u64);
            ctx.state((name, &kinds));
            if kinds.iter().any(|&k| k > 0) {
                ctx.nontrivial(i);
            }
            Ok(())
        },
    ));
    // trees of several files, compared with themselves; then rearranged lines
    let subsets: Vec<Vec<usize>> = (1u32..1 << NAMES.len()).filter(|m| m.count_ones() <= 3).map(|m| (0..NAMES.len()).filter(|k| m >> k & 1 == 1).collect()).collect();
    let n = subsets.len() as u64;
    let shapes = 9u64 * 3;
    let s2 = subsets.clone();
    v.push(Space::new(
        "tree",
        "every tree of 1..=3 files among 9 names (same group plain, JSON, rotated and compressed), 27 contents each: against itself, against itself plus more, and with lines reversed and repeated",
        n * shapes,
        move |i| json!({"files": s2[(i % n) as usize].iter().map(|&k| NAMES[k]).collect::<Vec<_>>(), "shape": i / n}),
        move |i, ctx| {
            let files = &subsets[(i % n) as usize];
            let shape = (i / n) as usize;
            let root = ctx.clean_scratch();
            let (base, more, mixed) = (root.join("base"), root.join("more"), root.join("mixed"));
            std::fs::create_dir_all(&more).unwrap();
            for (f, &k) in files.iter().enumerate() {
                let kinds: Vec<usize> = (0..2 + shape / 9).map(|j| (shape + f * 4 + j * 2 + j * f) % 9).collect();
                let text = body(&kinds, 10 * (f + 1) + shape);
                put(&base, NAMES[k], text.as_bytes());
                let mut lines: Vec<&str> = text.trim_end_matches('\n').split('\n').collect();
                lines.reverse();
                let first = lines[0];
                lines.insert(lines.len() / 2, first);
                lines.push(first);
                // an open string of one line may swallow the next separators: keep such files in order
                let mixed_text = if NAMES[k].contains(".json") { text.clone() } else { lines.join("\n") };
                put(&mixed, NAMES[k], mixed_text.as_bytes());
            }
            put(&more, "job.log", b"another baseline line\nsecond one\n");
            put(&more, "other/thing.log", b"unrelated\n");
            let b = input(&base)?;
            let m = train(vec![b.clone()])?;
            nothing(&report(&m, b.clone())?, "directory against itself")?;
            nothing(&report(&m, input(&mixed)?)?, "directory with rearranged lines")?;
            let m2 = train(vec![b.clone(), input(&more)?])?;
            nothing(&report(&m2, b.clone())?, "directory against a superset")?;
            let m3 = train(vec![input(&more)?, b.clone(), b.clone()])?;
            nothing(&report(&m3, b)?, "directory against a superset in another order")?;
            ctx.evals(4);
            ctx.step(files.len() as u64 * 4);
            ctx.state((files, shape));
            ctx.nontrivial((files, shape));
            Ok(())
        },
    ));
    // many files, many baselines, many lines
    let mut cases: Vec<(&str, usize)> = vec![];
    for n in [2, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 20, 21, 31, 32, 33, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 1001] {
        cases.push(("files of a group", n));
        cases.push(("groups", n));
        if n < 300 {
            cases.push(("baselines", n));
        }
    }
    for n in tier.pick(vec![33_000, 66_000, 101_000, 140_000], vec![33_000, 66_000, 101_000, 140_000, 260_000, 530_000, 1_100_000]) {
        cases.push(("lines", n));
    }
    for n in [5_000, 5_999, 6_000, 6_001, 8_192, 65_536] {
        cases.push(("bytes of a line", n));
    }
    let cases: &'static [(&str, usize)] = cases.leak();
    v.push(
        Space::new(
            "scale",
            "up to 1001 files of one group or groups, 257 baselines, 140000 lines of a log, 65536 bytes in a line: against itself",
            cases.len() as u64,
            move |i| json!({cases[i as usize].0: cases[i as usize].1}),
            move |i, ctx| {
                let (what, n) = cases[i as usize];
                let root = ctx.clean_scratch();
                let base = root.join("base");
                let lines = |k: usize| format!("{}\n{}\n{}\n", far(2 * k), far(2 * k + 1), near(k));
                let mut inputs = vec![];
                match what {
                    "files of a group" => (0..n).for_each(|k| put(&base, &format!("g/a.log.{k}"), lines(k).as_bytes())),
                    "groups" => (0..n).for_each(|k| put(&base, &format!("g/{}.log", super::proc::word(k)), lines(k).as_bytes())),
                    "baselines" => {
                        for k in 0..n {
                            put(&base, &format!("b{k}/g/a.log"), lines(k).as_bytes());
                            inputs.push(input(&base.join(format!("b{k}")))?);
                        }
                    }
                    "lines" => {
                        let mut t: String = (0..n).map(|k| far(k % 200) + "\n").collect();
                        t += &lines(300);
                        put(&base, "g/a.log", t.as_bytes());
                        put(&base, "g/a.log.1", lines(400).as_bytes());
                        put(&base, "g/a.log.2", lines(500).as_bytes());
                        // whatever the order of the files, a large one is before small ones
                        put(&base, "g/a.log.3", t.as_bytes());
                    }
                    _ => {
                        let long = (0..).map(|k| super::proc::word(k)).scan(0, |l, w| { *l += w.len() + 1; (*l <= n).then_some(w) }).collect::<Vec<_>>().join(" ");
                        put(&base, "g/a.log", format!("{}{long}\n{}", lines(1), lines(2)).as_bytes());
                    }
                }
                let all = input(&base)?;
                if inputs.is_empty() {
                    inputs.push(all.clone());
                }
                let m = train(inputs.clone())?;
                ctx.state(i);
                ctx.step(n as u64);
                ctx.nontrivial(i);
                if what == "baselines" {
                    for t in inputs {
                        ctx.eval();
                        nothing(&report(&m, t)?, &format!("one of {n} baselines"))?;
                    }
                    return Ok(());
                }
                ctx.eval();
                let r = report(&m, all)?;
                nothing(&r, &format!("{n} {what} against themselves"))?;
                let total = match what {
                    "lines" => 2 * (n + 3) + 6,
                    "bytes of a line" => return Ok(()),
                    _ => 3 * n,
                };
                ensure_eq!(r.total_line_count, total, "lines", "inspected lines of {n} {what}");
                Ok(())
            },
        )
        .timeout(300),
    );
    // sizes around the batches
    let sizes: &'static [usize] = &[1, 3, 511, 512, 513, 514, 1023, 1024, 1025, 1200, 5121, 5130];
    v.push(Space::new(
        "size",
        format!("files of {sizes:?} lines (all distinct / few distinct / two files / json / gz) against themselves, reversed, and cut in two files"),
        sizes.len() as u64 * 5,
        move |i| json!({"lines": sizes[(i % sizes.len() as u64) as usize], "variant": i / sizes.len() as u64}),
        move |i, ctx| {
            let n = sizes[(i % sizes.len() as u64) as usize];
            let variant = i / sizes.len() as u64;
            let root = ctx.clean_scratch();
            let mut lines: Vec<String> = (0..n).map(|j| if variant == 1 { far(j % 7) } else { far(j % 3000) }).collect();
            let name = match variant {
                3 => "a/x.json",
                4 => "a/x.log.gz",
                _ => "a/x.log",
            };
            let base = root.join("b");
            if variant == 2 {
                put(&base, "a/x.log", lines[..n / 2].join("\n").as_bytes());
                put(&base, "a/x.log.1", lines[n / 2..].join("\n").as_bytes());
            } else {
                put(&base, name, lines.join("\n").as_bytes());
            }
            let m = train(vec![input(&base)?])?;
            let r = report(&m, input(&base)?)?;
            nothing(&r, "against itself")?;
            ensure_eq!(r.total_line_count, n, "lines", "inspected lines");
            lines.reverse();
            put(&root.join("t"), name, lines.join("\n").as_bytes());
            nothing(&report(&m, input(&root.join("t"))?)?, "reversed")?;
            ctx.evals(2);
            ctx.step(2 * n as u64);
            ctx.state(i);
            if n > 500 {
                ctx.nontrivial(i);
            }
            Ok(())
        },
    ));
    // more baselines never add anomalies
    let lines: Vec<String> = vec![far(1), far(3), near(2), KNOWN.into(), again(1), "node manager halted".into()];
    let l2 = lines.clone();
    let per = tier.pick(64u64, 64);
    v.push(Space::new(
        "monotone",
        "every pair of baselines and target over the 64 subsets of 6 lines, in one group and with a second group: the anomalies with both baselines are among those with the first",
        per * 64 * tier.pick(8, 64),
        move |i| {
            let sub = |m: u64| (0..6).filter(|k| m >> k & 1 == 1).map(|k| l2[k].clone()).collect::<Vec<_>>();
            json!({"baseline": sub(i % 64), "more": sub(i / 64 % 64), "target": sub(63 - i / 4096)})
        },
        move |i, ctx| {
            let sub = |m: u64| (0..6).filter(|k| m >> k & 1 == 1).map(|k| lines[k].clone()).collect::<Vec<_>>().join("\n");
            let root = ctx.clean_scratch();
            put(&root, "one/x.log", sub(i % 64).as_bytes());
            put(&root, "two/x.log", sub(i / 64 % 64).as_bytes());
            put(&root, "two/y.log", b"unrelated second group\n");
            put(&root, "target/x.log", sub(63 - i / 4096).as_bytes());
            let t = input(&root.join("target"))?;
            let r1 = report(&train(vec![input(&root.join("one"))?])?, t.clone())?;
            let r2 = report(&train(vec![input(&root.join("one"))?, input(&root.join("two"))?])?, t)?;
            let (a1, a2) = (anomalies(&r1), anomalies(&r2));
            ensure!(a2.is_subset(&a1), "monotone", "more baselines created anomalies: {:?}", a2.difference(&a1).collect::<Vec<_>>());
            ensure!(r2.read_errors.is_empty() && r2.index_errors.is_empty(), "monotone", "{}", summary(&r2));
            ctx.evals(2);
            ctx.step(4);
            ctx.state(i);
            ctx.outcome((a1.len(), a2.len()));
            if a1 != a2 {
                ctx.nontrivial(i);
            }
            Ok(())
        },
    ));
    // a damaged baseline takes nothing away from the others
    const DAMAGE: [&str; 7] = ["undecodable first line", "undecodable later line", "undecodable after a batch", "truncated gzip", "not gzip", "cannot be opened", "fails while it is read"];
    const WHERE: [&str; 4] = ["x.log.5", "y.log.5", "other.log", "sub/x.log.5"];
    v.push(Space::new(
        "damaged baselines",
        format!("3 sound baselines with 2 groups each and a damaged log ({DAMAGE:?}) of the same or another group as a baseline of its own before, between or after the others or within one of them: the lines of the sound baselines are still known"),
        (DAMAGE.len() * WHERE.len() * 7) as u64,
        move |i| {
            let mut d = Dec(i);
            let (damage, at) = (DAMAGE[d.take(7)], WHERE[d.take(4)]);
            json!({"damage": damage, "log": at, "place": d.take(7)})
        },
        move |i, ctx| {
            let mut d = Dec(i);
            let damage = d.take(7);
            let rel = WHERE[d.take(4)];
            let place = d.take(7);
            let root = ctx.clean_scratch();
            let mut inputs = vec![];
            for k in 0..3 {
                put(&root, &format!("base{k}/x.log"), format!("{}\n{}\n", far(2 * k), near(k)).as_bytes());
                put(&root, &format!("base{k}/y.log"), format!("{}\n", far(20 + k)).as_bytes());
                put(&root, &format!("target/x.log.{k}"), format!("{}\n{}\n", near(k), far(2 * k)).as_bytes());
                put(&root, &format!("target/y.log.{k}"), format!("{}\n", far(20 + k)).as_bytes());
            }
            let dir = root.join(if place < 4 { "damaged".to_string() } else { format!("base{}", place - 4) });
            let gzipped = damage == 3 || damage == 4;
            let p = dir.join(format!("{rel}{}", if gzipped { ".gz" } else { "" }));
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            let text = match damage {
                0 => b"\xff\xfe\n".to_vec(),
                1 => [far(50).as_bytes(), b"\n\xff\n", far(51).as_bytes()].concat(),
                2 => [(0..600).map(|k| far(60 + k) + "\n").collect::<String>().as_bytes(), b"\xff\n"].concat(),
                3 => {
                    let z = gz((0..300).map(|k| far(60 + k) + "\n").collect::<String>().as_bytes(), 6);
                    z[..z.len() / 2].to_vec()
                }
                4 => b"this is not gzip data at all\n".to_vec(),
                _ => (0..300).map(|k| far(60 + k) + "\n").collect::<String>().into_bytes(),
            };
            std::fs::write(&p, text).unwrap();
            for k in 0..3 {
                inputs.push(input(&root.join(format!("base{k}")))?);
            }
            if place < 4 {
                inputs.insert(place, input(&dir)?);
            }
            let t = input(&root.join("target"))?;
            let r = interpose::with_hook(
                &dir,
                move |op| match op.kind {
                    Kind::Open | Kind::Create if damage == 5 && op.path == p => Act::Err(libc::EACCES),
                    Kind::Read if damage == 6 && op.path == p && op.done >= 3000 => Act::Err(libc::EIO),
                    Kind::Read if damage == 6 && op.path == p => Act::Short(3000 - op.done),
                    _ => Act::Go,
                },
                || train(inputs),
            );
            // a log that cannot even be opened may make the whole training fail, loudly
            if damage == 5 && r.is_err() {
                ctx.eval();
                ctx.count("training refused", 1);
                return Ok(());
            }
            let r = report(&r?, t)?;
            ctx.eval();
            ctx.step(4);
            ctx.state(i);
            ctx.nontrivial(i);
            nothing(&r, "the lines of the sound baselines")?;
            ensure_eq!(r.total_line_count, 9, "lines", "inspected lines");
            Ok(())
        },
    ));
    v
}

/// C11 on files: groups, shared and separate, trained and reported through the model.
pub fn groups(tier: Tier) -> Vec<Space> {
    const FILES: [&str; 4] = ["g1/a.log", "g1/a.log.1", "g2/b.log", "c.log"];
    let menu = |k: usize| match k {
        0 => far(1),
        1 => again(3),
        2 => again(8),
        3 => far(3),
        4 => KNOWN.to_string(),
        _ => near(1),
    };
    let n = tier.pick(2, 3);
    let per = seq_count(4, 0, n);
    let total = per.pow(3) * 2;
    vec![Space::new(
        "model-groups",
        format!("every content of 0..={n} lines (two novel, variants of one, known) of three of four logs in two groups with different baselines, through Model::train, report and Index::inspect"),
        total,
        move |i| {
            let logs: Vec<Vec<String>> = (0..3usize).map(|k| seq_decode(i / 2 / per.pow(k as u32) % per, 4, 0, n).iter().map(|&x| menu(if k == 2 { (x + 3) % 5 } else { x })).collect()).collect();
            json!({"logs": logs, "layout": i % 2})
        },
        move |i, ctx| {
            let root = ctx.clean_scratch();
            // far(3) is known to the second group only, KNOWN to both
            put(&root, "base/g1/a.log", base_lines().join("\n").as_bytes());
            put(&root, "base/g2/b.log", [KNOWN.to_string(), far(3)].join("\n").as_bytes());
            put(&root, "base/c.log", KNOWN.as_bytes());
            let mut logs: Vec<(&str, Vec<String>)> = vec![];
            for k in 0..3usize {
                let name = if i % 2 == 0 { FILES[k] } else { FILES[k + 1] };
                let lines: Vec<String> = seq_decode(i / 2 / per.pow(k as u32) % per, 4, 0, n).iter().map(|&x| menu(if k == 2 { (x + 3) % 5 } else { x })).collect();
                put(&root, &format!("target/{name}"), lines.join("\n").as_bytes());
                logs.push((name, lines));
            }
            let model = train(vec![input(&root.join("base"))?])?;
            let target = input(&root.join("target"))?;
            let order: Vec<String> = target.get_sources().map_err(|e| Fail::new("sources", format!("{e:#}")))?.iter().map(|s| s.get_relative().trim_start_matches('/').to_string()).collect();
            let r = report(&model, target.clone())?;
            ensure!(r.read_errors.is_empty() && r.index_errors.is_empty(), "groups", "{}", summary(&r));
            let mut exp = BTreeSet::new();
            for (dir, base) in [("g1/", base_lines()), ("g2/", vec![KNOWN.to_string(), far(3)]), ("c.", vec![KNOWN.to_string()])] {
                let rf = Ref::new(&base);
                let mut seen = HashSet::new();
                for o in order.iter().filter(|o| o.starts_with(dir)) {
                    let lines = &logs.iter().find(|l| l.0 == o).unwrap().1;
                    for (p, d) in rf.novel(lines, &mut seen) {
                        exp.insert((root.join("target").join(o).to_str().unwrap().to_string(), p + 1, lines[p].clone(), (d * 1e3).round() as u32));
                    }
                }
            }
            let got: BTreeSet<_> = r.log_reports.iter().flat_map(|l| l.anomalies.iter().map(move |a| (l.source.as_str().to_string(), a.anomaly.pos, a.anomaly.line.clone(), (a.anomaly.distance * 1e3).round() as u32))).collect();
            ensure!(got == exp, "groups", "reported {got:?}, expected {exp:?}");
            // the same through the iterator used by the command line
            let mut live = BTreeSet::new();
            for (name, sources) in Content::group_sources(&[target]).map_err(|e| Fail::new("groups", format!("{e:#}")))? {
                let mut seen = HashSet::new();
                let index = model.get_index(&name).ok_or_else(|| Fail::new("groups", format!("no index {name}")))?;
                for s in sources {
                    for a in index.inspect(OutputMode::Quiet, &s, &mut seen) {
                        let a = a.map_err(|e| Fail::new("groups", format!("{e:#}")))?;
                        live.insert((s.as_str().to_string(), a.anomaly.pos, a.anomaly.line.clone(), (a.anomaly.distance * 1e3).round() as u32));
                    }
                }
            }
            ensure!(live == exp, "groups-live", "inspected {live:?}, expected {exp:?}");
            ctx.evals(2);
            ctx.step(3);
            ctx.state(i);
            ctx.outcome(exp.len());
            if exp.len() > 1 {
                ctx.nontrivial(i);
            }
            Ok(())
        },
    )]
}

// ------------------------------------------------------------------------------------------------ C14

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Absent,
    Clean,
    Novel,
    Empty,
    BadFirst,
    NovelThenBad,
    CannotOpen,
    ReadErr,
    NovelThenReadErr,
    LongThenBad,
    DamagedGz,
    GzNovel,
}
const ST: [St; 12] =
    [St::Absent, St::Clean, St::Novel, St::Empty, St::BadFirst, St::NovelThenBad, St::CannotOpen, St::ReadErr, St::NovelThenReadErr, St::LongThenBad, St::DamagedGz, St::GzNovel];

struct Log {
    rel: String,
    /// The lines that can be read.
    lines: Vec<String>,
    fails: bool,
    /// Injected failure: open errno, or read errno once so many bytes were given.
    open_err: bool,
    read_err: Option<usize>,
}

fn make(dir: &Path, rel: &str, st: St, salt: usize) -> Option<Log> {
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    // far(900) occurs in every log: it is reported once per group
    let novel = vec![KNOWN.to_string(), far(salt * 10), near(salt), far(salt * 10 + 1), KNOWN.to_string(), near(salt + 100), far(900), near(salt + 101)];
    let mut log = Log { rel: rel.to_string(), lines: vec![], fails: false, open_err: false, read_err: None };
    let text = |l: &[String]| l.join("\n") + "\n";
    match st {
        St::Absent => return None,
        St::Clean => log.lines = s(&[KNOWN, KNOWN]),
        St::Empty => {}
        St::Novel | St::GzNovel => log.lines = novel,
        St::BadFirst => log.fails = true,
        St::NovelThenBad | St::NovelThenReadErr => {
            log.lines = novel;
            log.fails = true;
        }
        St::LongThenBad => {
            log.lines = (0..700).map(|k| if k % 97 == 50 { far(salt * 100 + k) } else { near(k + 1) }).collect();
            log.fails = true;
        }
        St::CannotOpen | St::ReadErr | St::DamagedGz => log.fails = true,
    }
    let mut data = if log.lines.is_empty() { vec![] } else { text(&log.lines).into_bytes() };
    let good = data.len();
    if matches!(st, St::BadFirst | St::NovelThenBad | St::LongThenBad) {
        data.extend_from_slice(b"bad \xff\xfe line\n");
        data.extend_from_slice(text(&[KNOWN.to_string()]).as_bytes());
    }
    if matches!(st, St::CannotOpen | St::ReadErr | St::NovelThenReadErr) {
        data.extend_from_slice(text(&[far(salt * 10 + 5)]).as_bytes());
    }
    match st {
        St::CannotOpen => log.open_err = true,
        St::ReadErr => log.read_err = Some(0),
        St::NovelThenReadErr => log.read_err = Some(good),
        _ => {}
    }
    if matches!(st, St::GzNovel | St::DamagedGz) {
        log.rel.push_str(".gz");
    }
    let p = dir.join(&log.rel);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    let bytes = match st {
        St::GzNovel => gz(&data, 6),
        St::DamagedGz => b"this is not gzip data at all\n".to_vec(),
        _ => data,
    };
    std::fs::write(p, bytes).unwrap();
    Some(log)
}

/// Runs `f` with the failures the logs ask for.
fn with_faults<R>(dir: &Path, logs: &[Log], f: impl FnOnce() -> R) -> R {
    let open: Vec<PathBuf> = logs.iter().filter(|l| l.open_err).map(|l| dir.join(&l.rel)).collect();
    let read: Vec<(PathBuf, usize)> = logs.iter().filter_map(|l| l.read_err.map(|n| (dir.join(&l.rel), n))).collect();
    interpose::with_hook(
        dir,
        move |op| match op.kind {
            Kind::Open | Kind::Create if open.iter().any(|p| p == op.path) => Act::Err(libc::EACCES),
            Kind::Read => match read.iter().find(|(p, _)| p == op.path) {
                Some((_, n)) if op.done >= *n => Act::Err(libc::EIO),
                Some((_, n)) => Act::Short(*n - op.done),
                None => Act::Go,
            },
            _ => Act::Go,
        },
        f,
    )
}

pub fn c14(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    // g1/a.log and g1/a.log.1 share a group, g2/b.log has another one, g3/c.log has none
    const FILES: [&str; 4] = ["g1/a.log", "g1/a.log.1", "g2/b.log", "g3/c.log"];
    let k = ST.len() as u64;
    let unknown: &'static [St] = &[St::Absent, St::Novel, St::CannotOpen];
    let total = k * k * tier.pick(6, k) * 3 * 2;
    let decode = move |i: u64| {
        let mut d = Dec(i);
        let a = *d.pick(&ST);
        let b = *d.pick(&ST);
        let single = d.take(2) == 1;
        let u = *d.pick(unknown);
        let quick: [St; 6] = [St::Absent, St::Clean, St::Novel, St::NovelThenBad, St::CannotOpen, St::DamagedGz];
        let c = if tier == Tier::Quick { quick[d.take(6)] } else { ST[d.take(k)] };
        ([a, b, c, u], single)
    };
    v.push(Space::new(
        "states",
        "every assignment of 12 file states (absent, clean, novel, empty, undecodable at once / later / after a batch, cannot be opened, cannot be read at once / later, damaged gzip, gzip) to two logs of a group, a log of a second group and a log without baseline; model with two groups and with one",
        total,
        move |i| json!({"states": FILES.iter().zip(decode(i).0).map(|(f, s)| format!("{f}: {s:?}")).collect::<Vec<_>>(), "single_index": decode(i).1}),
        move |i, ctx| {
            let (st, single) = decode(i);
            let root = ctx.clean_scratch();
            let (base, dir) = (root.join("base"), root.join("target"));
            std::fs::create_dir_all(&dir).unwrap();
            put(&base, "g1/a.log", base_lines().join("\n").as_bytes());
            if !single {
                put(&base, "g2/b.log", base_lines().join("\n").as_bytes());
            }
            let logs: Vec<Log> = FILES.iter().zip(st).enumerate().filter_map(|(n, (f, s))| make(&dir, f, s, n + 1)).collect();
            let model = train(vec![input(&base)?])?;
            let target = input(&dir)?;
            ctx.eval();
            ctx.state(i);
            ctx.step(logs.len() as u64);
            if logs.is_empty() {
                ensure!(model.report(OutputMode::Quiet, target).is_err(), "empty", "a target without any log gives a report");
                return Ok(());
            }
            let order: Vec<String> = target.get_sources().map_err(|e| Fail::new("sources", format!("{e:#}")))?.iter().map(|s| s.get_relative().trim_start_matches('/').to_string()).collect();
            let r = with_faults(&dir, &logs, || model.report(OutputMode::Quiet, target)).map_err(|e| Fail::new("report", format!("report failed: {e:#}")))?;
            if logs.iter().filter(|l| l.fails).count() > 0 && logs.len() > 1 {
                ctx.nontrivial(i);
            }
            ctx.outcome((r.log_reports.len(), r.read_errors.len(), r.index_errors.len(), r.total_line_count));
            check_report(&r, &logs, &order, single, &base)
        },
    ));
    // a single file given by its path
    v.push(Space::new(
        "single",
        "a single file as target in each of the 12 states (absent: deleted after it was chosen) with a model of one and two groups",
        k * 2,
        move |i| json!({"state": format!("{:?}", ST[(i % k) as usize]), "groups": 1 + i / k}),
        move |i, ctx| {
            let st = ST[(i % k) as usize];
            let root = ctx.clean_scratch();
            let (base, dir) = (root.join("base"), root.join("target"));
            std::fs::create_dir_all(&dir).unwrap();
            put(&base, "g1/a.log", base_lines().join("\n").as_bytes());
            if i / k == 1 {
                put(&base, "g2/b.log", base_lines().join("\n").as_bytes());
            }
            let model = train(vec![input(&base)?])?;
            // given by its path, the group name keeps the parent directory
            let log = make(&dir, "g1/a.log", st, 1).unwrap_or(Log { rel: "g1/a.log".into(), lines: vec![], fails: true, open_err: false, read_err: None });
            let target = Content::from_pathbuf(dir.join(&log.rel));
            let logs = [log];
            let r = with_faults(&dir, &logs, || model.report(OutputMode::Quiet, target)).map_err(|e| Fail::new("report", format!("report failed: {e:#}")))?;
            ctx.eval();
            ctx.step(1);
            ctx.state(i);
            ctx.nontrivial(i);
            check_report(&r, &logs, &[logs[0].rel.clone()], i / k == 0, &base)
        },
    ));
    // numbers of groups, logs and anomalies
    let mut cases: Vec<(usize, usize, usize, [usize; 3])> = vec![];
    for known in [0, 1, 2, 3] {
        for unknown in 0..4 {
            for logs in 1..=3 {
                for p in 0..64 {
                    cases.push((known, unknown, logs, [p % 4, p / 4 % 4, p / 16]));
                }
            }
        }
    }
    for (known, unknown, logs) in [(1, 0, 300), (2, 300, 1), (300, 2, 1), (70, 70, 2), (2, 1, 60), (33, 0, 12)] {
        for p in [[1, 0, 0], [2, 1, 1], [0, 1, 2]] {
            cases.push((known, unknown, logs, p));
        }
    }
    // many anomalies in a log
    for n in [64, 65, 127, 129, 255, 257, 512, 513, 1000, 1025, 4097, 9001, 12_001, 70_001] {
        cases.push((2, 1, 2, [n, 1, 0]));
    }
    let cases: &'static [(usize, usize, usize, [usize; 3])] = cases.leak();
    v.push(
        Space::new(
            "numbers",
            "0..3 groups with and 0..3 without baseline x 1..3 logs each x every number a+b*group+c*log (mod 4) of novel lines in a log; up to 300 groups or logs, up to 70001 novel lines in a log",
            cases.len() as u64,
            move |i| json!({"groups": cases[i as usize].0, "unknown_groups": cases[i as usize].1, "logs": cases[i as usize].2, "novel": cases[i as usize].3.to_vec()}),
            move |i, ctx| {
                let (known, unknown, per, p) = cases[i as usize];
                let root = ctx.clean_scratch();
                let (base, dir) = (root.join("base"), root.join("target"));
                std::fs::create_dir_all(&dir).unwrap();
                // two groups of the baseline that the target does not have: never a model of one group
                let name = |g: usize| format!("x{}", super::proc::word(g));
                for g in (0..known).chain([9000, 9001]) {
                    put(&base, &format!("{}/a.log", name(g)), base_lines().join("\n").as_bytes());
                }
                let mut logs = vec![];
                for g in 0..known + unknown {
                    for j in 0..per {
                        let n = if p[0] >= 4 { if g == 0 && j == 0 { p[0] } else { p[1] } } else { (p[0] + p[1] * g + p[2] * j) % 4 };
                        let mut lines = vec![KNOWN.to_string()];
                        for k in 0..n {
                            let id = (g * per + j) * n + k;
                            lines.push(format!("{} {} {} {}", super::proc::word(id % 38416), super::proc::word(id / 38416), super::proc::word(g * 3), super::proc::word(j * 3 + 1)));
                        }
                        lines.push(near(j));
                        let rel = if j == 0 { format!("{}/a.log", name(g)) } else { format!("{}/a.log.{j}", name(g)) };
                        put(&dir, &rel, (lines.join("\n") + "\n").as_bytes());
                        logs.push(Log { rel, lines, fails: false, open_err: false, read_err: None });
                    }
                }
                let model = train(vec![input(&base)?])?;
                let target = input(&dir)?;
                ctx.eval();
                ctx.state(i);
                ctx.step(logs.len() as u64);
                if logs.is_empty() {
                    return Ok(());
                }
                let order: Vec<String> = target.get_sources().map_err(|e| Fail::new("sources", format!("{e:#}")))?.iter().map(|s| s.get_relative().trim_start_matches('/').to_string()).collect();
                let r = report(&model, target)?;
                ctx.outcome((r.log_reports.len(), r.index_errors.len(), r.total_anomaly_count));
                ctx.nontrivial(i);
                let group = |rel: &str| rel.split('/').next().unwrap().to_string();
                let have: Vec<String> = (0..known).map(name).collect();
                let base = base.clone();
                check_grouped(&r, &logs, &order, &group, &|rel| have.contains(&group(rel)).then(|| base.join(group(rel)).join("a.log").to_str().unwrap().to_string()))
            },
        )
        .timeout(300),
    );
    // names of the logs
    const NAMED: [&str; 16] = ["a.log.gz", "_/a.gz", "123", "456.7", "8/9", "-", "_.gz.1", "a.log", "a.log.1", "x/0123456/a.log", "pod/zuul-a-b.log", "\u{e9}\u{e9}", "\u{65e5}/\u{672c}.log", "sp ace/a b", "0a1b2c3/4", "."];
    let pairs: Vec<Vec<&'static str>> = {
        let f: Vec<&'static str> = NAMED[..15].to_vec();
        let mut v: Vec<Vec<&'static str>> = f.iter().map(|x| vec![*x]).collect();
        for (a, x) in f.iter().enumerate() {
            for (b, y) in f.iter().enumerate().skip(a + 1) {
                v.push(vec![x, y]);
                v.extend(f.iter().skip(b + 1).map(|z| vec![*x, *y, *z]));
            }
        }
        v
    };
    let p2 = pairs.clone();
    let n = pairs.len() as u64;
    v.push(Space::new(
        "names",
        "every target of 1..=3 logs out of 15 names (plain and compressed, digits only, symbols only, multi-byte, spaces, build ids, pods) x baselines for the group of the first, of the last, of both: novel and known lines in each log",
        n * 3,
        move |i| json!({"logs": p2[(i % n) as usize], "baselines": (["first", "last", "both"])[(i / n) as usize]}),
        move |i, ctx| {
            let files = &pairs[(i % n) as usize];
            let which = i / n;
            let root = ctx.clean_scratch();
            let (base, dir) = (root.join("base"), root.join("target"));
            let group = |rel: &str| idx(rel);
            let mut have: BTreeMap<String, String> = BTreeMap::new();
            // a group of its own, so that the model never has just one
            put(&base, "elsewhere/unrelated.txt", b"unrelated\n");
            for f in [files[0], files[files.len() - 1]].iter().enumerate().filter(|(k, _)| which == 2 || which == *k as u64).map(|x| x.1) {
                if have.insert(group(f), base.join(f).to_str().unwrap().to_string()).is_none() {
                    let text = base_lines().join("\n").into_bytes();
                    put(&base, f, &text);
                } else {
                    have.insert(group(f), base.join(files[0]).to_str().unwrap().to_string());
                }
            }
            let mut logs = vec![];
            for (k, f) in files.iter().enumerate() {
                let lines = vec![KNOWN.to_string(), far(3 * k + 1), near(k), far(3 * k + 2)];
                let text = (lines.join("\n") + "\n").into_bytes();
                put(&dir, f, &text);
                logs.push(Log { rel: f.to_string(), lines, fails: false, open_err: false, read_err: None });
            }
            let model = train(vec![input(&base)?])?;
            let target = input(&dir)?;
            let order: Vec<String> = target.get_sources().map_err(|e| Fail::new("sources", format!("{e:#}")))?.iter().map(|s| s.get_relative().trim_start_matches('/').to_string()).collect();
            let r = report(&model, target)?;
            ctx.eval();
            ctx.step(logs.len() as u64);
            ctx.state(i);
            ctx.nontrivial(i);
            ctx.outcome((r.log_reports.len(), r.index_errors.len()));
            check_grouped(&r, &logs, &order, &group, &|rel| have.get(&group(rel)).cloned())
        },
    ));
    // what the baselines are made of: the logs only have lines that none of them knows
    const BASES: [&str; 9] = ["known lines", "empty", "one line feed", "blank lines", "no words", "600 lines", "nothing readable", "unreadable after known lines", "empty gz"];
    let per = 9u64 * 9;
    v.push(Space::new(
        "baselines",
        format!("every pair of baselines out of {BASES:?} for two groups, model with two groups and with one, x 0..=2 novel lines in a log of each group, twice"),
        per * 9 * 2,
        move |i| {
            let mut d = Dec(i);
            let (a, b, x, y) = (d.take(9), d.take(9), d.take(3), d.take(3));
            json!({"g1": BASES[a], "g2": BASES[b], "novel_g1": x, "novel_g2": y, "single_index": d.take(2) == 1})
        },
        move |i, ctx| {
            let mut d = Dec(i);
            let (a, b, x, y) = (d.take(9), d.take(9), d.take(3), d.take(3));
            let single = d.take(2) == 1;
            let root = ctx.clean_scratch();
            let (base, dir) = (root.join("base"), root.join("target"));
            let lay = |rel: &str, k: usize| match k {
                0 => put(&base, rel, base_lines().join("\n").as_bytes()),
                1 => put(&base, rel, b""),
                2 => put(&base, rel, b"\n"),
                3 => put(&base, rel, &b"\n".repeat(700)),
                4 => put(&base, rel, b"--- 12:13 ***\n2022-10-01 - 77\n"),
                5 => put(&base, rel, (0..600).map(|k| near(k) + "\n").collect::<String>().as_bytes()),
                6 => put(&base, rel, b"\xff\xff\n"),
                7 => put(&base, rel, &[base_lines().join("\n").as_bytes(), b"\n\xff\xff\n"].concat()),
                _ => put(&base, rel, b""),
            };
            lay(if a == 8 { "g1/a.log.gz" } else { "g1/a.log" }, a);
            if !single {
                lay(if b == 8 { "g2/b.log.gz" } else { "g2/b.log" }, b);
            }
            let mut logs = vec![];
            for (k, (rel, n)) in [("g1/a.log", x), ("g1/a.log.1", x), ("g2/b.log", y), ("g3/c.log", y)].into_iter().enumerate() {
                let lines: Vec<String> = (0..n).map(|j| far(10 * k + 3 * j)).collect();
                put(&dir, rel, lines.iter().map(|l| format!("{l}\n")).collect::<String>().as_bytes());
                logs.push(Log { rel: rel.to_string(), lines, fails: false, open_err: false, read_err: None });
            }
            let model = train(vec![input(&base)?])?;
            let target = input(&dir)?;
            ctx.eval();
            ctx.step(4);
            ctx.state(i);
            let order: Vec<String> = target.get_sources().map_err(|e| Fail::new("sources", format!("{e:#}")))?.iter().map(|s| s.get_relative().trim_start_matches('/').to_string()).collect();
            let r = report(&model, target)?;
            ctx.outcome((r.log_reports.len(), r.read_errors.len(), r.index_errors.len(), r.total_line_count));
            if x + y > 0 {
                ctx.nontrivial(i);
            }
            let name = |g: &str, f: &str, k: usize| base.join(g).join(if k == 8 { format!("{f}.gz") } else { f.to_string() }).to_str().unwrap().to_string();
            check_grouped(&r, &logs, &order, &|rel| rel[..2].to_string(), &|rel| match &rel[..3] {
                "g2/" if !single => Some(name("g2", "b.log", b)),
                "g1/" => Some(name("g1", "a.log", a)),
                _ if single => Some(name("g1", "a.log", a)),
                _ => None,
            })
        },
    ));
    v
}

fn check_report(r: &Report, logs: &[Log], order: &[String], single: bool, base: &Path) -> Res {
    let source = |rel: &str| match &rel[..3] {
        "g2/" if !single => Some("g2/b.log"),
        "g1/" => Some("g1/a.log"),
        _ if single => Some("g1/a.log"),
        _ => None,
    };
    let group = |rel: &str| rel[..2].to_string();
    check_grouped(r, logs, order, &group, &|rel| source(rel).map(|x| base.join(x).to_str().unwrap().to_string()))
}

/// `group`: the group of a log; `source`: the baseline of that group.
fn check_grouped(r: &Report, logs: &[Log], order: &[String], group: &dyn Fn(&str) -> String, source: &dyn Fn(&str) -> Option<String>) -> Res {
    let reference = Ref::new(&base_lines());
    let rel = |s: &Source| {
        let s = s.as_str();
        let at = s.find("/target/").map(|x| x + 8).unwrap_or(0);
        s[at..].to_string()
    };
    let mut lines_total = 0;
    let mut anomalies_total = 0;
    let mut groups: BTreeMap<String, HashSet<String>> = BTreeMap::new();
    for name in order {
        let l = logs.iter().find(|l| &l.rel == name).ok_or_else(|| Fail::new("sources", format!("unexpected source {name}")))?;
        let known = source(&l.rel).is_some();
        let in_errors = r.read_errors.iter().filter(|(s, _)| rel(s) == l.rel).count();
        let in_unknown = r.index_errors.iter().flatten().filter(|s| rel(s) == l.rel).count();
        let reports: Vec<_> = r.log_reports.iter().filter(|x| rel(&x.source) == l.rel).collect();
        let what = format!("log {} ({} readable lines, fails: {}): {}", l.rel, l.lines.len(), l.fails, summary(r));
        if !known {
            ensure!(in_errors == 0 && reports.is_empty() && in_unknown == 1, "unknown", "not listed exactly once as without baseline: {what}");
            continue;
        }
        ensure!(in_unknown == 0, "known", "listed as without baseline: {what}");
        ensure!(in_errors == l.fails as usize, "read-error", "read error listed {in_errors} times: {what}");
        if let Some((_, e)) = r.read_errors.iter().find(|(s, _)| rel(s) == l.rel) {
            ensure!(!e.is_empty(), "read-error", "empty error: {what}");
        }
        // what is repeated between the logs of a group is only reported in the first one
        let seen = groups.entry(group(&l.rel)).or_default();
        let exp = if l.open_err { vec![] } else { reference.novel(&l.lines, seen) };
        let idx: Vec<usize> = exp.iter().map(|x| x.0).collect();
        let ctxs = contexts(&idx, l.lines.len());
        if exp.is_empty() {
            ensure!(reports.is_empty(), "spurious", "anomalies reported: {what}");
        } else {
            ensure!(reports.len() == 1, "lost", "{} anomalies expected, {} entries: {what}", exp.len(), reports.len());
            let lr = reports[0];
            let got: Vec<_> = lr.anomalies.iter().map(|a| (a.anomaly.pos - 1, a.anomaly.line.clone(), a.before.clone(), a.after.clone())).collect();
            let want: Vec<_> = idx.iter().zip(&ctxs).map(|(&p, (b, a))| (p, l.lines[p].clone(), l.lines[b.clone()].to_vec(), l.lines[a.clone()].to_vec())).collect();
            ensure!(got == want, "content", "got {got:?}, expected {want:?}");
            ensure_eq!(lr.line_count, l.lines.len(), "line-count", "{what}");
            ensure_eq!(lr.byte_count, l.lines.iter().map(|x| x.len()).sum::<usize>(), "byte-count", "{what}");
            let ir = r.index_reports.get(&lr.index_name).ok_or_else(|| Fail::new("index-ref", format!("entry refers to index {} which the report does not describe: {what}", lr.index_name)))?;
            let src: Vec<String> = ir.sources.iter().map(|s| s.as_str().to_string()).collect();
            ensure_eq!(src, vec![source(&l.rel).unwrap()], "index-sources", "sources of the index: {what}");
            anomalies_total += exp.len();
        }
        if !l.open_err {
            lines_total += l.lines.len();
        }
    }
    ensure_eq!(order.len(), logs.len(), "sources", "sources found {order:?}");
    ensure_eq!(r.total_anomaly_count, anomalies_total, "total", "total anomalies");
    ensure_eq!(r.total_line_count, lines_total, "total-lines", "total lines");
    let extra = r.log_reports.iter().map(|x| rel(&x.source)).chain(r.read_errors.iter().map(|x| rel(&x.0))).chain(r.index_errors.iter().flatten().map(rel)).find(|x| !order.contains(x));
    ensure!(extra.is_none(), "foreign", "the report mentions {extra:?}");
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C15

const EXCLUDED: [&str; 29] = [
    ".ico", ".png", ".clf", ".tar", ".tar.bzip2", ".subunit", ".sqlite", ".db", ".bin", ".pcap.log.txt", ".eot", ".otf", ".woff", ".woff2", ".ttf", ".yaml", ".ini", ".conf",
    "job-output.json", "log-classify.json", "zuul-manifest.json", ".html", "cacerts", "local/creds", "pacemaker/authkey", "mysql/tc.log.txt", "corosync/authkey", "object.builder",
    "account.builder",
];
const EXCLUDED2: [&str; 1] = ["container.builder"];

fn excluded(path: &str) -> bool {
    EXCLUDED.iter().chain(EXCLUDED2.iter()).any(|e| path.ends_with(e) || path.ends_with(&format!("{e}.gz"))) || path.contains("/etc/")
}

#[derive(Clone, Debug)]
enum Ent {
    File(&'static [u8]),
    Dir(&'static [u8]),
    Link(&'static [u8], &'static str),
    Fifo(&'static [u8]),
}

fn menu15() -> Vec<Ent> {
    use Ent::*;
    vec![
        File(b"a.log"),
        File(b"a.log.1"),
        File(b"noext"),
        File(b"with space.log"),
        File("h\u{e9}\u{2026}.log".as_bytes()),
        File(b"\xff\xfe.log"),
        File(b".hidden"),
        File(b"dot."),
        File(b"x.png"),
        File(b"x.png.gz"),
        File(b"x.pngx"),
        File(b"job-output.json"),
        File(b"job-output.json.txt"),
        File(b"my-zuul-manifest.json.gz"),
        File(b"etc"),
        File(b"123"),
        File(b"sub/a.log"),
        File(b"sub/etc/x.log"),
        File(b"etc/passwd"),
        File(b"sub/etcetera/x.log"),
        File(b"sub/deep/er/y.txt"),
        File(b"s\xfftrange/z.log"),
        File(b"local/creds"),
        File(b"xlocal/creds"),
        File(b"dir.png/inside.log"),
        Dir(b"empty"),
        Dir(b"x.log.d"),
        Link(b"link.log", "a.log"),
        Link(b"dirlink", "sub"),
        Link(b"dangling", "nowhere"),
        Fifo(b"pipe.log"),
    ]
}

fn make_ent(dir: &Path, e: &Ent) {
    use std::os::unix::ffi::OsStrExt;
    let p = |n: &[u8]| dir.join(std::ffi::OsStr::from_bytes(n));
    match e {
        Ent::File(n) => {
            std::fs::create_dir_all(p(n).parent().unwrap()).unwrap();
            let text = b"known quiet line seen again\n";
            std::fs::write(p(n), if n.ends_with(b".gz") { gz(text, 6) } else { text.to_vec() }).unwrap();
        }
        Ent::Dir(n) => std::fs::create_dir_all(p(n)).unwrap(),
        Ent::Link(n, t) => std::os::unix::fs::symlink(t, p(n)).unwrap(),
        Ent::Fifo(n) => {
            let c = std::ffi::CString::new(p(n).as_os_str().as_bytes()).unwrap();
            assert_eq!(unsafe { libc::mkfifo(c.as_ptr(), 0o600) }, 0);
        }
    }
}

fn check_sources(root: &Path, spelled: &str, ents: &[Ent], ctx: &mut Ctx) -> Res {
    use std::os::unix::ffi::{OsStrExt, OsStringExt};
    let mut exp: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut bad_names = 0;
    for e in ents {
        if let Ent::File(n) = e {
            let full = [root.as_os_str().as_bytes(), b"/", n].concat();
            match std::str::from_utf8(&full) {
                Ok(s) if excluded(s) => continue,
                Err(_) => bad_names += 1,
                _ => {}
            }
            exp.insert(n.to_vec());
        }
    }
    let c = Content::from_input(Input::from_string(spelled.to_string())).map_err(|e| Fail::new("input", format!("{e:#}")))?;
    ensure!(matches!(c, Content::Directory(_)), "kind", "{spelled} is {c}");
    let got = c.get_sources();
    ctx.eval();
    ctx.step(ents.len() as u64);
    if exp.is_empty() {
        ensure!(got.is_err(), "empty", "an empty selection gives {:?}", got.map(|v| v.len()));
        ensure!(Model::train(OutputMode::Quiet, vec![c], hashing_index::new).is_err(), "empty", "training on an empty selection succeeds");
        return Ok(());
    }
    let got = got.map_err(|e| Fail::new("sources", format!("{ents:?}: {e:#}")))?;
    let mut found: Vec<Vec<u8>> = vec![];
    for s in &got {
        let Source::Local(_, p) = s else { return Err(Fail::new("sources", "not a local source")) };
        let r = p.strip_prefix(root).map_err(|_| Fail::new("sources", format!("{p:?} is not below {root:?}")))?;
        let r = r.to_path_buf().into_os_string().into_vec();
        let shown = format!("{s}");
        if let Ok(text) = std::str::from_utf8(&r) {
            ensure_eq!(s.get_relative().trim_start_matches('/'), text, "relative", "relative name below {spelled}");
            ensure!(shown.ends_with(text), "display", "display {shown:?} of {text:?}");
            let _ = s.is_json();
        }
        found.push(r);
    }
    found.sort();
    let exp: Vec<Vec<u8>> = exp.into_iter().collect();
    let lossy = |v: &[Vec<u8>]| v.iter().map(|x| String::from_utf8_lossy(x).into_owned()).collect::<Vec<_>>();
    ensure!(found == exp, "sources", "sources {:?}, expected {:?}", lossy(&found), lossy(&exp));
    let groups = Content::group_sources(&[c.clone()]).map_err(|e| Fail::new("group", format!("{e:#}")))?;
    ensure_eq!(groups.values().map(|v| v.len()).sum::<usize>(), exp.len(), "group", "grouped sources");
    let m = train(vec![c.clone()])?;
    let r = report(&m, c)?;
    ensure!(r.read_errors.is_empty() && r.total_anomaly_count == 0 && r.index_errors.is_empty(), "report", "{}", summary(&r));
    ensure_eq!(r.total_line_count, exp.len(), "report", "inspected lines");
    if exp.len() > 1 || bad_names > 0 {
        ctx.nontrivial(h((&exp, spelled.len())));
    }
    ctx.outcome(exp.len());
    Ok(())
}

pub fn c15(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    let n = menu15().len();
    let maxn = tier.pick(3, 4);
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..maxn {
        let mut next = vec![];
        for s in &last {
            for k in s.last().map_or(0, |x| x + 1)..n {
                let mut t = s.clone();
                t.push(k);
                next.push(t);
            }
        }
        sets.extend(next.iter().cloned());
        last = next;
    }
    // "etc" as a file and as a directory exclude each other
    sets.retain(|s| !(s.contains(&14) && s.contains(&18)));
    let total = sets.len() as u64;
    let s2 = sets.clone();
    const SPELL: [&str; 4] = ["", "/", "/.", "//"];
    v.push(Space::new(
        "trees",
        format!("every set of 0..={maxn} entries out of {n} (names, nestings, undecodable names, links, fifo, directories) x 4 spellings of the root"),
        total * 4,
        move |i| json!({"entries": s2[(i / 4) as usize].iter().map(|&k| format!("{:?}", menu15()[k])).collect::<Vec<_>>(), "root": format!("DIR{}", SPELL[(i % 4) as usize])}),
        move |i, ctx| {
            let root = ctx.clean_scratch().join("logs");
            std::fs::create_dir_all(&root).unwrap();
            let m = menu15();
            let ents: Vec<Ent> = sets[(i / 4) as usize].iter().map(|&k| m[k].clone()).collect();
            ents.iter().for_each(|e| make_ent(&root, e));
            ctx.state(i);
            check_sources(&root, &format!("{}{}", root.to_str().unwrap(), SPELL[(i % 4) as usize]), &ents, ctx)
        },
    ));
    // depths, widths and long names
    let mut shapes: Vec<(usize, usize, usize, bool)> = vec![];
    for depth in [0, 1, 2, 3, 5, 8, 9, 10, 11, 12, 15, 16, 17, 19, 20, 21, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 400] {
        for len in [1usize, 7, 12] {
            for bushy in [false, true] {
                if depth * (len + 1) < 3500 {
                    shapes.push((depth, len, 1, bushy && depth < 140));
                }
            }
        }
    }
    for len in [60, 120, 200, 250] {
        for depth in [0, 1, 3] {
            shapes.push((depth, len, 1, true));
        }
    }
    for width in [9, 10, 11, 16, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2049, 4096, 4097, 5001] {
        if width > 1025 && tier == Tier::Quick && width != 4097 {
            continue;
        }
        shapes.push((1, 3, width, false));
    }
    let sh2 = shapes.clone();
    v.push(
        Space::new(
            "shapes",
            "files 0..400 directories deep (one, or one per level), names of 1..250 bytes, 9..5001 files in one directory",
            shapes.len() as u64,
            move |i| json!({"depth": sh2[i as usize].0, "name length": sh2[i as usize].1, "files": sh2[i as usize].2, "one per level": sh2[i as usize].3}),
            move |i, ctx| {
                let (depth, len, width, bushy) = shapes[i as usize];
                let root = ctx.clean_scratch().join("logs");
                std::fs::create_dir_all(&root).unwrap();
                let mut ents = vec![];
                let comp = "vwxyz-".chars().cycle().take(len).collect::<String>();
                let mut dir = String::new();
                for d in 0..=depth {
                    if d == depth || bushy {
                        for w in 0..width {
                            let mut tag = String::new();
                            let mut x = w;
                            for _ in 0..4 {
                                tag.push((b'g' + (x % 16) as u8) as char);
                                x /= 16;
                            }
                            let base = if len >= 60 { format!("{}.log", comp) } else { format!("{tag}.log") };
                            let name: &'static [u8] = Box::leak(format!("{dir}{base}").into_bytes().into_boxed_slice());
                            ents.push(Ent::File(name));
                        }
                    }
                    dir += &comp;
                    dir += "/";
                }
                ents.iter().for_each(|e| make_ent(&root, e));
                ctx.state(i);
                check_sources(&root, root.to_str().unwrap(), &ents, ctx)
            },
        )
        .timeout(300),
    );
    // names of the root
    const ROOTS: [&str; 14] = ["l", "\u{e9}", "\u{65e5}\u{672c}\u{8a9e}", "\u{1f600}x", "sp ace", "a.log", "x.png", "a.log.gz", "etc", "-", "123", "%41", "a?b#c", "\u{e9}/d\u{e9}p/l\u{f6}gs"];
    const BELOW: [&[u8]; 8] = [b"a.log", b"sub/a.log", b"\xc3\xa9", b"sub/\xe6\x97\xa5.log.gz", b"x", b"s/u/b", b"12", b"\xff.log"];
    v.push(Space::new(
        "roots",
        format!("below a root of {} names (1 to 4 byte characters, spaces, excluded suffixes, digits, url characters) spelled in 4 ways, every pair of {} files", ROOTS.len(), BELOW.len()),
        (14 * 4 * 64) as u64,
        move |i| {
            let mut d = Dec(i);
            let (r, s, a, b) = (d.take(14), d.take(4), d.take(8), d.take(8));
            json!({"root": format!("{}{}", ROOTS[r], SPELL[s]), "files": [String::from_utf8_lossy(BELOW[a]), String::from_utf8_lossy(BELOW[b])]})
        },
        move |i, ctx| {
            let mut d = Dec(i);
            let (r, s, a, b) = (d.take(14), d.take(4), d.take(8), d.take(8));
            // below a directory named etc every file is excluded
            let root = ctx.clean_scratch().join(ROOTS[r]);
            let mut ents = vec![Ent::File(BELOW[a])];
            if b != a {
                ents.push(Ent::File(BELOW[b]));
            }
            ents.iter().for_each(|e| make_ent(&root, e));
            ctx.state(i);
            check_sources(&root, &format!("{}{}", root.to_str().unwrap(), SPELL[s]), &ents, ctx)
        },
    ));
    // sizes, modes, times, hard links
    v.push(Space::new(
        "kinds of files",
        "every combination of size (0, 1, 8191, 8192, 8193, 1 MiB) x mode (0, 0400, 0644, 0755, 04755) x age (now, 1970, 2100) x hard-linked or not, beside an ordinary log",
        6 * 5 * 3 * 2,
        move |i| {
            let mut d = Dec(i);
            let (size, mode, age) = ([0, 1, 8191, 8192, 8193, 1 << 20][d.take(6)], ["0", "0400", "0644", "0755", "04755"][d.take(5)], ["now", "1970", "2100"][d.take(3)]);
            json!({"size": size, "mode": mode, "age": age, "hard link": d.take(2) == 1})
        },
        move |i, ctx| {
            use std::os::unix::fs::PermissionsExt;
            let mut d = Dec(i);
            let size = [0usize, 1, 8191, 8192, 8193, 1 << 20][d.take(6)];
            let mode = [0, 0o400, 0o644, 0o755, 0o4755][d.take(5)];
            let age = d.take(3);
            let hard = d.take(2) == 1;
            let root = ctx.clean_scratch().join("logs");
            std::fs::create_dir_all(root.join("sub")).unwrap();
            std::fs::write(root.join("ordinary.log"), "fine and well\n").unwrap();
            let p = root.join("sub/other.log");
            std::fs::write(&p, "known\n".bytes().cycle().take(size).collect::<Vec<u8>>()).unwrap();
            let mut exp = vec![root.join("ordinary.log"), p.clone()];
            if hard {
                std::fs::hard_link(&p, root.join("sub/zwin.log")).unwrap();
                exp.push(root.join("sub/zwin.log"));
            }
            if age > 0 {
                let t = [0i64, 4102444800][age - 1];
                let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
                let tv = [libc::timeval { tv_sec: t, tv_usec: 0 }; 2];
                assert_eq!(unsafe { libc::utimes(c.as_ptr(), tv.as_ptr()) }, 0);
            }
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(mode)).unwrap();
            let c = Content::from_input(Input::from_pathbuf(root.clone())).map_err(|e| Fail::new("input", format!("{e:#}")))?;
            let got = c.get_sources();
            ctx.eval();
            ctx.step(3);
            ctx.state(i);
            ctx.nontrivial(i);
            let got = got.map_err(|e| Fail::new("sources", format!("{e:#}")))?;
            let mut got: Vec<PathBuf> = got.iter().map(|s| match s { Source::Local(_, p) => p.clone(), Source::Remote(_, u) => PathBuf::from(u.as_str()) }).collect();
            got.sort();
            ensure_eq!(got, exp, "sources", "sources");
            Ok(())
        },
    ));
    // each excluded suffix, alone and with neighbours
    let all: Vec<&'static str> = EXCLUDED.iter().chain(EXCLUDED2.iter()).copied().collect();
    let forms = 16u64;
    let name = move |i: u64| -> String {
        let e = all[(i / forms) as usize];
        match i % forms {
            0 => format!("x{e}"),
            1 => format!("x{e}.gz"),
            2 => format!("x{e}.txt"),
            3 => format!("sub/y{e}"),
            4 => e.to_string(),
            5 => format!("x{e}.1"),
            6 => format!("x{e}.gz.gz"),
            7 => format!("X{}", e.to_uppercase()),
            8 => format!("x{e}.GZ"),
            9 => format!("x{}", &e[1..]),
            10 => format!("x{}", &e[..e.len() - 1]),
            11 => format!("dir{e}/in.log"),
            12 => format!("x{e}.bz2"),
            13 => format!("x{e} "),
            14 => format!("x{}-{e}.log", &e[1..].replace('/', "-")),
            _ => format!("X{}{}.gz", &e[..1], e[1..2].to_uppercase() + &e[2..]),
        }
    };
    let name2 = name.clone();
    v.push(Space::new(
        "suffixes",
        "each of the 30 excluded suffixes in 16 forms (other cases, parts of it, inside the name, as a directory) next to an ordinary log",
        30 * forms,
        move |i| json!({"file": name2(i)}),
        move |i, ctx| {
            let root = ctx.clean_scratch().join("logs");
            let f: &'static [u8] = Box::leak(name(i).into_bytes().into_boxed_slice());
            let ents = vec![Ent::File(b"ordinary.log"), Ent::File(f)];
            ents.iter().for_each(|e| make_ent(&root, e));
            ctx.state(i);
            check_sources(&root, root.to_str().unwrap(), &ents, ctx)
        },
    ));
    // directories that look like etc
    const ETC: [&str; 9] = ["etc", "netc", "etcd", "ETC", "etc ", ".etc", "sub", "e", "etc.d"];
    let depth = tier.pick(2, 3);
    let total = seq_count(9, 0, depth) * 3;
    let file = move |i: u64| {
        let mut p: Vec<&str> = seq_decode(i / 3, 9, 0, depth).iter().map(|&x| ETC[x]).collect();
        p.push(["etc", "x.log", "etc.log"][(i % 3) as usize]);
        p.join("/")
    };
    v.push(Space::new(
        "etc",
        format!("files below every path of 0..={depth} directories named {ETC:?}, next to an ordinary log"),
        total,
        move |i| json!({"file": file(i)}),
        move |i, ctx| {
            let root = ctx.clean_scratch().join("logs");
            let f: &'static [u8] = Box::leak(file(i).into_bytes().into_boxed_slice());
            let ents = vec![Ent::File(b"ordinary.log"), Ent::File(f)];
            ents.iter().for_each(|e| make_ent(&root, e));
            ctx.state(i);
            check_sources(&root, root.to_str().unwrap(), &ents, ctx)
        },
    ));
    // characters of names
    let chars: Vec<char> = (1u32..0x180).chain([0x2028, 0x3000, 0xfeff, 0xfffd, 0x1f600]).filter_map(char::from_u32).filter(|c| *c != '/').collect();
    const PLACES: u64 = 12;
    let nchars = chars.len() as u64;
    let file = move |i: u64| -> String {
        let c = chars[(i / PLACES) as usize];
        match i % PLACES {
            0 if c == '.' => "...".into(),
            0 => format!("{c}"),
            1 => format!("{c}{c}{c}"),
            2 => format!("{c}x"),
            3 => format!("{c}{c}x"),
            4 => format!("x{c}"),
            5 => format!("x{c}{c}"),
            6 => format!("x{c}y"),
            7 => format!("x.log{c}1"),
            8 => format!("{c}{c}x/y.log"),
            9 => format!("x{c}/y.log"),
            10 => format!("s/x{c}{c}z/t/y.log"),
            _ => format!("s/{c}x{c}"),
        }
    };
    let file2 = file.clone();
    v.push(Space::new(
        "name characters",
        format!("{nchars} characters at {PLACES} places of the names of files and directories, next to an ordinary log"),
        nchars * PLACES,
        move |i| json!({"file": file2(i)}),
        move |i, ctx| {
            let root = ctx.clean_scratch().join("logs");
            let f: &'static [u8] = Box::leak(file(i).into_bytes().into_boxed_slice());
            let ents = vec![Ent::File(b"ordinary.log"), Ent::File(f)];
            ents.iter().for_each(|e| make_ent(&root, e));
            ctx.state(i);
            check_sources(&root, root.to_str().unwrap(), &ents, ctx)
        },
    ));
    // spellings of the root: relative to the working directory, through links
    const SPELLINGS: [(&str, &str); 20] = [
        ("", "logs"), ("", "logs/"), ("", "./logs"), ("", "./logs/"), ("", "logs/."), ("", ".//logs"), ("", "up/../logs"), ("logs", "."), ("logs", "./"), ("logs", "../logs"), ("logs/sub", ".."), ("logs/sub", "../"),
        ("", "link"), ("", "link/"), ("", "./link/."), ("", "up/link2"), ("up", "link2"), ("up", "../link"), ("up", "etc"), ("up", "./etc"),
    ];
    const UNDER: [&[u8]; 8] = [b"a.log", b"sub/a.log", b"\xc3\xa9.log", b"sub/etc/x.log", b"etc/x.log", b"x.png", b"s/u/b.json.gz", b"\xff.log"];
    v.push(Space::new(
        "root spellings",
        format!("{} spellings of a root (relative to 4 working directories, with . and .., through links in the same or another directory), with every set of 0..=2 of {} files, also seen below an absolute path", SPELLINGS.len(), UNDER.len()),
        20 * 64 * 2,
        move |i| {
            let mut d = Dec(i);
            let (s, a, b, abs) = (d.take(20), d.take(8), d.take(8), d.take(2));
            json!({"working directory": SPELLINGS[s].0, "root": SPELLINGS[s].1, "files": [String::from_utf8_lossy(UNDER[a]), String::from_utf8_lossy(UNDER[b])], "absolute": abs == 1})
        },
        move |i, ctx| {
            let mut d = Dec(i);
            let (s, a, b, abs) = (d.take(20), d.take(8), d.take(8), d.take(2));
            let top = ctx.clean_scratch().join("w");
            let root = top.join("logs");
            std::fs::create_dir_all(root.join("sub")).unwrap();
            std::fs::create_dir_all(top.join("up")).unwrap();
            std::os::unix::fs::symlink("logs", top.join("link")).unwrap();
            std::os::unix::fs::symlink("../logs", top.join("up/link2")).unwrap();
            std::os::unix::fs::symlink(&root, top.join("up/etc")).unwrap();
            let mut ents = vec![Ent::File(UNDER[a])];
            if b != a {
                ents.push(Ent::File(UNDER[b]));
            }
            ents.iter().for_each(|e| make_ent(&root, e));
            let (cwd, spelled) = SPELLINGS[s];
            let before = std::env::current_dir().unwrap();
            std::env::set_current_dir(top.join(cwd)).unwrap();
            let spelled = if abs == 1 { top.join(cwd).join(spelled).to_str().unwrap().to_string() } else { spelled.to_string() };
            ctx.state(i);
            let res = guard("a spelling", || check_sources(Path::new(&spelled), &spelled, &ents, ctx));
            std::env::set_current_dir(before).unwrap();
            res?
        },
    ));
    // sizes beyond what is worth reading
    const SIZES: [u64; 12] = [1 << 24, 1 << 28, (1 << 30) - 1, 1 << 30, (1 << 30) + 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 5 << 30, 1 << 36];
    v.push(Space::new(
        "large files",
        "sparse logs of 12 sizes from 16 MiB to 64 GiB with 4 names, with 0, 1 or 40 more hard links, next to an ordinary log",
        12 * 4 * 3,
        move |i| {
            let mut d = Dec(i);
            let (s, n, l) = (d.take(12), d.take(4), d.take(3));
            json!({"size": SIZES[s], "name": n, "hard links": ([0, 1, 40][l])})
        },
        move |i, ctx| {
            let mut d = Dec(i);
            let (s, n, l) = (d.take(12), d.take(4), d.take(3));
            let root = ctx.clean_scratch().join("logs");
            std::fs::create_dir_all(root.join("sub")).unwrap();
            std::fs::write(root.join("ordinary.log"), "fine and well\n").unwrap();
            let p = root.join(["big.log", "sub/big.log.gz", "big.json", "sub/core"][n]);
            std::fs::File::create(&p).unwrap().set_len(SIZES[s]).unwrap();
            let mut exp = vec![root.join("ordinary.log"), p.clone()];
            for k in 0..[0, 1, 40][l] {
                let q = root.join("sub").join(word(k));
                std::fs::hard_link(&p, &q).unwrap();
                exp.push(q);
            }
            exp.sort();
            let c = Content::from_input(Input::from_pathbuf(root.clone())).map_err(|e| Fail::new("input", format!("{e:#}")))?;
            let got = c.get_sources();
            ctx.eval();
            ctx.step(3);
            ctx.state(i);
            ctx.nontrivial(i);
            let got = got.map_err(|e| Fail::new("sources", format!("{e:#}")))?;
            let mut got: Vec<PathBuf> = got.iter().map(|s| match s { Source::Local(_, p) => p.clone(), Source::Remote(_, u) => PathBuf::from(u.as_str()) }).collect();
            got.sort();
            ensure_eq!(got, exp, "sources", "sources");
            Ok(())
        },
    ));
    v
}

// ------------------------------------------------------------------------------------------------ C16

const DIRS: [&str; 10] = ["", "audit/", "zuul/", "host.example/var/", "builds/42/", "2/", "controller-0/logs/", "config-update/015da2b/", "a_b/c-d/", "x/deadbee/"];
const STEMS: [&str; 10] = ["log", "audit.log", "syslog", "job-output.txt", "merger.log", "out.json", "a_b", "no-digits", "Screen-API.txt", "gz.log"];
const SUFFIX: [&str; 14] = ["", ".1", ".12", "-20171112", ".2017-11-12", "_2022_10_01", "-2017-11-12.1", ".001", ".0.0", "-1", ".20221001-101112", "_7", ".2022-10-01_10:11:12", ".9-"];

fn idx(p: &str) -> String {
    IndexName::from_path(p).0
}

/// Distinct for different alphabetic names: letters of the directory and the file.
fn letters(dir: &str, stem: &str) -> (String, String) {
    let keep = |s: &str| s.chars().filter(|c| c.is_ascii_alphabetic()).collect::<String>();
    let mut parts: Vec<&str> = dir.trim_end_matches('/').split('/').filter(|x| !x.is_empty()).collect();
    if let Some(l) = parts.last() {
        if l.len() == 7 && l.chars().all(|c| matches!(c, 'a'..='f' | '0'..='9')) {
            parts.pop();
        }
    }
    (keep(parts.last().copied().unwrap_or("")), keep(stem))
}

pub fn c16(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    let total = (DIRS.len() * STEMS.len()) as u64;
    v.push(Space::new(
        "rotation",
        "10 directories x 10 file names x all pairs of 14 rotation suffixes, with and without .gz, digits inserted at every place of the file name",
        total,
        |i| json!({"dir": DIRS[(i % 10) as usize], "file": STEMS[(i / 10) as usize]}),
        |i, ctx| {
            let (dir, stem) = (DIRS[(i % 10) as usize], STEMS[(i / 10) as usize]);
            let base = idx(&format!("{dir}{stem}"));
            ensure!(!base.is_empty(), "empty-name", "{dir}{stem} has an empty index name");
            for s in SUFFIX {
                for z in ["", ".gz"] {
                    for lead in ["", "/"] {
                        let p = format!("{lead}{dir}{stem}{s}{z}");
                        ensure_eq!(idx(&p), base, "rotation", "index of {p} (as {dir}{stem})");
                        ctx.eval();
                        for at in 0..=stem.len() {
                            for n in ["7", "0042"] {
                                let p = format!("{lead}{dir}{}{n}{}{s}{z}", &stem[..at], &stem[at..]);
                                ensure_eq!(idx(&p), base, "digits", "index of {p} (as {dir}{stem})");
                                ctx.eval();
                            }
                        }
                    }
                }
            }
            ctx.step(SUFFIX.len() as u64 * 4);
            ctx.state(i);
            ctx.nontrivial(i);
            ctx.outcome(base);
            Ok(())
        },
    ));
    // changing ids
    let fams: Vec<(&'static str, Vec<String>)> = vec![
        ("build id", ["015da2b", "abcdef0", "0000000", "fffffff", "1234567", "cafe123"].iter().map(|x| format!("@/{x}/#")).collect()),
        ("number", ["1", "2", "42", "123456", "12345678", "20221001"].iter().map(|x| format!("@/{x}/#")).collect()),
        ("bare number", ["1", "2", "42", "123456", "12345678"].iter().map(|x| format!("{x}/#")).collect()),
    ];
    let stems: [&str; 6] = ["log", "job-output.txt", "audit.log.1", "x.json.gz", "zuul_log.2022-10-01", "syslog.2.gz"];
    let parents: [&str; 4] = ["job", "top/config-update", "/a/b/c", "x_y"];
    v.push(Space::new(
        "ids",
        "build id, numeric, instance, pod, k8s and pvc ids: all pairs of ids x directories x file names",
        3 * 6 * 4,
        move |i| json!({"family": i % 3, "file": i / 3 % 6, "parent": i / 18}),
        move |i, ctx| {
            let mut d = Dec(i);
            let (name, forms) = &fams[d.take(3)];
            let stem = *d.pick(&stems);
            let parent = *d.pick(&parents);
            let all: Vec<String> = forms.iter().map(|f| f.replace('@', parent).replace('#', stem)).collect();
            for p in &all {
                ensure_eq!(idx(p), idx(&all[0]), "ids", "{name}: index of {p} (as {})", all[0]);
                ctx.eval();
            }
            ctx.step(all.len() as u64);
            ctx.state(i);
            ctx.nontrivial(i);
            ctx.outcome(idx(&all[0]));
            Ok(())
        },
    ));
    let vol: Vec<(&'static str, Vec<String>)> = vec![
        ("qemu", ["0000001d", "000000ec", "1", "abc-def"].iter().flat_map(|x| ["", "libvirt/", "containers/libvirt/"].iter().flat_map(move |d| ["", ".gz", ".1"].iter().map(move |z| format!("{d}qemu/instance-{x}.log.txt{z}")))).collect()),
        ("pod zuul", ["7fdb57778f-qkzkc", "5b5-abcde", "0"].iter().flat_map(|x| ["", "logs/"].iter().flat_map(move |d| [".log", ".txt", ".log.gz", ".log.1"].iter().map(move |z| format!("{d}pod/zuul-{x}{z}")))).collect()),
        ("pod nodepool", ["launcher-fcd58c584-wbcmc", "x"].iter().map(|x| format!("pod/nodepool-{x}.txt")).collect()),
        ("k8s", ["uuid", "328297fa-9941-4df5-b34f-336f02c76be4.txt", "0.log.gz"].iter().flat_map(|x| ["", "docker/", "a/b/"].iter().map(move |d| format!("{d}k8s_zuul-{x}"))).collect()),
        ("k8s other", ["a.log", "b-c.log.1"].iter().map(|x| format!("docker/k8s_nodepool-{x}")).collect()),
        ("pvc", ["328297fa-9941-4df5-b34f-336f02c76be4.txt", "1.log", "x"].iter().flat_map(|x| ["", "volumes/"].iter().map(move |d| format!("{d}pvc-{x}"))).collect()),
    ];
    v.push(Space::new(
        "volatile",
        "qemu instances, pods, k8s services and persistent volumes: all ids share the index of their family, families differ",
        6,
        |i| json!({"family": i}),
        move |i, ctx| {
            let (name, all) = &vol[i as usize];
            for p in all {
                ensure_eq!(idx(p), idx(&all[0]), "volatile", "{name}: index of {p} (as {})", all[0]);
                ctx.eval();
            }
            for (other, o) in &vol {
                ensure!(other == name || idx(&o[0]) != idx(&all[0]), "volatile", "{name} and {other} share an index");
            }
            ctx.step(all.len() as u64);
            ctx.state(i);
            ctx.nontrivial(i);
            Ok(())
        },
    ));
    // every small name
    const NAME: [char; 9] = ['a', 'g', 'z', 'Z', '.', '-', '_', '7', '0'];
    const IN: [&str; 6] = ["", "job/", "top/job-9/", "job/015da2b/", "a_b/", "x/Zz.d/"];
    let len = tier.pick(5, 6);
    let total = seq_count(9, 1, len) * 6;
    let small = move |i: u64| -> (&'static str, String) { (IN[(i % 6) as usize], seq_decode(i / 6, 9, 1, len).iter().map(|&x| NAME[x]).collect()) };
    v.push(Space::new(
        "names",
        format!("all file names of 1..={len} of {NAME:?} which have a letter, in {IN:?}: all the variants of the name (digits removed, replaced or added next to the others, suffixes and .gz)"),
        total,
        move |i| json!({"dir": small(i).0, "file": small(i).1}),
        move |i, ctx| {
            let (dir, f) = small(i);
            // a name with a .gz of its own is a variant of a shorter one
            if !f.contains(|c: char| c.is_ascii_alphabetic()) || f.split('.').skip(1).any(|p| p.replace(|c: char| !c.is_ascii_alphabetic(), "") == "gz") {
                return Ok(());
            }
            let base = idx(&format!("{dir}{f}"));
            let mut vars: Vec<String> = SUFFIX.iter().map(|s| format!("{f}{s}")).collect();
            vars.push(f.replace(|c: char| c.is_ascii_digit(), ""));
            vars.push(f.replace(|c: char| c.is_ascii_digit(), "31"));
            vars.push(format!("2022{f}"));
            for x in vars.clone() {
                vars.push(format!("{x}.gz"));
            }
            for x in vars {
                let p = format!("{dir}{x}");
                ensure_eq!(idx(&p), base, "names", "index of {p} (as {dir}{f})");
                ctx.eval();
            }
            ctx.step(1);
            ctx.nontrivial((dir, &f));
            ctx.outcome(base);
            Ok(())
        },
    ));
    // the place of every letter counts
    let shape: [&str; 8] = ["@", "@.log", "a-@", "x@y.txt", "job/@", "@/log", "j@b/out.txt", "job/@.log.1.gz"];
    let letter: Vec<char> = ('a'..='z').chain('A'..='Z').collect();
    v.push(Space::new(
        "letters",
        "8 shapes of names x all pairs of the 52 letters: two different letters give two index names",
        8,
        move |i| json!({"shape": shape[i as usize]}),
        move |i, ctx| {
            let mut seen = BTreeMap::new();
            for c in &letter {
                let p = shape[i as usize].replace('@', &c.to_string());
                if let Some(o) = seen.insert(idx(&p), p.clone()) {
                    return Err(Fail::new("letters", format!("{o} and {p} share the index {}", idx(&p))));
                }
                ctx.eval();
            }
            ctx.step(52);
            ctx.state(i);
            ctx.nontrivial(i);
            Ok(())
        },
    ));
    // long names
    let sizes: Vec<usize> = tier.pick((1..=24).chain([31, 32, 33, 39, 40, 41, 42, 48, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129, 199, 200, 230]).collect(), (1..=230).collect());
    let n = sizes.len() as u64;
    let sz = sizes.clone();
    v.push(Space::new(
        "long names",
        format!("directory names, file names, extensions and runs of digits of {sizes:?} characters, and as many parents: the variants share an index, other letters at any place have another one"),
        n * 7,
        move |i| json!({"size": sz[(i % n) as usize], "form": i / n}),
        move |i, ctx| {
            let k = sizes[(i % n) as usize];
            let word = |other: Option<usize>| -> String { (0..k).map(|j| if other == Some(j) { 'q' } else { ['r', 's', 't', 'u', 'v'][j % 5] }).collect() };
            let nine = "9".repeat(k);
            let (stem, dir): (Box<dyn Fn(&str) -> String>, Box<dyn Fn(&str) -> String>) = match i / n {
                0 => (Box::new(|_| "log".into()), Box::new(|w| format!("{w}/"))),
                1 => (Box::new(|w| w.to_string()), Box::new(|_| "job/".into())),
                2 => (Box::new(|w| format!("out.{w}")), Box::new(|_| "job/".into())),
                3 => (Box::new(|w| format!("{w}.log")), Box::new(|_| String::new())),
                4 => (Box::new(|w| format!("{w}.log")), Box::new(|w| format!("top/{w}/0a1b2c3/"))),
                5 => (Box::new(|w| format!("{w}.log")), Box::new(move |_| format!("{}job/", "d/".repeat(k)))),
                _ => (Box::new(|w| w.split_at(w.len() / 2).0.to_string() + "." + w.split_at(w.len() / 2).1), Box::new(|_| "job_x/".into())),
            };
            let (s, d) = (stem(&word(None)), dir(&word(None)));
            let base = idx(&format!("{d}{s}"));
            for x in [nine.as_str(), "1", ""] {
                for p in [format!("{d}{s}{x}"), format!("{d}{s}.{x}"), format!("{d}{s}-{x}.gz"), format!("{d}{x}{s}.gz"), format!("{d}{s}.{x}.{x}.gz"), format!("{d}{s}_{x}-{x}")] {
                    ensure_eq!(idx(&p), base, "long", "index of {p} (as {d}{s})");
                    ctx.eval();
                }
            }
            for at in [0, k / 2, k - 1] {
                let p = format!("{}{}", dir(&word(Some(at))), stem(&word(Some(at))));
                ensure!(idx(&p) != base, "long", "{p} and {d}{s} share the index {base}");
                ctx.eval();
            }
            ctx.step(21);
            ctx.state(i);
            ctx.nontrivial(i);
            ctx.outcome(base);
            Ok(())
        },
    ));
    // different alphabetic names
    let ab: [&str; 10] = ["a", "b", "ab", "log", "Log", "gz", "ba", "g", "network", "compute"];
    v.push(Space::new(
        "distinct",
        "all pairs of 4 x 10x10 directory and file names: different letters give different index names",
        100,
        move |i| json!({"dir": ab[(i % 10) as usize], "file": ab[(i / 10) as usize]}),
        move |i, ctx| {
            let mk = |k: u64, form: usize| {
                let (d, f) = (ab[(k % 10) as usize], ab[(k / 10) as usize]);
                match form {
                    0 => (format!("{d}/"), f.to_string()),
                    1 => (String::new(), format!("{d}.{f}")),
                    2 => (format!("x/{d}-1/"), format!("{f}.log.1")),
                    _ => (format!("{d}/0a1b2c3/"), format!("{f}_2022.gz")),
                }
            };
            for fa in 0..4 {
                let a = mk(i, fa);
                for k in 0..100 {
                    for fb in 0..4 {
                        let b = mk(k, fb);
                        let strip = |s: &str| s.trim_end_matches(".gz").to_string();
                        let (la, lb) = (letters(&a.0, &strip(&a.1)), letters(&b.0, &strip(&b.1)));
                        if la != lb {
                            let (pa, pb) = (format!("{}{}", a.0, a.1), format!("{}{}", b.0, b.1));
                            ensure!(idx(&pa) != idx(&pb), "distinct", "{pa} and {pb} share the index {}", idx(&pa));
                            ctx.eval();
                        }
                    }
                }
            }
            ctx.step(1);
            ctx.state(i);
            ctx.nontrivial(i);
            Ok(())
        },
    ));
    // grouping of real trees
    let files: [&str; 8] = ["a.log", "a.log.1", "a.log.2.gz", "d/a.log", "d/a.log.2022-10-01", "d/b.txt", "e/0a1b2c3/b.txt", "e/b.txt.gz"];
    v.push(Space::new(
        "grouping",
        "all subsets of 8 files in one and in two directories: every source is in exactly the group of its own name",
        255 * 2,
        move |i| json!({"files": (0..8).filter(|k| (i % 255 + 1) >> k & 1 == 1).map(|k| files[k]).collect::<Vec<_>>(), "directories": 1 + i / 255}),
        move |i, ctx| {
            let root = ctx.clean_scratch();
            let two = i / 255 == 1;
            let mut contents = vec![];
            let mut exp: BTreeMap<String, Vec<String>> = BTreeMap::new();
            for part in 0..1 + two as u64 {
                let dir = root.join(format!("part{part}"));
                for (k, f) in files.iter().enumerate() {
                    if (i % 255 + 1) >> k & 1 == 1 {
                        put(&dir, f, b"x\n");
                        exp.entry(idx(f)).or_default().push(dir.join(f).to_str().unwrap().to_string());
                    }
                }
                contents.push(input(&dir)?);
            }
            let groups = Content::group_sources(&contents).map_err(|e| Fail::new("group", format!("{e:#}")))?;
            let got: BTreeMap<String, Vec<String>> = groups
                .into_iter()
                .map(|(k, v)| {
                    let mut v: Vec<String> = v.iter().map(|s| s.as_str().to_string()).collect();
                    v.sort();
                    (k.0, v)
                })
                .collect();
            exp.values_mut().for_each(|v| v.sort());
            ensure_eq!(got, exp, "grouping", "groups");
            ctx.eval();
            ctx.step(1);
            ctx.state(i);
            ctx.outcome(exp.len());
            ctx.nontrivial(i);
            Ok(())
        },
    ));
    v
}

// ------------------------------------------------------------------------------------------------ C17

fn drain(p: &Path) -> std::io::Result<Vec<(String, usize)>> {
    let r = Source::file_open(p).map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, format!("{e:#}")))?;
    let mut out = vec![];
    for l in logreduce_iterator::BytesLines::new(r, false) {
        let (b, n) = l?;
        out.push((String::from_utf8_lossy(&b).into_owned(), n));
    }
    Ok(out)
}

/// Strips the directory and the compression suffix.
fn neutral(r: &Report) -> Vec<(String, Vec<(usize, String, Vec<String>, Vec<String>, u32)>)> {
    let mut v: Vec<_> = r
        .log_reports
        .iter()
        .map(|l| {
            let n = Path::new(l.source.as_str()).file_name().unwrap().to_str().unwrap().trim_end_matches(".gz").to_string();
            (n, l.anomalies.iter().map(|a| (a.anomaly.pos, a.anomaly.line.clone(), a.before.clone(), a.after.clone(), (a.anomaly.distance * 1e4).round() as u32)).collect())
        })
        .collect();
    v.sort();
    v
}

fn content17(k: usize) -> Vec<u8> {
    match k {
        0 => vec![],
        1 => b"\n\n".to_vec(),
        2 => far(1).into_bytes(),
        3 => (0..40).map(|j| if j % 5 == 1 { far(j) } else { near(j + 1) }).collect::<Vec<_>>().join("\n").into_bytes(),
        4 => b"{\"a\": [\"novel thing here\", \"b\"], \"c\": {\"d\": \"another odd value\"}}\n".to_vec(),
        5 => (0..900).map(|j| if j % 97 == 1 { far(j) } else { near(j % 700 + 1) }).collect::<Vec<_>>().join("\n").into_bytes(),
        6 => [vec![b'z'; 5990], b"\n".to_vec(), vec![b'y'; 6010], b"\nthe end of it\n".to_vec()].concat(),
        7 => [vec![b'w'; 8191], b"\nx y z\n".to_vec(), far(9).into_bytes(), b"\n".to_vec(), vec![b'v'; 20000]].concat(),
        8 => "first novelty\\nsecond é novelty\\nthird\n".as_bytes().to_vec(),
        9 => b"\x1f\x8b starts like gzip but is text\nnovel words here\n".to_vec(),
        _ => (0..3000u32).map(|j| format!("{:x} {} mixed", j.wrapping_mul(2654435761), far(j as usize % 800))).collect::<Vec<_>>().join("\n").into_bytes(),
    }
}

pub fn c17(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    let contents = 11u64;
    let names: [&str; 4] = ["x.log", "x.json", "x", "x.log.1"];
    let more: [&str; 10] = ["x-results.json", "job-results.json.1", "a.b.json", ".json", "json", "x.JSON", "x.gz", "x.json.log", "\u{e9} x.json", "x.log.2022-10-01"];
    let levels = 10u64;
    let members = 3u64;
    v.push(Space::new(
        "equal",
        "11 contents x 4 names x compression levels 0-9 x 1-3 gzip members: same lines, same training, same anomalies as the plain file",
        contents * 4 * levels * members,
        move |i| {
            let mut d = Dec(i);
            json!({"content": d.take(contents), "name": names[d.take(4)], "level": d.take(levels), "members": 1 + d.take(members)})
        },
        move |i, ctx| {
            let mut d = Dec(i);
            let data = content17(d.take(contents));
            let name = *d.pick(&names);
            let level = d.take(levels) as u32;
            let mem = 1 + d.take(members);
            if std::str::from_utf8(&data).is_err() {
                // the text that only looks like gzip is not valid UTF-8: it is for the reader check below
                ctx.count("not utf-8", 1);
            }
            let root = ctx.clean_scratch();
            let (plain, comp, base) = (root.join("plain"), root.join("comp"), root.join("base"));
            for d in [&plain, &comp] {
                std::fs::create_dir_all(d).unwrap();
            }
            std::fs::write(plain.join(name), &data).unwrap();
            let step = data.len() / mem;
            let mut z = vec![];
            for m in 0..mem {
                let end = if m + 1 == mem { data.len() } else { (m + 1) * step };
                z.extend(gz(&data[m * step..end], level));
            }
            std::fs::write(comp.join(format!("{name}.gz")), &z).unwrap();
            let a = drain(&plain.join(name)).map_err(|e| Fail::new("plain", format!("{e}")))?;
            let b = drain(&comp.join(format!("{name}.gz"))).map_err(|e| Fail::new("gz-read", format!("{name}.gz: {e}")))?;
            ensure!(a == b, "gz-lines", "{name}: {} lines plain, {} lines compressed; first difference {:?}", a.len(), b.len(), a.iter().zip(&b).find(|(x, y)| x != y));
            ctx.evals(2);
            put(&base, name, base_lines().join("\n").as_bytes());
            put(&base, "other.log", b"unrelated\n");
            let m = train(vec![input(&base)?])?;
            let (rp, rc) = (report(&m, input(&plain)?)?, report(&m, input(&comp)?)?);
            ensure!(neutral(&rp) == neutral(&rc) && rp.total_line_count == rc.total_line_count && rp.read_errors.len() == rc.read_errors.len(), "gz-report", "plain: {}; compressed: {}", summary(&rp), summary(&rc));
            if rp.read_errors.is_empty() {
                // trained on one, the other has nothing new
                nothing(&report(&train(vec![input(&comp)?])?, input(&plain)?)?, "plain against compressed")?;
                nothing(&report(&train(vec![input(&plain)?])?, input(&comp)?)?, "compressed against plain")?;
                nothing(&report(&train(vec![input(&comp.join(format!("{name}.gz")))?])?, input(&plain.join(name))?)?, "plain file against compressed file")?;
            }
            ctx.step(5);
            ctx.state(i);
            ctx.outcome((rp.total_anomaly_count, rp.total_line_count));
            if rp.total_anomaly_count > 0 {
                ctx.nontrivial(i);
            }
            Ok(())
        },
    ));
    v.push(Space::new(
        "named",
        format!("contents 3 (lines), 4 (JSON) and 8 (escaped newlines) under {more:?} and .gz: same lines and anomalies as the plain file, inspected with and without a baseline of that name"),
        3 * 10,
        move |i| json!({"content": ([3, 4, 8])[(i % 3) as usize], "name": more[(i / 3) as usize]}),
        move |i, ctx| {
            let data = content17([3, 4, 8][(i % 3) as usize]);
            let name = more[(i / 3) as usize];
            let root = ctx.clean_scratch();
            let (plain, comp, base) = (root.join("plain"), root.join("comp"), root.join("base"));
            let data = if name == "x.gz" { gz(&data, 6) } else { data };
            for d in [&plain, &comp] {
                std::fs::create_dir_all(d).unwrap();
            }
            // x.gz is the plain version of nothing: compressed once more, it is decompressed once
            if name == "x.gz" {
                std::fs::write(comp.join("x.gz.gz"), gz(&data, 6)).unwrap();
                let mut got = vec![];
                std::io::Read::read_to_end(&mut Source::file_open(&comp.join("x.gz.gz")).map_err(|e| Fail::new("open", format!("{e:#}")))?, &mut got).map_err(|e| Fail::new("twice", format!("{e}")))?;
                ensure!(got == data, "twice", "x.gz.gz is not decompressed once");
                ctx.eval();
                return Ok(());
            }
            std::fs::write(plain.join(name), &data).unwrap();
            std::fs::write(comp.join(format!("{name}.gz")), gz(&data, 6)).unwrap();
            put(&base, name, base_lines().join("\n").as_bytes());
            for other in [false, true] {
                if other {
                    put(&base, "other.txt", b"unrelated\n");
                }
                let m = train(vec![input(&base)?])?;
                for (p, c) in [(plain.clone(), comp.clone()), (plain.join(name), comp.join(format!("{name}.gz")))] {
                    let (rp, rc) = (report(&m, input(&p)?)?, report(&m, input(&c)?)?);
                    ensure!(neutral(&rp) == neutral(&rc) && rp.total_line_count == rc.total_line_count && rp.read_errors.len() == rc.read_errors.len() && rp.index_errors.len() == rc.index_errors.len(), "gz-report", "{name}: plain: {}; compressed: {}", summary(&rp), summary(&rc));
                    ctx.evals(2);
                    ctx.outcome((rp.total_anomaly_count, rp.total_line_count));
                }
            }
            ctx.step(4);
            ctx.state(i);
            ctx.nontrivial(i);
            Ok(())
        },
    ));
    // truncations and damages
    let kinds: &'static [usize] = tier.pick(&[2, 3, 4], &[2, 3, 4, 5]);
    let mut jobs: Vec<(usize, usize, usize)> = vec![];
    for &k in kinds {
        let len = gz(&content17(k), 6).len();
        let len = len.min(1500);
        for cut in 0..len {
            jobs.push((0, k, cut));
        }
        for at in 0..len {
            jobs.push((1, k, at));
        }
    }
    let total = jobs.len() as u64;
    let j2 = jobs.clone();
    v.push(Space::new(
        "damage",
        "every truncation point and every single damaged byte of small compressed logs: same lines, or a read error of that log, with the other log still analysed",
        total,
        move |i| json!({"damage": (["truncated at", "byte flipped at"])[j2[i as usize].0], "content": j2[i as usize].1, "at": j2[i as usize].2}),
        move |i, ctx| {
            let (how, k, at) = jobs[i as usize];
            let data = content17(k);
            let mut z = gz(&data, 6);
            if how == 0 {
                z.truncate(at);
            } else {
                z[at] ^= 0xff;
            }
            let root = ctx.clean_scratch();
            let (t, base) = (root.join("t"), root.join("base"));
            std::fs::create_dir_all(&t).unwrap();
            std::fs::write(t.join("x.log.gz"), &z).unwrap();
            std::fs::write(t.join("y.log"), far(77)).unwrap();
            put(&base, "x.log", base_lines().join("\n").as_bytes());
            put(&base, "y.log", b"unrelated\n");
            let m = train(vec![input(&base)?])?;
            let r = report(&m, input(&t)?)?;
            ctx.eval();
            ctx.step(1);
            ctx.state(i);
            let errs: Vec<_> = r.read_errors.iter().filter(|(s, _)| s.as_str().ends_with("x.log.gz")).collect();
            ensure!(r.log_reports.iter().any(|l| l.source.as_str().ends_with("y.log")), "gz-hides", "the other log is not reported: {}", summary(&r));
            ensure!(errs.len() <= 1 && r.read_errors.len() == errs.len(), "gz-errors", "{}", summary(&r));
            let lines = drain(&t.join("x.log.gz"));
            std::fs::write(root.join("plain"), &data).unwrap();
            let full = drain(&root.join("plain")).unwrap();
            match (errs.is_empty(), &lines) {
                (true, Ok(l)) => ensure!(*l == full, "gz-silent", "damaged file analysed without error as {} lines instead of {}", l.len(), full.len()),
                (true, Err(e)) => return Err(Fail::new("gz-silent", format!("read error {e} not in the report"))),
                (false, _) => {}
            }
            if how == 0 {
                ensure!(!errs.is_empty(), "gz-truncated", "a truncated file gives no error");
            }
            ctx.outcome(errs.is_empty());
            ctx.nontrivial(i);
            // training on a damaged baseline does not crash
            let _ = Model::train(OutputMode::Quiet, vec![input(&t)?], hashing_index::new);
            Ok(())
        },
    ));
    // files without the suffix are read as they are
    let fnames: [&str; 7] = ["x.log", "gz", "xgz", "x.gzip", "x.GZ", "x.gz.log", "x.tgz"];
    v.push(Space::new(
        "as-is",
        "11 contents, plain and compressed, under 7 names without a .gz suffix: the reader gives the bytes of the file",
        contents * 7 * 2,
        move |i| json!({"content": i % contents, "name": fnames[(i / contents % 7) as usize], "compressed": i / contents / 7}),
        move |i, ctx| {
            let mut d = Dec(i);
            let mut data = content17(d.take(contents));
            let name = *d.pick(&fnames);
            if d.take(2) == 1 {
                data = gz(&data, 6);
            }
            let p = ctx.clean_scratch().join(name);
            std::fs::write(&p, &data).unwrap();
            let mut got = vec![];
            let mut r = Source::file_open(&p).map_err(|e| Fail::new("as-is", format!("{e:#}")))?;
            std::io::Read::read_to_end(&mut r, &mut got).map_err(|e| Fail::new("as-is", format!("{name}: {e}")))?;
            ensure!(got == data, "as-is", "{name}: {} bytes read, {} in the file", got.len(), data.len());
            ctx.eval();
            ctx.step(1);
            ctx.state(i);
            ctx.nontrivial(i);
            Ok(())
        },
    ));
    v
}
