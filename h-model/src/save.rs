//! C18, C19: models and reports on disk.
use crate::proc::{again, base_lines, far, near, KNOWN};
use crate::tree::{anomalies, input, put, report, train};
use interpose::{Act, Kind};
use logreduce_model::{Content, IndexName, Model, Report};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use vengine::serde_json::json;
use vengine::*;

const MODELS: usize = 6;

/// The baselines of model k, below dir.
fn baselines(k: usize, dir: &Path) -> Result<Vec<Content>, Fail> {
    let d = dir.join(format!("base{k}"));
    std::fs::create_dir_all(&d).unwrap();
    Ok(match k {
        0 => vec![],
        1 => {
            put(&d, "x.log", base_lines().join("\n").as_bytes());
            vec![input(&d.join("x.log"))?]
        }
        2 => {
            put(&d, "g1/a.log", base_lines().join("\n").as_bytes());
            put(&d, "g1/a.log.1", far(3).as_bytes());
            put(&d, "g2/b.json", b"{\"k\": [\"some value here\", \"an other one\"]}");
            put(&d, "g3/c.log.gz", KNOWN.as_bytes());
            vec![input(&d)?]
        }
        3 => {
            put(&d, "empty.log", b"");
            put(&d, "h\u{e9}/\u{2026}.log", "accents \u{e9}\u{e8} here".as_bytes());
            vec![input(&d)?, input(&d.join("empty.log"))?]
        }
        4 => {
            let lines: Vec<String> = (0..700).map(|j| if j % 2 == 0 { far(j) } else { near(j) }).collect();
            put(&d, "g1/a.log", lines.join("\n").as_bytes());
            put(&d, "g2/b.log", base_lines().join("\n").as_bytes());
            vec![input(&d)?]
        }
        _ => {
            // incompressible enough for several writes of the compressor
            let lines: Vec<String> = (0..4000usize).map(far).collect();
            put(&d, "big.log", lines.join("\n").as_bytes());
            vec![input(&d)?]
        }
    })
}

fn targets(dir: &Path) -> Result<Vec<Content>, Fail> {
    let d = dir.join("target");
    put(&d, "g1/a.log", [KNOWN.to_string(), far(3), far(1201), near(5), again(1), again(2), far(0)].join("\n").as_bytes());
    put(&d, "g2/b.log", [KNOWN.to_string(), far(9)].join("\n").as_bytes());
    put(&d, "g4/z.log", b"no baseline for this\n");
    put(&d, "g1/a.log.2", b"novel one here \xe2\x80\xa6 <b>\nbad \xff\n");
    let clean = dir.join("clean.log");
    std::fs::write(&clean, base_lines().join("\n")).unwrap();
    Ok(vec![input(&d)?, input(&d.join("g1/a.log"))?, input(&clean)?])
}

/// Independent of the order of hash maps.
fn finger<T: std::fmt::Debug>(t: &T) -> Vec<String> {
    let mut v: Vec<String> = format!("{t:#?}").lines().map(|s| s.to_string()).collect();
    v.sort();
    v
}

fn same_report(a: &Report, b: &Report) -> Res {
    ensure!(finger(a) == finger(b), "report-equal", "reports differ");
    ensure!(a.created_at == b.created_at && a.run_time == b.run_time && a.target == b.target && a.baselines == b.baselines, "report-equal", "report header differs");
    ensure_eq!(a.total_line_count, b.total_line_count, "report-equal", "line count");
    ensure_eq!(a.total_anomaly_count, b.total_anomaly_count, "report-equal", "anomaly count");
    ensure!(a.read_errors == b.read_errors && a.index_errors == b.index_errors, "report-equal", "errors differ");
    ensure_eq!(a.log_reports.len(), b.log_reports.len(), "report-equal", "log reports");
    for (x, y) in a.log_reports.iter().zip(&b.log_reports) {
        ensure!(format!("{x:?}") == format!("{y:?}"), "report-equal", "log report differs");
    }
    Ok(())
}

fn behaviour(r: &Report) -> String {
    let mut logs: Vec<String> = r.log_reports.iter().map(|l| format!("{:?} {:?} {} {}", l.source, l.anomalies, l.line_count, l.index_name)).collect();
    logs.sort();
    let mut errs: Vec<String> = r.read_errors.iter().map(|x| format!("{x:?}")).chain(r.index_errors.iter().map(|x| format!("{x:?}"))).collect();
    errs.sort();
    format!("{logs:?} {errs:?} {} {} {:?}", r.total_line_count, r.total_anomaly_count, r.baselines)
}

fn same_model(a: &Model, b: &Model, targets: &[Content]) -> Res {
    ensure!(finger(a) == finger(b), "model-equal", "models differ");
    for n in ["x.log", "g1/a.log", "g2/b.json", "g3/c.log", "unknown"] {
        let n = IndexName(n.into());
        ensure_eq!(a.get_index(&n).map(finger), b.get_index(&n).map(finger), "model-equal", "index {n}");
    }
    for t in targets {
        let (ra, rb) = (report(a, t.clone())?, report(b, t.clone())?);
        ensure!(behaviour(&ra) == behaviour(&rb), "model-behaviour", "report of {t}: {:?} before, {:?} after loading", anomalies(&ra), anomalies(&rb));
    }
    Ok(())
}

fn save_err(e: String) -> Fail {
    Fail::new("save", format!("saving failed: {e}"))
}

fn msave(m: &Model, p: &Path) -> Res {
    m.save(p).map_err(|e| save_err(format!("{e:#}")))
}
fn mload(p: &Path) -> Result<Model, Fail> {
    Model::load(p).map_err(|e| Fail::new("load", format!("loading failed: {e:#}")))
}

pub fn c18(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    v.push(Space::new(
        "models",
        "6 models (no baseline, one file, several groups with json and gzip, empty and non-ascii, two chunks, eight chunks): saved, loaded, saved again; fingerprint and reports on 3 targets",
        MODELS as u64,
        |i| json!({"model": i}),
        |i, ctx| {
            let dir = ctx.clean_scratch();
            let ts = targets(&dir)?;
            let m = train(baselines(i as usize, &dir)?)?;
            msave(&m, &dir.join("m1"))?;
            let m1 = mload(&dir.join("m1"))?;
            same_model(&m, &m1, &ts)?;
            msave(&m1, &dir.join("m2"))?;
            let m2 = mload(&dir.join("m2"))?;
            same_model(&m, &m2, &ts)?;
            ctx.evals(4);
            ctx.step(4);
            ctx.state(i);
            ctx.nontrivial(i);
            Ok(())
        },
    ));
    v.push(Space::new(
        "reports",
        "the reports of 6 models on 3 targets: saved, loaded, saved again",
        MODELS as u64 * 3,
        |i| json!({"model": i / 3, "target": i % 3}),
        |i, ctx| {
            let dir = ctx.clean_scratch();
            let ts = targets(&dir)?;
            let m = train(baselines((i / 3) as usize, &dir)?)?;
            let r = report(&m, ts[(i % 3) as usize].clone())?;
            let p = dir.join("r");
            for _ in 0..2 {
                r.save(&p).map_err(|e| save_err(format!("{e:#}")))?;
                let r1 = Report::load(&p).map_err(|e| Fail::new("load", format!("{e:#}")))?;
                same_report(&r, &r1)?;
                r1.save(&dir.join("r2")).map_err(|e| save_err(format!("{e:#}")))?;
                same_report(&r, &Report::load(&dir.join("r2")).map_err(|e| Fail::new("load", format!("{e:#}")))?)?;
                ctx.evals(2);
            }
            ctx.step(4);
            ctx.state(i);
            ctx.outcome((r.total_anomaly_count, r.read_errors.len(), r.index_errors.len()));
            ctx.nontrivial(i);
            Ok(())
        },
    ));
    let sizes: &'static [(&str, usize)] = Box::leak(
        [10usize, 100, 513, 1000, 3000, 10_000]
            .iter()
            .flat_map(|&n| [("distinct lines", n), ("anomalies", n), ("anomalies", 7 * n)])
            .chain([("wide lines", 12_000), ("wide lines", 160_000), ("wide anomalies", 9_000), ("wide anomalies", 50_000)])
            .chain([2usize, 9, 33, 65, 129, 257, 700].iter().flat_map(|&n| [("groups", n), ("baselines", n), ("logs", n)]))
            .collect::<Vec<_>>()
            .into_boxed_slice(),
    );
    v.push(
        Space::new(
            "sizes",
            "models of up to 10000 distinct lines or 160000 of 40 words (77 MB, 18 compressed), 700 groups or baselines and reports of up to 70000 anomalies (22 MB) or 700 logs: saved and loaded",
            sizes.len() as u64,
            move |i| json!({sizes[i as usize].0: sizes[i as usize].1}),
            move |i, ctx| {
                let (what, n) = sizes[i as usize];
                let dir = ctx.clean_scratch();
                let (base, target) = (dir.join("base"), dir.join("target"));
                let word = crate::proc::word;
                let wide = |k: usize, words: usize| (0..words).map(|j| word(400 + 1000 * (j % 30) + (k >> (j / 30 * 8)) % 997 / (1 + j % 3))).collect::<Vec<_>>().join(" ");
                put(&base, "g1/a.log", base_lines().join("\n").as_bytes());
                put(&base, "g2/b.log", base_lines().join("\n").as_bytes());
                put(&target, "g1/a.log", [KNOWN.to_string(), far(3), far(9000)].join("\n").as_bytes());
                let mut inputs = vec![];
                match what {
                    "distinct lines" => put(&base, "g1/a.log", (0..n).map(far).collect::<Vec<_>>().join("\n").as_bytes()),
                    "anomalies" => put(&target, "g1/a.log", (0..n).map(|k| format!("{} {} never before", word(k % 38416), word(k / 38416))).collect::<Vec<_>>().join("\n").as_bytes()),
                    "wide lines" => put(&base, "g1/a.log", (0..n).map(|k| wide(k, 40)).collect::<Vec<_>>().join("\n").as_bytes()),
                    "wide anomalies" => put(&target, "g1/a.log", (0..n).map(|k| wide(k, 60)).collect::<Vec<_>>().join("\n").as_bytes()),
                    "groups" => (0..n).for_each(|k| put(&base, &format!("g{}/a.log", word(k)), far(k).as_bytes())),
                    "logs" => (0..n).for_each(|k| {
                        put(&base, &format!("g{}/a.log", word(k % 40)), KNOWN.as_bytes());
                        put(&target, &format!("g{}/a.log.{k}", word(k % 50)), far(k).as_bytes())
                    }),
                    _ => {
                        for k in 0..n {
                            put(&base, &format!("b{k}/g1/a.log"), far(k).as_bytes());
                            inputs.push(input(&base.join(format!("b{k}")))?);
                        }
                    }
                }
                if inputs.is_empty() {
                    inputs.push(input(&base)?);
                }
                let t = input(&target)?;
                let m = train(inputs)?;
                msave(&m, &dir.join("m1"))?;
                let m1 = mload(&dir.join("m1"))?;
                if n <= 3000 {
                    same_model(&m, &m1, &[t.clone()])?;
                } else {
                    ensure!(format!("{m:?}").len() == format!("{m1:?}").len(), "model-equal", "models differ");
                }
                let r = report(&m1, t)?;
                let p = dir.join("r");
                r.save(&p).map_err(|e| save_err(format!("{e:#}")))?;
                same_report(&r, &Report::load(&p).map_err(|e| Fail::new("load", format!("{e:#}")))?)?;
                ctx.evals(2);
                ctx.step(4);
                ctx.state(i);
                ctx.outcome((r.total_anomaly_count, r.log_reports.len(), r.index_errors.len()));
                ctx.nontrivial(i);
                Ok(())
            },
        )
        .timeout(300),
    );
    v.push(sequences::<Model>("sequences", tier, |dir| Ok([train(baselines(2, dir)?)?, train(baselines(1, dir)?)?])));
    v.push(sequences::<Report>("report sequences", tier, |dir| {
        let (m, ts) = (train(baselines(2, dir)?)?, targets(dir)?);
        let rs: Vec<Report> = ts.into_iter().map(|t| report(&m, t)).collect::<Result<_, _>>()?;
        let mut rs: Vec<Report> = rs.into_iter().filter(|r| r.total_anomaly_count > 0 || !r.index_errors.is_empty()).collect();
        rs.sort_by_key(|r| std::cmp::Reverse(finger(r).len()));
        let last = rs.pop().unwrap();
        Ok([rs.swap_remove(0), last])
    }));
    v
}

trait Stored: std::fmt::Debug + 'static {
    fn store(&self, p: &Path) -> Result<(), String>;
    fn fetch(p: &Path) -> Result<Self, String>
    where
        Self: Sized;
}
impl Stored for Model {
    fn store(&self, p: &Path) -> Result<(), String> {
        self.save(p).map_err(|e| format!("{e:#}"))
    }
    fn fetch(p: &Path) -> Result<Self, String> {
        Model::load(p).map_err(|e| format!("{e:#}"))
    }
}
impl Stored for Report {
    fn store(&self, p: &Path) -> Result<(), String> {
        self.save(p).map_err(|e| format!("{e:#}"))
    }
    fn fetch(p: &Path) -> Result<Self, String> {
        Report::load(p).map_err(|e| format!("{e:#}"))
    }
}

fn sequences<T: Stored>(name: &'static str, tier: Tier, make: fn(&Path) -> Result<[T; 2], Fail>) -> Space {
    // sequences over two paths: save big/small to p/q, load p/q into the current model
    let max = tier.pick(4, 5);
    const OPS: [&str; 8] = ["save big to p", "save small to p", "save big to q", "save small to q", "load p", "load q", "save loaded to p", "save loaded to q"];
    Space::new(
        name,
        format!("every sequence of 1..={max} saves, overwrites, loads and saves of the loaded model over two paths"),
        seq_count(8, 1, max),
        move |i| json!({"operations": seq_decode(i, 8, 1, max).iter().map(|&k| OPS[k]).collect::<Vec<_>>()}),
        move |i, ctx| {
            struct W<T> {
                models: [T; 2],
                fp: [Vec<String>; 2],
                dir: PathBuf,
            }
            if ctx.any.as_ref().map_or(true, |a| !a.is::<W<T>>()) {
                let dir = ctx.scratch.join("keep");
                std::fs::create_dir_all(&dir).unwrap();
                let models = make(&dir)?;
                let fp = [finger(&models[0]), finger(&models[1])];
                ctx.any = Some(Box::new(W { models, fp, dir }));
            }
            let w = ctx.any.take().unwrap();
            let r = (|| {
                let w = w.downcast_ref::<W<T>>().unwrap();
                let paths = [w.dir.join("p"), w.dir.join("q")];
                for p in &paths {
                    let _ = std::fs::remove_file(p);
                }
                let mut disk: [Option<usize>; 2] = [None, None];
                let mut cur: Option<(usize, T)> = None;
                for op in seq_decode(i, 8, 1, max) {
                    match op {
                        0..=3 => {
                            let (m, p) = (op % 2, op / 2);
                            w.models[m].store(&paths[p]).map_err(save_err)?;
                            disk[p] = Some(m);
                        }
                        4 | 5 => {
                            let p = op - 4;
                            match (disk[p], T::fetch(&paths[p])) {
                                (Some(m), Ok(got)) => {
                                    ensure!(finger(&got) == w.fp[m], "sequence", "{:?} holds another value", OPS[op]);
                                    cur = Some((m, got));
                                }
                                (None, Err(_)) => {}
                                (Some(_), Err(e)) => return Err(Fail::new("sequence", format!("{}: {e}", OPS[op]))),
                                (None, Ok(_)) => return Err(Fail::new("sequence", "loaded a file that does not exist")),
                            }
                        }
                        _ => {
                            if let Some((m, model)) = &cur {
                                model.store(&paths[op - 6]).map_err(save_err)?;
                                disk[op - 6] = Some(*m);
                            }
                        }
                    }
                }
                for p in 0..2 {
                    match disk[p] {
                        Some(m) => ensure!(finger(&T::fetch(&paths[p]).map_err(|e| Fail::new("load", e))?) == w.fp[m], "sequence", "the last saved value is not the one loaded"),
                        None => ensure!(!paths[p].exists(), "sequence", "a file appeared"),
                    }
                }
                Ok(disk)
            })();
            ctx.any = Some(w);
            let disk = r?;
            ctx.eval();
            ctx.step(max as u64);
            ctx.state(i);
            ctx.outcome(disk);
            ctx.nontrivial(i);
            Ok(())
        },
    )
}

// ------------------------------------------------------------------------------------------------ C19

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    ModelSmall,
    ModelGroups,
    ModelBig,
    Report,
}
const WHAT: [What; 4] = [What::ModelSmall, What::ModelGroups, What::ModelBig, What::Report];

enum Value {
    M(Model),
    R(Report),
}

impl Value {
    fn make(w: What, dir: &Path) -> Result<Value, Fail> {
        Ok(match w {
            What::ModelSmall => Value::M(train(baselines(1, dir)?)?),
            What::ModelGroups => Value::M(train(baselines(2, dir)?)?),
            What::ModelBig => Value::M(train(baselines(5, dir)?)?),
            What::Report => Value::R(report(&train(baselines(1, dir)?)?, targets(dir)?[0].clone())?),
        })
    }
    fn save(&self, p: &Path) -> Result<(), String> {
        match self {
            Value::M(m) => m.save(p).map_err(|e| format!("{e:#}")),
            Value::R(r) => r.save(p).map_err(|e| format!("{e:#}")),
        }
    }
    /// None: clean error.
    fn load(&self, p: &Path) -> Option<Vec<String>> {
        match self {
            Value::M(_) => Model::load(p).ok().map(|m| finger(&m)),
            Value::R(_) => Report::load(p).ok().map(|m| finger(&m)),
        }
    }
    fn finger(&self) -> Vec<String> {
        match self {
            Value::M(m) => finger(m),
            Value::R(m) => finger(m),
        }
    }
}

/// The file operations of a save, and the images of the file before each of them.
fn record(v: &Value, dir: &Path, old: Option<&[u8]>) -> (Vec<(Kind, usize)>, Vec<Option<Vec<u8>>>, Result<(), String>) {
    let p = dir.join("file");
    let _ = std::fs::remove_file(&p);
    if let Some(o) = old {
        std::fs::write(&p, o).unwrap();
    }
    let ops = Arc::new(Mutex::new((vec![], vec![])));
    let (o2, p2) = (ops.clone(), p.clone());
    let r = interpose::with_hook(
        dir,
        move |op| {
            let mut o = o2.lock().unwrap();
            o.0.push((op.kind, op.len));
            o.1.push(std::fs::read(&p2).ok());
            Act::Go
        },
        || v.save(&p),
    );
    let mut o = ops.lock().unwrap();
    o.1.push(std::fs::read(&p).ok());
    (std::mem::take(&mut o.0), std::mem::take(&mut o.1), r)
}

pub fn c19(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    const MODES: [&str; 5] = ["EIO", "ENOSPC", "one byte then ENOSPC", "half then EIO", "short writes only"];
    const MAXOP: u64 = 40;
    v.push(Space::new(
        "faults",
        "a failure at every file operation (up to 40) of saving 3 models and a report, in 5 modes, with and without a previous file",
        4 * MAXOP * 5 * 2,
        |i| {
            let mut d = Dec(i);
            json!({"what": format!("{:?}", d.pick(&WHAT)), "operation": d.take(MAXOP), "mode": MODES[d.take(5)], "previous_file": d.take(2)})
        },
        |i, ctx| {
            let mut d = Dec(i);
            let w = *d.pick(&WHAT);
            let at = d.take(MAXOP);
            let mode = d.take(5);
            let prev = d.take(2) == 1;
            let dir = ctx.clean_scratch();
            let val = Value::make(w, &dir)?;
            let out = dir.join("out");
            std::fs::create_dir_all(&out).unwrap();
            let p = out.join("file");
            let (ops, _, r) = record(&val, &out, None);
            ensure!(r.is_ok(), "save", "{w:?}: {r:?}");
            ensure!(val.load(&p) == Some(val.finger()), "acknowledged", "{w:?}: saved without any failure, does not load back equal");
            if at >= ops.len() {
                ctx.count("beyond the last operation", 1);
                return Ok(());
            }
            let _ = std::fs::remove_file(&p);
            if prev {
                std::fs::write(&p, vec![7u8; 100_000]).unwrap();
            }
            let n = Arc::new(Mutex::new((0usize, 0usize, false)));
            let n2 = n.clone();
            let r = interpose::with_hook(
                &out,
                move |op| {
                    let mut s = n2.lock().unwrap();
                    let me = s.0;
                    s.0 += 1;
                    let fail = |s: &mut (usize, usize, bool), e| {
                        // closing cannot be seen to fail by the program
                        if op.kind != Kind::Close {
                            s.2 = true;
                        }
                        Act::Err(e)
                    };
                    match mode {
                        // the disk stays full
                        1 if me >= at => fail(&mut s, libc::ENOSPC),
                        0 if me == at => fail(&mut s, libc::EIO),
                        2 if me == at && op.kind == Kind::Write => Act::Short(1),
                        2 if me == at => fail(&mut s, libc::ENOSPC),
                        2 if me == at + 1 && op.kind == Kind::Write => fail(&mut s, libc::ENOSPC),
                        3 if me == at && op.kind == Kind::Write => Act::Short(op.len.div_ceil(2)),
                        3 if me == at + 1 => fail(&mut s, libc::EIO),
                        4 if me >= at && op.kind == Kind::Write => Act::Short(op.len.div_ceil(3).max(64).min(op.len)),
                        _ => Act::Go,
                    }
                },
                || guard("save", || val.save(&p)),
            )?;
            let failed = n.lock().unwrap().2;
            ctx.eval();
            ctx.step(n.lock().unwrap().0 as u64);
            ctx.state((format!("{w:?}"), at, mode, prev));
            if failed {
                ctx.nontrivial((format!("{w:?}"), at, mode, prev));
            }
            ctx.outcome((r.is_ok(), failed));
            let loaded = guard("load", || val.load(&p))?;
            if r.is_ok() {
                ensure!(loaded == Some(val.finger()), "acknowledged", "{w:?}, {:?} failing ({}): saving succeeded but the file {}", ops[at].0, MODES[mode], if loaded.is_none() { "does not load" } else { "loads as another value" });
                ensure!(!(failed && matches!(ops[at].0, Kind::Write | Kind::Create) && mode < 4), "ignored", "{w:?}: a failed {:?} ({}) was ignored", ops[at].0, MODES[mode]);
            } else {
                ensure!(failed, "spurious", "{w:?}: saving failed without any failing operation ({}): {r:?}", MODES[mode]);
                ensure!(loaded.is_none() || loaded == Some(val.finger()), "partial", "{w:?}: after a failed save the file loads as another value");
            }
            Ok(())
        },
    ));
    v.push(Space::new(
        "crash",
        "a crash before and after every file operation of saving, over no file and over an older valid file",
        4 * 2,
        |i| json!({"what": format!("{:?}", WHAT[(i % 4) as usize]), "older_file": i / 4}),
        |i, ctx| {
            let w = WHAT[(i % 4) as usize];
            let dir = ctx.clean_scratch();
            let val = Value::make(w, &dir)?;
            let older = Value::make(w, &dir)?;
            let out = dir.join("out");
            std::fs::create_dir_all(&out).unwrap();
            let p = out.join("file");
            older.save(&p).map_err(|e| Fail::new("save", e))?;
            let old = std::fs::read(&p).unwrap();
            let (ops, images, r) = record(&val, &out, if i / 4 == 1 { Some(&old) } else { None });
            ensure!(r.is_ok(), "save", "{r:?}");
            for (k, im) in images.iter().enumerate() {
                match im {
                    None => {
                        let _ = std::fs::remove_file(&p);
                    }
                    Some(b) => std::fs::write(&p, b).unwrap(),
                }
                let l = guard("load", || val.load(&p))?;
                let last = k + 1 == images.len();
                ensure!(
                    (l.is_none() && !last) || l == Some(val.finger()) || (i / 4 == 1 && !last && l == Some(older.finger())),
                    "crash",
                    "{w:?}: the image before operation {k} of {} loads as another value",
                    ops.len()
                );
                ctx.eval();
                ctx.state((i, k));
                ctx.outcome(l.is_some());
            }
            ctx.step(ops.len() as u64);
            ctx.nontrivial(i);
            Ok(())
        },
    ));
    // every prefix of the file
    let step = tier.pick(1usize, 1);
    let parts = 8u64;
    v.push(Space::new(
        "prefixes",
        "every prefix of the saved files of 2 models and a report (big one: every 101st byte and the last 64 bytes)",
        4 * parts,
        |i| json!({"what": format!("{:?}", WHAT[(i % 4) as usize]), "lengths_modulo_8": i / 4}),
        move |i, ctx| {
            let w = WHAT[(i % 4) as usize];
            let dir = ctx.clean_scratch();
            let val = Value::make(w, &dir)?;
            let p = dir.join("file");
            val.save(&p).map_err(|e| Fail::new("save", e))?;
            let full = std::fs::read(&p).unwrap();
            let fp = val.finger();
            let stride = if w == What::ModelBig { tier.pick(1009, 101) } else { step };
            for n in 0..full.len() {
                if n as u64 % parts != i / 4 || (n / 8 % stride != 0 && n + 64 < full.len()) {
                    continue;
                }
                std::fs::write(&p, &full[..n]).unwrap();
                let l = guard("load", || val.load(&p))?;
                ensure!(l.is_none() || l.as_ref() == Some(&fp), "prefix", "{w:?}: the first {n} of {} bytes load as another value", full.len());
                ctx.eval();
                ctx.step(1);
                ctx.state((format!("{w:?}"), n));
                ctx.outcome(l.is_some());
            }
            ctx.nontrivial(i);
            Ok(())
        },
    ));
    // every byte changed, every block lost
    const KINDS: [&str; 6] = ["lowest bit", "highest bit", "all bits", "zero", "512 bytes of zeros", "byte removed"];
    v.push(Space::new(
        "damage",
        "every byte of the saved files of 2 models and a report changed in 4 ways, removed, or replaced by a block of zeros (big one: every 1009th byte, thorough 101st)",
        4 * 6 * parts,
        |i| json!({"what": format!("{:?}", WHAT[(i % 4) as usize]), "change": KINDS[(i / 4 % 6) as usize], "positions_modulo_8": i / 24}),
        move |i, ctx| {
            let w = WHAT[(i % 4) as usize];
            let kind = i / 4 % 6;
            let dir = ctx.clean_scratch();
            let val = Value::make(w, &dir)?;
            let p = dir.join("file");
            val.save(&p).map_err(|e| Fail::new("save", e))?;
            let full = std::fs::read(&p).unwrap();
            let fp = val.finger();
            let stride = if w == What::ModelBig { tier.pick(1009, 101) } else { 1 };
            for n in 0..full.len() {
                if n as u64 % parts != i / 24 || n / 8 % stride != 0 {
                    continue;
                }
                let mut d = full.clone();
                match kind {
                    0 => d[n] ^= 1,
                    1 => d[n] ^= 0x80,
                    2 => d[n] ^= 0xff,
                    3 => d[n] = 0,
                    4 => {
                        let e = (n + 512).min(d.len());
                        d[n..e].fill(0);
                    }
                    _ => {
                        d.remove(n);
                    }
                }
                std::fs::write(&p, &d).unwrap();
                let l = guard("load", || val.load(&p))?;
                ensure!(l.is_none() || l.as_ref() == Some(&fp), "damage", "{w:?}: with {} at {n} of {} bytes, the file loads as another value", KINDS[kind as usize], full.len());
                ctx.eval();
                ctx.step(1);
                ctx.state((format!("{w:?}"), kind, n));
                ctx.outcome(l.is_some());
            }
            ctx.nontrivial(i);
            Ok(())
        },
    ));
    v
}
