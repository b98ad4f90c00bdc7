//! Discovery of Zuul baselines.
use crate::*;
use chrono::{Duration, NaiveDate, Utc};
use httpsrv::{Reply, Server};
use logreduce_model::{Content, Input};
use std::collections::HashMap;

const ID: &str = "a498f74ab32b49ffa9c9e7463fbf8885";

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub struct Cand {
    itself: bool,
    project: bool,
    /// 0: the same, 1: another, 2: none
    change: u8,
    branch: bool,
    /// check, gate, periodic, other names that contain them
    pipeline: u8,
    voting: bool,
    /// days ago
    age: i64,
    /// 0: available, 1: 404, 2: no url, 3: dropped connection, 4: redirected to an available page, 5: nobody listens, 6: server error
    logs: u8,
    ref_url: bool,
    /// 0: a good entry, others: damaged ones
    damage: u8,
}

const PIPES: [&str; 9] = ["check", "gate", "periodic", "post", "periodic-weekly", "experimental-gate", "Gate", "release-periodic", "gate-2"];

const BEST: Cand = Cand { itself: false, project: true, change: 1, branch: true, pipeline: 1, voting: true, age: 0, logs: 0, ref_url: true, damage: 0 };

fn usable(c: &Cand) -> bool {
    !c.itself && c.change != 2 && matches!(c.logs, 0 | 4) && c.ref_url && c.damage == 0
}

fn score(c: &Cand) -> i64 {
    let mut s = 0;
    if c.project {
        s += if c.change == 0 { -500 } else { 50 };
    }
    if c.branch {
        s += 50;
    }
    if PIPES[c.pipeline as usize].contains("gate") || PIPES[c.pipeline as usize].contains("periodic") {
        s += 50;
    }
    if c.voting {
        s += 10;
    }
    s - c.age.max(0)
}

fn entry(k: usize, c: &Cand, srv: &Server, today: NaiveDate, late: bool) -> Value {
    let id = if c.itself { ID.to_string() } else { format!("{:032x}", k + 1) };
    let day = today - Duration::days(c.age);
    let mut v = build_json(
        &id,
        srv,
        &[
            ("result", json!("SUCCESS")),
            ("end_time", json!(format!("{}T{}", day.format("%Y-%m-%d"), if late { "23:59:59" } else { "00:00:00" }))),
            ("voting", json!(c.voting)),
            ("pipeline", json!(PIPES[c.pipeline as usize])),
            ("project", json!(if c.project { "the/project" } else { "other/project" })),
            ("branch", json!(if c.branch { "main" } else { "stable" })),
            ("change", [json!(7), json!(100 + k), Value::Null][c.change as usize].clone()),
            ("log_url", if c.logs == 2 { Value::Null } else if c.logs == 5 { json!("http://127.0.0.1:1/logs/") } else { json!(format!("{}/logs/{k}/", srv.base())) }),
            ("ref_url", if c.ref_url { json!(format!("{}/ref/{k}", srv.base())) } else { Value::Null }),
        ],
    );
    match c.damage {
        1 => v["end_time"] = json!("yesterday"),
        2 => v = json!(42),
        3 => v["uuid"] = Value::Null,
        4 => v["log_url"] = json!("no url"),
        5 => v = json!({}),
        _ => {}
    }
    v
}

fn routes(cands: &[Cand], srv: &Server, today: NaiveDate, late: bool) -> HashMap<String, Reply> {
    let mut r: HashMap<String, Reply> = HashMap::new();
    r.insert(format!("/zuul/api/build/{ID}"), Reply::ok(build_json(ID, srv, &[]).to_string()));
    let list: Vec<Value> = cands.iter().enumerate().map(|(k, c)| entry(k, c, srv, today, late)).collect();
    // whatever else is asked for: the list of builds
    for (k, c) in cands.iter().enumerate() {
        let reply = match c.logs {
            0 => Reply::ok("x"),
            3 => Reply::drop(),
            4 => Reply::redirect("/moved/"),
            6 => Reply::status(503, ""),
            _ => Reply::status(404, "x"),
        };
        r.insert(format!("/logs/{k}/"), reply);
    }
    r.insert("/moved/".into(), Reply::ok("x"));
    r.insert("*".into(), Reply::ok(Value::Array(list).to_string()));
    r
}

fn check_query(log: &[(String, String)], srv: &Server) -> Res {
    check_query_of(log, srv, "the job")
}

fn check_query_of(log: &[(String, String)], srv: &Server, job: &str) -> Res {
    let asked: Vec<&String> = log.iter().filter(|r| r.0 == "GET" && r.1.contains("builds")).map(|r| &r.1).collect();
    ensure!(!asked.is_empty(), "query", "the list of builds was not asked for: {log:?}");
    for a in asked {
        let u = url::Url::parse(&format!("{}{a}", srv.base())).unwrap();
        let q: Vec<(String, String)> = u.query_pairs().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        ensure!(u.path() == "/zuul/api/builds", "query", "{a} is asked for");
        ensure!(q.contains(&("job_name".into(), job.into())) && q.contains(&("result".into(), "SUCCESS".into())), "query", "{a} does not ask for the successful builds of the job");
    }
    Ok(())
}

/// The name of what was found: the uuid.
fn discover(url: &str) -> Result<Value, Fail> {
    let c = Content::from_input(Input::from_string(url.to_string())).map_err(|e| Fail::new("target", format!("{e:#}")))?;
    Ok(match c.discover_baselines() {
        Err(e) => json!({"err": format!("{e:#}")}),
        Ok(v) => Value::Array(
            v.iter()
                .map(|c| match c {
                    Content::Zuul(b) => json!({"uuid": b.uuid, "show": format!("{b}"), "log_url": b.log_url.as_str(), "ref_url": b.ref_url.as_str(), "change": b.change, "project": b.project, "branch": b.branch, "pipeline": b.pipeline,
                        "result": b.result, "job": b.job_name, "end": b.end_time.to_rfc3339()}),
                    c => json!({"other": format!("{c:?}")}),
                })
                .collect(),
        ),
    })
}

fn judge(v: &Value, cands: &[Cand], srv: &Server, today: NaiveDate, late: bool) -> Res {
    let best = cands.iter().filter(|c| usable(c)).map(score).max();
    match (best, v.as_array()) {
        (None, None) => Ok(()),
        (None, Some(a)) => Err(Fail::new("unusable", format!("no build is usable, and {a:?} is chosen"))),
        (Some(_), None) => Err(Fail::new("missed", format!("there is a usable build, and discovery fails: {v}"))),
        (Some(s), Some(a)) => {
            ensure!(a.len() == 1, "count", "{} baselines: {v}", a.len());
            let got = &a[0];
            for (k, c) in cands.iter().enumerate() {
                if usable(c) && score(c) == s {
                    let e = entry(k, c, srv, today, late);
                    if got["uuid"] == e["uuid"] {
                        for f in ["log_url", "ref_url", "change", "project", "branch", "pipeline", "result"] {
                            ensure!(got[f] == e[f], "field", "{f} of the baseline is {}, not {}", got[f], e[f]);
                        }
                        let end = format!("{}+00:00", e["end_time"].as_str().unwrap());
                        ensure!(got["end"] == json!(end), "field", "the end time is {}, not {end}", got["end"]);
                        let show = format!("{}/zuul/api/build/{}", srv.base(), e["uuid"].as_str().unwrap());
                        ensure!(got["show"] == json!(show), "field", "the baseline is {}, not {show}", got["show"]);
                        return Ok(());
                    }
                }
            }
            Err(Fail::new("choice", format!("{} is chosen; scores {:?}", got["uuid"], cands.iter().map(|c| (usable(c), score(c))).collect::<Vec<_>>())))
        }
    }
}

fn run(cands: &[Cand], ctx: &mut Ctx, late: bool) -> Res {
    let srv = server(ctx);
    loop {
        let today = Utc::now().date_naive();
        srv.set(routes(cands, srv, today, late));
        let v = guard("discovery", || discover(&format!("{}/zuul/build/{ID}", srv.base())))??;
        if Utc::now().date_naive() != today {
            continue;
        }
        ctx.eval();
        ctx.step(cands.len() as u64);
        ctx.state(cands);
        ctx.outcome(v.as_array().map(|a| a[0]["uuid"].to_string()));
        if cands.iter().any(usable) {
            ctx.nontrivial(cands);
        }
        judge(&v, cands, srv, today, late)?;
        return check_query(&srv.take_log(), srv);
    }
}

fn show(c: &[Cand]) -> Value {
    json!({"builds": c.iter().map(|x| format!("{x:?} score {}", score(x))).collect::<Vec<_>>()})
}

/// Every combination of attributes of one candidate, alone and besides a poor one.
fn single() -> Space {
    let make = |i: u64| {
        let mut d = Dec(i);
        let c = Cand {
            itself: d.take(2) == 1,
            project: d.take(2) == 1,
            change: d.take(3) as u8,
            branch: d.take(2) == 1,
            pipeline: d.take(3) as u8,
            voting: d.take(2) == 1,
            age: [0, 1, 300, -3][d.take(4)],
            logs: d.take(6) as u8,
            ref_url: d.take(2) == 1,
            damage: 0,
        };
        let poor = Cand { project: false, branch: false, pipeline: 0, voting: false, age: 40, ..BEST };
        match d.take(2) {
            0 => vec![c],
            _ => vec![poor, c],
        }
    };
    let total = 2 * 2 * 3 * 2 * 3 * 2 * 4 * 6 * 2 * 2;
    Space::new("attributes", "every combination of the attributes of one build, alone and with a build of score -40", total, move |i| show(&make(i)), move |i, ctx| run(&make(i), ctx, i % 2 == 1))
}

fn profiles() -> Vec<Cand> {
    let mut v = vec![];
    for (project, change) in [(true, 0u8), (true, 1), (true, 2), (false, 0), (false, 2)] {
        for branch in [true, false] {
            for (pipeline, voting) in [(1u8, true), (0, true), (0, false)] {
                for age in [0i64, 55] {
                    v.push(Cand { project, change, branch, pipeline, voting, age, ..BEST });
                }
            }
        }
    }
    // builds of the future (clocks that differ) are of today
    for age in [-1i64, -20, -400] {
        v.push(Cand { age, voting: false, ..BEST });
    }
    // very old ones
    for age in [366i64, 1000, 9000] {
        v.push(Cand { age, ..BEST });
    }
    for logs in 1..=6 {
        v.push(Cand { logs, ..BEST });
    }
    v.push(Cand { ref_url: false, ..BEST });
    v.push(Cand { itself: true, ..BEST });
    for damage in 1..=5 {
        v.push(Cand { damage, ..BEST });
    }
    v
}

fn pairs() -> Space {
    let p = profiles();
    let q = profiles();
    let n = p.len() as u64;
    let make = move |i: u64, p: &[Cand]| vec![p[(i % n) as usize], p[(i / n) as usize]];
    Space::new("pairs", format!("every ordered pair of {n} kinds of builds"), n * n, move |i| show(&make(i, &q)), move |i, ctx| run(&make(i, &p), ctx, false))
}

fn triples(tier: Tier) -> Space {
    let mut p: Vec<Cand> = profiles().into_iter().step_by(tier.pick(4, 1)).collect();
    p.push(BEST);
    p.push(Cand { logs: 1, ..BEST });
    p.push(Cand { itself: true, ..BEST });
    p.push(Cand { damage: 2, ..BEST });
    let q = p.clone();
    let n = p.len() as u64;
    let make = move |i: u64, p: &[Cand]| seq_decode(i, n, 0, 3).iter().map(|k| p[*k]).collect::<Vec<_>>();
    Space::new("triples", format!("every list of up to three of {n} kinds of builds"), seq_count(n, 0, 3), move |i| show(&make(i, &q)), move |i, ctx| run(&make(i, &p), ctx, false))
}

/// The weights against each other: ages around every sum of the bonuses.
fn weights() -> Space {
    let kinds: Vec<Cand> = {
        let mut v = vec![];
        for (project, change) in [(true, 0u8), (true, 1), (false, 1)] {
            for branch in [true, false] {
                for pipeline in 0..PIPES.len() as u8 {
                    for voting in [true, false] {
                        v.push(Cand { project, change, branch, pipeline, voting, ..BEST });
                    }
                }
            }
        }
        v
    };
    let k2 = kinds.clone();
    let n = kinds.len() as u64;
    let make = move |i: u64, k: &[Cand]| {
        let mut d = Dec(i);
        let a = k[d.take(n)];
        let mut b = Cand { age: 0, project: false, branch: false, pipeline: 0, voting: false, ..BEST };
        // a second build whose score is one more or one less
        let delta = [1i64, -1][d.take(2)];
        b.age = -(score(&a) + delta);
        let mut a = a;
        if b.age < 0 {
            a.age = -b.age;
            b.age = 0;
            // now score(b) = 0 and score(a) = -delta
            a.age = score(&Cand { age: 0, ..a }) + delta;
        }
        if d.take(2) == 0 {
            vec![a, b]
        } else {
            vec![b, a]
        }
    };
    Space::new("weights", format!("{n} kinds of builds, each against a plain one of a score one day better or worse, in both orders"), n * 4, move |i| show(&make(i, &k2)), move |i, ctx| run(&make(i, &kinds), ctx, i % 2 == 0))
}

/// Lists of many builds, the good one anywhere.
fn long(tier: Tier) -> Space {
    let sizes: &'static [usize] = tier.pick(&[10, 101, 500, 1100], &[10, 99, 100, 101, 255, 256, 257, 499, 500, 501, 1100]);
    const AT: u64 = 7;
    let make = move |i: u64| {
        let mut d = Dec(i);
        let n = *d.pick(sizes);
        let at = [0, 1, n / 3, n / 2, n - 2, n - 1, 8][d.take(AT)];
        let kind = d.take(3);
        (0..n)
            .map(|k| {
                let poor = Cand { project: false, branch: false, pipeline: 0, voting: false, age: 20 + (k % 7) as i64, ..BEST };
                match (k == at, kind) {
                    (true, _) => Cand { age: 3, ..BEST },
                    (_, 0) => poor,
                    (_, 1) => Cand { logs: 1, ..BEST },
                    _ => Cand { damage: 2, ..BEST },
                }
            })
            .collect::<Vec<_>>()
    };
    Space::new("long lists", format!("lists of {sizes:?} builds, poor, unavailable or damaged, the best at {AT} places"), sizes.len() as u64 * AT * 3, move |i| json!({"i": i, "size": make(i).len()}), move |i, ctx| run(&make(i), ctx, false)).timeout(300)
}

/// The same list with the cache off, cold and warm; the answers of the API damaged.
fn cached() -> Space {
    let p: Vec<Cand> = vec![BEST, Cand { logs: 1, ..BEST }, Cand { age: 30, ..BEST }, Cand { logs: 5, ..BEST }, Cand { project: false, ..BEST }, Cand { itself: true, ..BEST }];
    let q = p.clone();
    let n = p.len() as u64;
    let lists = seq_count(n, 0, 2);
    let make = move |i: u64, p: &[Cand]| seq_decode(i, n, 0, 2).iter().map(|k| p[*k]).collect::<Vec<_>>();
    Space::new(
        "cache",
        "every list of up to two of 6 kinds of builds: cache off, cold, warm, warm with the server gone",
        lists,
        move |i| show(&make(i, &q)),
        move |i, ctx| {
            let cands = make(i, &p);
            let srv = server(ctx);
            let today = Utc::now().date_naive();
            let home = ctx.clean_scratch();
            let url = format!("{}/zuul/build/{ID}", srv.base());
            srv.set(routes(&cands, srv, today, false));
            for (round, mode) in [child::CacheMode::Off, child::CacheMode::On, child::CacheMode::On, child::CacheMode::On].into_iter().enumerate() {
                if round == 3 {
                    srv.set([("*".to_string(), Reply::drop())].into());
                    // availability checks that failed are not kept
                    if cands.iter().any(|c| c.logs == 5) {
                        continue;
                    }
                }
                let u = url.clone();
                let v = child::in_child(&home, mode, move || discover(&u)).map_err(|f| Fail::new(f.key, format!("round {round}: {}", f.msg)))?;
                if Utc::now().date_naive() != today {
                    return Ok(());
                }
                ctx.eval();
                ctx.step(1);
                judge(&v, &cands, srv, today, false).map_err(|f| Fail::new(f.key, format!("round {round}: {}", f.msg)))?;
                if round >= 2 {
                    let log = srv.take_log();
                    ensure!(log.iter().all(|r| r.0 == "HEAD" && cands.iter().any(|c| c.logs == 5)), "requests", "round {round}: the warm cache asked for {log:?}");
                }
                srv.take_log();
            }
            ctx.state(&cands);
            ctx.nontrivial(&cands);
            Ok(())
        },
    )
}

/// What the list request itself gives.
fn lists() -> Space {
    const K: u64 = 13;
    Space::new(
        "list answers",
        format!("{K} answers to the request of the list"),
        K,
        |i| json!({"answer": i}),
        |i, ctx| {
            let srv = server(ctx);
            let today = Utc::now().date_naive();
            let mut r = routes(&[BEST], srv, today, false);
            let body = r["*"].body.clone();
            let (reply, good) = match i {
                0 => (Reply::ok(body), true),
                1 => (Reply::ok("[]"), false),
                2 => (Reply::ok(""), false),
                3 => (Reply::ok("null"), false),
                4 => (Reply::ok("{}"), false),
                5 => (Reply::ok(&body[..body.len() / 2]), false),
                6 => (Reply::ok(body).cut(30), false),
                7 => (Reply::drop(), false),
                8 => (Reply::status(500, "oops"), false),
                9 => (Reply::status(404, "[]"), false),
                10 => (Reply::ok("<html>"), false),
                11 => (Reply::ok(body).chunked(), true),
                _ => (Reply::ok("[null, 1, {}, [], \"x\"]"), false),
            };
            r.insert("*".into(), reply);
            srv.set(r);
            let v = guard("discovery", || discover(&format!("{}/zuul/build/{ID}", srv.base())))??;
            ctx.eval();
            ctx.step(1);
            ctx.state(i);
            ctx.nontrivial(i);
            if Utc::now().date_naive() == today {
                judge(&v, if good { &[BEST] } else { &[] }, srv, today, false)?;
            }
            Ok(())
        },
    )
}

/// A damaged answer to the request of the list, and a good one in the next run: with the cache on.
fn recovered() -> Space {
    const K: u64 = 9;
    Space::new(
        "recovered lists",
        "9 damaged answers to the request of the list or of the build, then good answers: the next run with the cache on finds the baseline",
        K * 2,
        |i| json!({"answer": i % K, "of": (["list", "build"])[(i / K) as usize]}),
        |i, ctx| {
            let srv = server(ctx);
            let today = Utc::now().date_naive();
            let good = routes(&[BEST], srv, today, false);
            let key = if i / K == 0 { "*".to_string() } else { format!("/zuul/api/build/{ID}") };
            let body = good[&key].body.clone();
            let reply = match i % K {
                0 => Reply::ok(""),
                1 => Reply::ok("null"),
                2 => Reply::ok("{}"),
                3 => Reply::ok(&body[..body.len() / 2]),
                4 => Reply::ok(body).cut(30),
                5 => Reply::drop(),
                6 => Reply::status(500, "oops"),
                7 => Reply::status(404, "[]"),
                _ => Reply::ok("<html>"),
            };
            let home = ctx.clean_scratch();
            let url = format!("{}/zuul/build/{ID}", srv.base());
            let mut bad = good.clone();
            bad.insert(key, reply);
            srv.set(bad);
            let u = url.clone();
            let first = child::in_child(&home, child::CacheMode::On, move || Ok(discover(&u).unwrap_or_else(|f| json!({"err": f.msg}))))?;
            ctx.eval();
            ensure!(first.get("err").is_some(), "damaged", "a damaged answer gives {first}");
            srv.set(good);
            let v = child::in_child(&home, child::CacheMode::On, move || discover(&url)).map_err(|f| Fail::new("recovered", format!("with a good answer: {}", f.msg)))?;
            ctx.eval();
            ctx.step(2);
            ctx.state(i);
            ctx.nontrivial(i);
            if Utc::now().date_naive() == today {
                judge(&v, &[BEST], srv, today, false).map_err(|f| Fail::new("recovered", format!("with a good answer: {}", f.msg)))?;
            }
            srv.take_log();
            Ok(())
        },
    )
}

/// What the target build says about itself.
fn targets() -> Space {
    const JOBS: [&str; 12] = ["the job", "a+b", "a/b", "a&b=c", "a#b", "a%20b", "a?b", "\u{e9}\u{65e5}", "", "+", "x/", "the job;result=FAILURE"];
    const PROJ: [&str; 6] = ["the/project", "", "\u{e9}", "the/project ", "THE/PROJECT", "the/project/sub"];
    const BRANCH: [&str; 4] = ["main", "", "main ", "feature/main"];
    Space::new(
        "targets",
        "12 job names (url characters, spaces, multi-byte, empty) x 6 projects x 4 branches of the target: the list of that job is asked for, and the score compares with this target",
        12 * 6 * 4,
        |i| {
            let mut d = Dec(i);
            json!({"job": JOBS[d.take(12)], "project": PROJ[d.take(6)], "branch": BRANCH[d.take(4)]})
        },
        |i, ctx| {
            let mut d = Dec(i);
            let (job, project, branch) = (JOBS[d.take(12)], PROJ[d.take(6)], BRANCH[d.take(4)]);
            let srv = server(ctx);
            let today = Utc::now().date_naive();
            // two builds: of the project or the branch named as usual, and another one twenty days older
            let mut a = BEST;
            a.age = 60;
            let b = Cand { project: false, branch: false, age: 0, ..BEST };
            let mut r = routes(&[a, b], srv, today, false);
            r.insert(format!("/zuul/api/build/{ID}"), Reply::ok(build_json(ID, srv, &[("job_name", json!(job)), ("project", json!(project)), ("branch", json!(branch))]).to_string()));
            srv.set(r);
            srv.take_log();
            let v = guard("discovery", || discover(&format!("{}/zuul/build/{ID}", srv.base())))??;
            ctx.eval();
            ctx.step(1);
            ctx.state(i);
            ctx.nontrivial(i);
            if Utc::now().date_naive() != today {
                return Ok(());
            }
            // the first one has 50 more for each that matches, less 60 days
            let bonus = 50 * ((project == "the/project") as i64 + (branch == "main") as i64);
            let exp = format!("{:032x}", if bonus > 60 { 1 } else { 2 });
            ensure!(v[0]["uuid"] == json!(exp), "choice", "{v} is chosen, not {exp}");
            check_query_of(&srv.take_log(), srv, job)
        },
    )
}

/// Names and ids that are almost those of the target.
fn nearly() -> Space {
    const PROJ: [&str; 12] = ["the/project", "the/Project", "the/project ", "the/project/", "/the/project", "the/project.git", "opendev.org/the/project", "project", "the", "other/project", "", "the/projec"];
    const BRANCH: [&str; 14] = ["main", "stable/main", "Main", "main ", " main", "main/", "mai", "main2", "refs/heads/main", "feature/main", "origin/main", "", "stable", "stable/main2"];
    const UUID: [&str; 5] = ["A498F74AB32B49FFA9C9E7463FBF8885", "a498f74ab32b49ffa9c9e7463fbf888", "a498f74ab32b49ffa9c9e7463fbf88850", "", "b498f74ab32b49ffa9c9e7463fbf8885"];
    const N: u64 = 12 * 14 * 2;
    Space::new(
        "nearly the same",
        "12 projects x 14 branches of a recent build, or of the target, where an older build has exactly those of the target; 5 ids that are almost the one of the target",
        N + 5,
        |i| {
            let mut d = Dec(i);
            match i {
                0..N => json!({"project": d.pick(&PROJ), "branch": d.pick(&BRANCH), "of the target": d.take(2) == 1}),
                _ => json!({"id": (UUID[(i - N) as usize])}),
            }
        },
        |i, ctx| {
            let srv = server(ctx);
            let today = Utc::now().date_naive();
            let mut d = Dec(i);
            let mut list = vec![entry(0, &Cand { age: 40, ..BEST }, srv, today, false), entry(1, &BEST, srv, today, false)];
            let (mut tp, mut tb) = ("the/project", "main");
            if i < N {
                let (p, b, swap) = (*d.pick(&PROJ), *d.pick(&BRANCH), d.take(2) == 1);
                let near = if swap { 0 } else { 1 };
                list[near]["project"] = json!(p);
                list[near]["branch"] = json!(b);
                if swap {
                    (tp, tb) = (p, b);
                }
            } else {
                list[1]["uuid"] = json!(UUID[(i - N) as usize]);
            }
            let score = |k: usize| 50 * ((list[k]["project"] == json!(tp)) as i64 + (list[k]["branch"] == json!(tb)) as i64) - [40, 0][k];
            let exp = list[(score(1) > score(0)) as usize]["uuid"].clone();
            let mut r = routes(&[BEST, BEST], srv, today, false);
            r.insert(format!("/zuul/api/build/{ID}"), Reply::ok(build_json(ID, srv, &[("project", json!(tp)), ("branch", json!(tb))]).to_string()));
            r.insert("*".into(), Reply::ok(Value::Array(list.clone()).to_string()));
            srv.set(r);
            let v = guard("discovery", || discover(&format!("{}/zuul/build/{ID}", srv.base())))??;
            ctx.eval();
            ctx.step(1);
            ctx.state(i);
            ctx.nontrivial(i);
            if Utc::now().date_naive() != today {
                return Ok(());
            }
            ensure!(v[0]["uuid"] == exp, "choice", "{v} is chosen, not {exp}, scores {} and {}", score(0), score(1));
            Ok(())
        },
    )
}

pub fn spaces(tier: Tier) -> Vec<Space> {
    vec![recovered(), targets(), nearly(), single(), pairs(), triples(tier), weights(), long(tier), cached(), lists()]
}
