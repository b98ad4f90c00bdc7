//! Logs behind urls against local copies of them.
use crate::child::{in_child, CacheMode};
use crate::*;
use httpsrv::{Reply, Server};
use logreduce_model::{hashing_index, Content, Input, Model, OutputMode, Report, Source};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::Path;

pub type Files = BTreeMap<String, Vec<u8>>;

fn word(i: usize) -> String {
    const L: &[u8] = b"gjkpqvwxyzhmrt";
    (0..4).map(|k| L[i / 14usize.pow(k) % 14] as char).collect::<String>() + "qu"
}

fn good_lines(salt: usize) -> Vec<String> {
    vec![
        format!("2022-10-01 service worker {} finished processing every request batch", salt),
        "known quiet line seen again".into(),
        "node manager started unit nominal without trouble today".into(),
        format!("closing {} connections of the pool at the end", salt + 3),
    ]
}

/// Log texts: what they hold besides nominal lines.
fn text(kind: usize, salt: usize) -> Vec<u8> {
    let mut l: Vec<String> = good_lines(salt);
    match kind {
        0 => {}
        1 => l.insert(1, format!("{} {} {} {}", word(salt), word(salt + 1), word(salt + 2), word(salt + 3))),
        2 => {
            l.insert(0, format!("first {} {} broke", word(salt + 4), word(salt + 5)));
            l.push(format!("last {} {} broke", word(salt + 6), word(salt + 7)));
        }
        3 => l.clear(),
        4 => {
            // beyond the buffers and the batches
            for k in 0..1500 {
                l.insert(1, good_lines(k)[k % 4].clone());
            }
            l.insert(1200, format!("{} {} {} deep inside", word(salt + 8), word(salt + 9), word(salt + 10)));
        }
        5 => l.insert(2, format!("\u{1b}[31m{} é… {} \u{0} {}", word(salt + 11), word(salt + 12), word(salt + 13))),
        _ => {}
    }
    let mut b = l.join("\n").into_bytes();
    if salt % 2 == 0 && !b.is_empty() {
        b.push(b'\n');
    }
    if kind == 5 {
        b.extend_from_slice(b"\r\nnot utf-8 \xff\xfe byte\r\n");
    }
    b
}

fn gz(data: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::new(6));
    std::io::Write::write_all(&mut e, data).unwrap();
    e.finish().unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Serve {
    /// As it is on the disk.
    Raw,
    /// Compressed files with a content encoding, as log servers do; others encoded too.
    Encoded,
    Chunked,
}

/// Writes the files below dir; .gz ones are compressed.
fn put(dir: &Path, files: &Files) {
    std::fs::create_dir_all(dir).unwrap();
    for (n, b) in files {
        let p = dir.join(n);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, if n.ends_with(".gz") { gz(b) } else { b.clone() }).unwrap();
    }
}

/// Serves the files and the index pages below prefix (which ends with a slash).
fn serve(r: &mut HashMap<String, Reply>, prefix: &str, files: &Files, how: Serve) {
    let mut dirs: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    dirs.entry(String::new()).or_default();
    for (n, b) in files {
        let mut at = String::new();
        let parts: Vec<&str> = n.split('/').collect();
        for (k, p) in parts.iter().enumerate() {
            let link = if k + 1 < parts.len() { format!("{p}/") } else { p.to_string() };
            dirs.entry(at.clone()).or_default().insert(link.clone());
            at += &link;
        }
        let zipped = n.ends_with(".gz");
        let reply = match how {
            Serve::Raw => Reply::ok(if zipped { gz(b) } else { b.clone() }),
            Serve::Encoded => Reply::ok(gz(b)).header("Content-Encoding", "gzip"),
            Serve::Chunked => Reply::ok(if zipped { gz(b) } else { b.clone() }).chunked(),
        };
        r.insert(format!("{prefix}{n}"), reply);
    }
    for (d, links) in dirs {
        let mut page = String::from("<html><body><a href=\"?C=N;O=D\">Name</a><a href=\"../\">Parent</a>\n");
        for l in links {
            page += &format!("<a href=\"{l}\">{l}</a>\n");
        }
        r.insert(format!("{prefix}{d}"), Reply::ok(page));
    }
}

/// The report with sources named relative to their content.
fn neutral(r: &Report) -> Value {
    let name = |s: &Source| s.get_relative().trim_start_matches('/').to_string();
    let single = |s: &Source, c: &Content| match c {
        Content::File(_) => "the file".to_string(),
        _ => name(s),
    };
    let mut logs: Vec<Value> = r
        .log_reports
        .iter()
        .map(|l| {
            let an: Vec<Value> = l
                .anomalies
                .iter()
                .map(|a| json!([a.anomaly.pos, a.anomaly.line, format!("{:.4}", a.anomaly.distance), a.before, a.after]))
                .collect();
            json!([single(&l.source, &r.target), l.line_count, l.byte_count, an])
        })
        .collect();
    logs.sort_by_key(|v| v.to_string());
    let mut errs: Vec<String> = r.read_errors.iter().map(|e| single(&e.0, &r.target)).collect();
    errs.sort();
    let mut none: Vec<String> = r.index_errors.iter().flatten().map(|s| single(s, &r.target)).collect();
    none.sort();
    json!({"logs": logs, "read errors": errs, "no baseline": none, "lines": r.total_line_count, "anomalies": r.total_anomaly_count})
}

fn content(s: &str) -> Result<Content, Fail> {
    Content::from_input(Input::from_string(s.to_string())).map_err(|e| Fail::new("input", format!("{s}: {e:#}")))
}

/// Trains and reports; an error of either is a value.
fn analyse(base: &str, target: &str, discover: bool) -> Result<Value, Fail> {
    let t = content(target)?;
    let b = if discover { t.discover_baselines().map_err(|e| Fail::new("discover", format!("{e:#}")))? } else { vec![content(base)?] };
    let m = match Model::train(OutputMode::Quiet, b, hashing_index::new) {
        Ok(m) => m,
        Err(e) => return Ok(json!({"train": format!("{e:#}")})),
    };
    match m.report(OutputMode::Quiet, t) {
        Ok(r) => Ok(neutral(&r)),
        Err(e) => Ok(json!({"report": format!("{e:#}")})),
    }
}

struct Runs<'a> {
    home: std::path::PathBuf,
    srv: &'a Server,
}

impl Runs<'_> {
    fn run(&self, what: &str, mode: CacheMode, base: &str, target: &str) -> Result<Value, Fail> {
        let discover = base.is_empty();
        in_child(&self.home, mode, || analyse(base, target, discover)).map_err(|f| Fail::new(f.key, format!("{what}: {}", f.msg)))
    }
    fn gets(&self) -> Vec<String> {
        self.srv.take_log().into_iter().map(|x| x.1).collect()
    }
}

fn same(what: &str, got: &Value, want: &Value) -> Res {
    if got != want {
        let cut = |v: &Value| v.to_string().chars().take(1500).collect::<String>();
        return Err(Fail::new("differs", format!("{what}: {} instead of {}", cut(got), cut(want))));
    }
    Ok(())
}

const NAMES: [&str; 8] = ["job.log", "sub/out.json", "sub/audit.log.gz", "deep/er/x.txt", "job.log.1", "zuul-info/inventory.yaml", "sub/job.log", "x.txt.gz"];

/// Cache off, off again, cold, warm, warm without the server.
fn all_modes(ctx: &mut Ctx, base: (&Files, &str), target: (&Files, &str), how: Serve, extra: Vec<(String, Reply)>, urls: (&str, &str), local: (&str, &str)) -> Res {
    let srv = server(ctx);
    let home = ctx.scratch.join("home");
    let _ = std::fs::remove_dir_all(&home);
    std::fs::create_dir_all(&home).unwrap();
    let runs = Runs { home: home.clone(), srv };
    let want = analyse(local.0, local.1, false)?;
    ensure!(want.get("train").is_none() && want.get("report").is_none(), "local", "the local run fails: {want}");
    let mut r = HashMap::new();
    serve(&mut r, base.1, base.0, how);
    serve(&mut r, target.1, target.0, how);
    r.extend(extra);
    srv.set(r.clone());
    for (k, mode) in [CacheMode::Off, CacheMode::Off, CacheMode::On, CacheMode::On, CacheMode::On].into_iter().enumerate() {
        let what = ["cache off", "cache off again", "cache cold", "cache warm", "server gone"][k];
        if k == 2 {
            let _ = std::fs::remove_dir_all(&home);
            std::fs::create_dir_all(&home).unwrap();
        }
        if k == 4 {
            // what could not be read to its end is not in the cache
            if want["read errors"] != json!([]) {
                continue;
            }
            srv.set([("*".to_string(), Reply::drop())].into());
        }
        let got = runs.run(what, mode, urls.0, urls.1)?;
        ctx.eval();
        ctx.step(1);
        same(what, &got, &want)?;
        let unread: Vec<String> = want["read errors"].as_array().unwrap().iter().map(|n| format!("{}{}", target.1, n.as_str().unwrap())).collect();
        let log: Vec<String> = runs.gets().into_iter().filter(|p| !unread.contains(p)).collect();
        if k >= 3 {
            ensure!(log.is_empty(), "requests", "{what}: asks for {log:?}");
        }
    }
    ctx.outcome(want.to_string());
    Ok(())
}

/// Directories of every small set of files.
fn sites(tier: Tier) -> Space {
    let subsets: Vec<Vec<usize>> = (1u32..1 << NAMES.len()).filter(|m| (1..=tier.pick(2, 3)).contains(&m.count_ones()) && *m != 1 << 5).map(|m| (0..NAMES.len()).filter(|k| m >> k & 1 == 1).collect()).collect();
    let n = subsets.len() as u64;
    const KINDS: u64 = 6;
    let s2 = subsets.clone();
    let make = |files: &[usize], shape: u64| -> (Files, Files) {
        let base = files.iter().enumerate().map(|(k, f)| (NAMES[*f].to_string(), text([0, 4][(shape as usize + k) % 2], 10 + k))).collect();
        let target = files.iter().enumerate().map(|(k, f)| (NAMES[*f].to_string(), text((shape as usize + k * 2) % KINDS as usize, 50 * (k + 1) + shape as usize))).collect();
        (base, target)
    };
    Space::new(
        "sites",
        format!("every directory of up to {} among 8 names x 6 contents x 3 ways to serve: cache off twice, cold, warm, warm without the server", tier.pick(2, 3)),
        n * KINDS * 3,
        move |i| json!({"files": s2[(i % n) as usize].iter().map(|k| NAMES[*k]).collect::<Vec<_>>(), "contents": i / n % KINDS, "serve": i / n / KINDS}),
        move |i, ctx| {
            let files = &subsets[(i % n) as usize];
            let (base, target) = make(files, i / n % KINDS);
            let how = [Serve::Raw, Serve::Encoded, Serve::Chunked][(i / n / KINDS) as usize];
            let d = ctx.clean_scratch();
            put(&d.join("base"), &base);
            put(&d.join("target"), &target);
            let srv = server(ctx);
            let (b, t) = ("/logs/ok/", "/logs/failed/");
            let urls = (format!("{}{b}", srv.base()), format!("{}{t}", srv.base()));
            let local = (d.join("base").display().to_string(), d.join("target").display().to_string());
            ctx.state(i);
            ctx.nontrivial(i);
            all_modes(ctx, (&base, b), (&target, t), how, vec![], (&urls.0, &urls.1), (&local.0, &local.1))
        },
    )
    .timeout(300)
}

/// The url of the server with a user name and maybe a password, as they are written in it.
fn with_user(srv: &Server, user: &str, password: &str) -> String {
    let colon = if password.is_empty() { "" } else { ":" };
    srv.base().replace("://", &format!("://{user}{colon}{password}@"))
}

/// Sites that ask for a name and a password, which are in the url.
fn credentials() -> Space {
    const WHO: [(&str, &str, &str, &str); 9] = [
        ("me", "pass", "me", "pass"),
        ("me", "", "me", ""),
        ("", "pass", "", "pass"),
        ("me%40host", "pass", "me@host", "pass"),
        ("me", "p%40ss%3Aw%2Frd", "me", "p@ss:w/rd"),
        ("m%C3%A9", "%C3%A9", "mé", "é"),
        ("me", "a:b", "me", "a:b"),
        ("me", "?not a password", "", ""),
        ("me", "pass", "me", "other"),
    ];
    Space::new(
        "credentials",
        "7 names and passwords, a wrong one and none for a site that asks for them: file, directory and build urls, three ways to serve",
        9 * 3 * 3,
        |i| json!({"who": (WHO[(i % 9) as usize]), "kind": i / 9 % 3, "serve": i / 27}),
        |i, ctx| {
            let (user, password, real_user, real_password) = WHO[(i % 9) as usize];
            let denied = i % 9 >= 7;
            let kind = i / 9 % 3;
            if denied && kind == 2 {
                return Ok(()); // such builds are not taken as baselines
            }
            let how = [Serve::Raw, Serve::Encoded, Serve::Chunked][(i / 27) as usize];
            let srv = server(ctx);
            let base_url = if password.starts_with('?') { srv.base() } else { with_user(srv, user, password) };
            let b: Files = [("a.log".to_string(), text(0, 1)), ("d/b.log.gz".to_string(), text(0, 2))].into();
            let t: Files = [("a.log".to_string(), text(1, 3)), ("d/b.log.gz".to_string(), text(2, 4))].into();
            let d = ctx.clean_scratch();
            put(&d.join("base"), &b);
            put(&d.join("target"), &t);
            let file = if kind == 1 { "a.log" } else { "" };
            let mut urls = (format!("{base_url}/l/ok/{file}"), format!("{base_url}/l/bad/{file}"));
            let local = (d.join("base").join(file).display().to_string(), d.join("target").join(file).display().to_string());
            let mut extra = vec![Server::protected(real_user, real_password)];
            if denied {
                // neither its index pages nor its logs can be read
                extra[0] = Server::protected("someone", "else");
            }
            if kind == 2 {
                let (id, ok) = ("a498f74ab32b49ffa9c9e7463fbf8885", "b498f74ab32b49ffa9c9e7463fbf8885");
                let now = chrono::Utc::now().format("%Y-%m-%dT%H:%M:%S").to_string();
                extra.push((format!("/zuul/api/build/{id}"), Reply::ok(build_json(id, srv, &[("log_url", json!(urls.1))]).to_string())));
                let list = vec![build_json(ok, srv, &[("log_url", json!(urls.0)), ("change", json!(9)), ("end_time", json!(now))])];
                extra.push(("/zuul/api/builds?job_name=the+job&limit=500&result=SUCCESS".into(), Reply::ok(Value::Array(list).to_string())));
                urls = (String::new(), format!("{}/zuul/build/{id}", srv.base()));
            }
            ctx.state(i);
            ctx.nontrivial(i);
            if !denied {
                return all_modes(ctx, (&b, "/l/ok/"), (&t, "/l/bad/"), how, extra, (&urls.0, &urls.1), (&local.0, &local.1));
            }
            let home = ctx.scratch.join("home");
            let _ = std::fs::remove_dir_all(&home);
            std::fs::create_dir_all(&home).unwrap();
            let runs = Runs { home, srv };
            let mut r = HashMap::new();
            serve(&mut r, "/l/ok/", &b, how);
            serve(&mut r, "/l/bad/", &t, how);
            r.extend(extra);
            srv.set(r);
            for mode in [CacheMode::Off, CacheMode::On, CacheMode::On] {
                let got = runs.run("denied", mode, &urls.0, &urls.1)?;
                ctx.eval();
                ctx.step(1);
                let asked = runs.gets();
                ensure!(got.get("train").is_some(), "denied", "the logs cannot be read, and the analysis gives {got}");
                ensure!(asked.iter().any(|p| p.starts_with("/l/ok/")), "not-asked-again", "{mode:?}: the logs are not asked for again: {asked:?}");
            }
            Ok(())
        },
    )
    .timeout(300)
}

/// Urls of every length, and two hosts.
fn lengths(tier: Tier) -> Space {
    let max = tier.pick(60u64, 300);
    Space::new(
        "lengths",
        format!("directory, file and build urls whose path has 1..={max} characters, by two host names, or whose user name or password has"),
        max * 4 * 3,
        move |i| json!({"length": 1 + i % max, "of": (["path", "path, localhost", "user", "password"][(i / max % 4) as usize]), "kind": i / max / 4}),
        move |i, ctx| {
            let n = 1 + (i % max) as usize;
            let host = (i / max) % 4;
            let kind = i / max / 4;
            let srv = server(ctx);
            let who: String = "abcdefghijklmnopqrstuvwxyz0123456789-.".chars().cycle().take(n).collect();
            let (user, password) = [("", ""), ("", ""), (who.as_str(), ""), ("me", who.as_str())][host as usize];
            let base_url = match host {
                0 => srv.base(),
                1 => srv.base().replace("127.0.0.1", "localhost"),
                _ => with_user(srv, user, password),
            };
            let n = if host < 2 { n } else { 12 };
            let b: Files = [("a.log".to_string(), text(0, 1)), ("d/b.log".to_string(), text(0, 2))].into();
            let t: Files = [("a.log".to_string(), text(1, 3)), ("d/b.log".to_string(), text(2, 4))].into();
            let d = ctx.clean_scratch();
            put(&d.join("base"), &b);
            put(&d.join("target"), &t);
            // a path of n characters
            let path = if n == 1 { "/".to_string() } else { format!("/{}/", &"targetabcdefghijklmnopqrstuvwxyz-0123456789.".chars().cycle().take(n.max(3) - 2).collect::<String>()) };
            let other = format!("{path}{}", "zz-base/");
            let (local, urls, extra) = match kind {
                0 | 2 => ((d.join("base").display().to_string(), d.join("target").display().to_string()), (format!("{base_url}{other}"), format!("{base_url}{path}")), vec![]),
                _ => ((d.join("base/a.log").display().to_string(), d.join("target/a.log").display().to_string()), (format!("{base_url}{other}a.log"), format!("{base_url}{path}a.log")), vec![]),
            };
            let mut extra: Vec<(String, Reply)> = extra;
            let mut urls = urls;
            if host >= 2 {
                extra.push(Server::protected(user, password));
            }
            if kind == 2 {
                let (id, ok) = ("a498f74ab32b49ffa9c9e7463fbf8885", "b498f74ab32b49ffa9c9e7463fbf8885");
                let now = chrono::Utc::now().format("%Y-%m-%dT%H:%M:%S").to_string();
                extra.push((format!("/zuul/api/build/{id}"), Reply::ok(build_json(id, srv, &[("log_url", json!(urls.1))]).to_string())));
                let list = vec![build_json(ok, srv, &[("log_url", json!(urls.0)), ("change", json!(9)), ("end_time", json!(now))])];
                extra.push(("/zuul/api/builds?job_name=the+job&limit=500&result=SUCCESS".into(), Reply::ok(Value::Array(list).to_string())));
                urls = (String::new(), format!("{}/zuul/build/{id}", srv.base()));
            }
            ctx.state(i);
            ctx.nontrivial(i);
            all_modes(ctx, (&b, &other), (&t, &path), Serve::Raw, extra, (&urls.0, &urls.1), (&local.0, &local.1))
        },
    )
    .timeout(300)
}

/// Urls with a query or a fragment, and escaped characters.
fn queries() -> Space {
    const TAILS: [&str; 12] = ["", "?x=1", "?x=y.gz", "?x=y.json", "?a=1&b=2", "#top", "#x.gz", "?", "?x=a/b", "?x=%20y", "?temp_url_sig=0123456789abcdef&temp_url_expires=1665665840", "?x#y.gz"];
    const FILES: [&str; 6] = ["a.log", "a.log.gz", "out.json", "out.json.gz", "a%20b.log", "a%20b.log.gz"];
    let total = (TAILS.len() * FILES.len() * 2) as u64;
    let cut = |i: u64| {
        let mut d = Dec(i);
        (*d.pick(&TAILS), *d.pick(&FILES), d.take(2) == 1)
    };
    Space::new(
        "queries",
        format!("{} names x {} queries and fragments, as file urls and as links of an index page", FILES.len(), TAILS.len()),
        total,
        move |i| {
            let (t, f, dir) = cut(i);
            json!({"file": f, "tail": t, "directory": dir})
        },
        move |i, ctx| {
            let (tail, file, dir) = cut(i);
            // json files are split otherwise: only by the name at the end of the url
            if file.contains("json") && !tail.is_empty() || tail.contains("json") {
                return Ok(());
            }
            let d = ctx.clean_scratch();
            let name = file.replace("%20", " ");
            let (b, t) = (text(0, 1), text(2, 3));
            put(&d.join("base"), &[(name.clone(), b.clone())].into());
            put(&d.join("target"), &[(name.clone(), t.clone())].into());
            let srv = server(ctx);
            let mut extra = vec![];
            let asked = tail.split('#').next().unwrap();
            for (p, x) in [("/l/ok/", b), ("/l/bad/", t)] {
                let body = if file.ends_with(".gz") { gz(&x) } else { x };
                extra.push((format!("{p}{file}{asked}"), Reply::ok(body)));
                extra.push((p.to_string(), Reply::ok(format!("<a href=\"{file}{}\">f</a>", tail.replace('&', "&amp;")))));
            }
            let last = |p: &str| if dir { p.to_string() } else { format!("{p}{file}{tail}") };
            let urls = (format!("{}{}", srv.base(), last("/l/ok/")), format!("{}{}", srv.base(), last("/l/bad/")));
            let local = (d.join("base").join(&name).display().to_string(), d.join("target").join(&name).display().to_string());
            ctx.state(i);
            ctx.nontrivial(i);
            one_file(ctx, extra, (&urls.0, &urls.1), (&local.0, &local.1))
        },
    )
    .timeout(300)
}

/// Names that only look like those of compressed files.
fn other_names() -> Space {
    const FILES: [&str; 9] = ["a.log.gz.1", "a.gz.log", "agz", "a.GZ", "a.gzip", "gz", "a.tgz", "a.log.gz2", "a.log"];
    Space::new(
        "other names",
        "9 names without the suffix of compressed files x compressed, compressed twice and plain contents x sent whole or in chunks: read as they are, like the local file",
        9 * 3 * 2,
        |i| json!({"file": FILES[(i % 9) as usize], "compressed": i / 9 % 3, "chunked": i / 27}),
        |i, ctx| {
            let file = FILES[(i % 9) as usize];
            let mut t = text(1, 3);
            for _ in 0..i / 9 % 3 {
                t = gz(&t);
            }
            let d = ctx.clean_scratch();
            let srv = server(ctx);
            let home = d.join("home");
            std::fs::create_dir_all(&home).unwrap();
            let mut r = HashMap::new();
            for (dir, b) in [("base", text(0, 1)), ("target", t)] {
                std::fs::create_dir_all(d.join(dir)).unwrap();
                std::fs::write(d.join(dir).join(file), &b).unwrap();
                let mut reply = Reply::ok(b);
                if i / 27 == 1 {
                    reply = reply.chunked();
                }
                r.insert(format!("/{dir}/{file}"), reply);
            }
            srv.set(r);
            let facts = |v: &Value| json!({"logs": v["logs"].as_array().map(|l| l.iter().map(|x| json!([x[1], x[2], x[3]])).collect::<Vec<_>>()), "errors": v["read errors"].as_array().map(|a| a.len()), "lines": v["lines"], "train": v["train"], "report": v["report"]});
            let want = facts(&analyse(&d.join("base").join(file).display().to_string(), &d.join("target").join(file).display().to_string(), false)?);
            let runs = Runs { home, srv };
            for mode in [CacheMode::Off, CacheMode::On, CacheMode::On] {
                let got = runs.run("remote", mode, &format!("{}/base/{file}", srv.base()), &format!("{}/target/{file}", srv.base()))?;
                ctx.eval();
                ctx.step(1);
                same(&format!("{mode:?}"), &facts(&got), &want)?;
            }
            runs.gets();
            ctx.state(i);
            ctx.nontrivial(i);
            ctx.outcome(want.to_string());
            Ok(())
        },
    )
}

/// The analysis of a single file, whatever its name, with every state of the cache.
fn one_file(ctx: &mut Ctx, routes: Vec<(String, Reply)>, urls: (&str, &str), local: (&str, &str)) -> Res {
    let srv = server(ctx);
    let home = ctx.scratch.join("home");
    let _ = std::fs::remove_dir_all(&home);
    let runs = Runs { home: home.clone(), srv };
    // only what does not depend on the name
    let facts = |v: &Value| json!({"logs": v["logs"].as_array().map(|l| l.iter().map(|x| json!([x[1], x[2], x[3]])).collect::<Vec<_>>()), "errors": v["read errors"].as_array().map(|a| a.len()), "none": v["no baseline"].as_array().map(|a| a.len()), "lines": v["lines"], "train": v["train"], "report": v["report"]});
    let want = facts(&analyse(local.0, local.1, false)?);
    srv.set(routes.into_iter().collect());
    for (k, mode) in [CacheMode::Off, CacheMode::On, CacheMode::On, CacheMode::On].into_iter().enumerate() {
        let what = ["cache off", "cache cold", "cache warm", "server gone"][k];
        let _ = std::fs::create_dir_all(&home);
        if k == 3 {
            srv.set([("*".to_string(), Reply::drop())].into());
        }
        let got = facts(&runs.run(what, mode, urls.0, urls.1)?);
        ctx.eval();
        ctx.step(1);
        same(what, &got, &want)?;
        let log = runs.gets();
        if k >= 2 {
            ensure!(log.is_empty(), "requests", "{what}: asks for {log:?}");
        }
    }
    ctx.outcome(want.to_string());
    Ok(())
}

/// A build whose logs are at a url without its slash, or that is redirected.
fn redirected() -> Space {
    const N: u64 = 6;
    Space::new(
        "redirected",
        "directories and builds whose url is redirected: to the one with a slash, elsewhere; files redirected, once and twice",
        N * 2,
        |i| json!({"kind": i % N, "build": i / N == 1}),
        |i, ctx| {
            let (kind, build) = (i % N, i / N == 1);
            let b: Files = [("a.log".to_string(), text(0, 1)), ("d/b.log.gz".to_string(), text(0, 2))].into();
            let t: Files = [("a.log".to_string(), text(1, 3)), ("d/b.log.gz".to_string(), text(2, 4))].into();
            let d = ctx.clean_scratch();
            put(&d.join("base"), &b);
            put(&d.join("target"), &t);
            let srv = server(ctx);
            let mut extra: Vec<(String, Reply)> = vec![];
            let (mut ub, mut ut) = ("/logs/ok/".to_string(), "/logs/failed/".to_string());
            match kind {
                0 if build => {
                    ub = "/logs/ok".into();
                    ut = "/logs/failed".into();
                    extra.push((ub.clone(), Reply::redirect("/logs/ok/")));
                    extra.push((ut.clone(), Reply::redirect("/logs/failed/")));
                }
                1 => extra.extend([("/logs/failed/a.log".to_string(), Reply::redirect("/elsewhere/x")), ("/elsewhere/x".to_string(), Reply::ok(text(1, 3)))]),
                2 => extra.extend([("/logs/failed/d/b.log.gz".to_string(), Reply::redirect("/elsewhere/x")), ("/elsewhere/x".to_string(), Reply::ok(gz(&text(2, 4))))]),
                5 => {
                    for x in ["ok", "failed"] {
                        let mut r = HashMap::new();
                        serve(&mut r, &format!("/storage/of/logs/{x}/"), if x == "ok" { &b } else { &t }, Serve::Raw);
                        extra.extend(r);
                        extra.push((format!("/logs/{x}/"), Reply::redirect(&format!("/storage/of/logs/{x}/"))));
                    }
                }
                3 => extra.extend([("/logs/failed/a.log".to_string(), Reply::redirect("/e1")), ("/e1".to_string(), Reply::redirect("/e2.gz")), ("/e2.gz".to_string(), Reply::ok(text(1, 3)))]),
                _ => {}
            }
            let mut urls = (format!("{}{ub}", srv.base()), format!("{}{ut}", srv.base()));
            if build {
                let (id, ok) = ("a498f74ab32b49ffa9c9e7463fbf8885", "b498f74ab32b49ffa9c9e7463fbf8885");
                let now = chrono::Utc::now().format("%Y-%m-%dT%H:%M:%S").to_string();
                extra.push((format!("/zuul/api/build/{id}"), Reply::ok(build_json(id, srv, &[("log_url", json!(urls.1))]).to_string())));
                let list = vec![build_json(ok, srv, &[("log_url", json!(urls.0)), ("change", json!(9)), ("end_time", json!(now))])];
                extra.push(("/zuul/api/builds?job_name=the+job&limit=500&result=SUCCESS".into(), Reply::ok(Value::Array(list).to_string())));
                urls = (String::new(), format!("{}/zuul/build/{id}", srv.base()));
            }
            ctx.state(i);
            ctx.nontrivial(i);
            let res = all_modes(ctx, (&b, "/logs/ok/"), (&t, "/logs/failed/"), Serve::Raw, extra, (&urls.0, &urls.1), (&d.join("base").display().to_string(), &d.join("target").display().to_string()));
            // recorded in known-findings.txt
            res.map_err(|f| if kind == 5 && f.key == "differs" { Fail::new(if build { "redirected-build-logs" } else { "redirected-directory" }, f.msg) } else { f })
        },
    )
    .timeout(300)
}

/// Many logs, directories, lines, and large ones.
fn scale(tier: Tier) -> Space {
    const WHAT: [&str; 5] = ["logs", "directories", "lines", "characters of a line", "characters of a name"];
    let sizes: &'static [usize] = tier.pick(&[1, 9, 33, 65, 129, 260], &[1, 2, 3, 9, 17, 33, 65, 129, 260, 513, 1030]);
    Space::new(
        "scale",
        format!("{sizes:?} of {} x 3 ways to serve, plain and compressed", WHAT.join(", ")),
        (WHAT.len() * sizes.len() * 6) as u64,
        move |i| {
            let mut d = Dec(i);
            json!({"of": *d.pick(&WHAT), "size": *d.pick(sizes), "serve": d.take(3), "compressed": d.take(2)})
        },
        move |i, ctx| {
            let mut d = Dec(i);
            let (what, n, how, zip) = (*d.pick(&WHAT), *d.pick(sizes), [Serve::Raw, Serve::Encoded, Serve::Chunked][d.take(3)], d.take(2) == 1);
            let gz_ = if zip { ".gz" } else { "" };
            let mut b: Files = [(format!("z.log{gz_}"), text(0, 1))].into();
            let mut t: Files = [(format!("z.log{gz_}"), text(1, 5))].into();
            match what {
                "logs" => {
                    for k in 0..n {
                        b.insert(format!("{}.log{gz_}", word(k)), text(0, k));
                        t.insert(format!("{}.log{gz_}", word(k)), text([0, 1, 2][k % 3], 10 * k));
                    }
                }
                "directories" => {
                    let path: String = (0..n.min(60)).map(|k| word(k) + "/").collect();
                    b.insert(format!("{path}a.log{gz_}"), text(0, 1));
                    t.insert(format!("{path}a.log{gz_}"), text(2, 7));
                }
                "lines" => {
                    let v: String = (0..n * 50).map(|k| good_lines(k)[k % 4].clone() + "\n").collect();
                    t.insert(format!("a.log{gz_}"), format!("{v}{} {} {} end\n", word(1), word(2), word(3)).into_bytes());
                    b.insert(format!("a.log{gz_}"), text(0, 1));
                }
                "characters of a line" => {
                    // not compressible: longer than any buffer on the wire too
                    let v: String = (0..n * 100).map(|k| word(k * 7919 % 38000) + if k % 11 == 10 { " " } else { "" }).collect();
                    t.insert(format!("a.log{gz_}"), format!("{}\n{v}\n{}\n", good_lines(1)[0], good_lines(1)[1]).into_bytes());
                    b.insert(format!("a.log{gz_}"), text(0, 1));
                }
                _ => {
                    let name: String = (0..n.min(200)).map(|k| (b'g' + (k % 18) as u8) as char).collect();
                    b.insert(format!("{name}.log{gz_}"), text(0, 1));
                    t.insert(format!("{name}.log{gz_}"), text(2, 7));
                }
            }
            let dir = ctx.clean_scratch();
            put(&dir.join("base"), &b);
            put(&dir.join("target"), &t);
            let srv = server(ctx);
            let urls = (format!("{}/logs/ok/", srv.base()), format!("{}/logs/failed/", srv.base()));
            ctx.state(i);
            ctx.nontrivial(i);
            all_modes(ctx, (&b, "/logs/ok/"), (&t, "/logs/failed/"), how, vec![], (&urls.0, &urls.1), (&dir.join("base").display().to_string(), &dir.join("target").display().to_string()))
        },
    )
    .timeout(300)
}

/// Two contents whose urls share their beginning must not be mixed up by the cache.
fn alike() -> Space {
    let pairs: Vec<(String, String)> = {
        let p = ["/l/a/", "/l/b/", "/l/a/a/", "/l/ab/", "/l/a%20b/", "/l/A/", "/l/aa/"];
        let long = "/logs/0123456789/0123456789/0123456789/0123456789/";
        let mut v = vec![];
        for a in p {
            for b in p {
                if a != b && !a.starts_with(b) && !b.starts_with(a) {
                    v.push((a.to_string(), b.to_string()));
                    v.push((format!("{long}{}", &a[3..]), format!("{long}{}", &b[3..])));
                }
            }
        }
        v
    };
    let n = pairs.len() as u64;
    let p2 = pairs.clone();
    Space::new(
        "alike",
        format!("{n} pairs of directories with alike urls, the same file names and different contents"),
        n,
        move |i| json!({"urls": p2[i as usize]}),
        move |i, ctx| {
            let (bp, tp) = &pairs[i as usize];
            let b: Files = [("a.log".to_string(), text(0, 1)), ("d/a.log".to_string(), text(4, 2))].into();
            let t: Files = [("a.log".to_string(), text(1, 3)), ("d/a.log".to_string(), text(2, 4))].into();
            let d = ctx.clean_scratch();
            put(&d.join("base"), &b);
            put(&d.join("target"), &t);
            let srv = server(ctx);
            let urls = (format!("{}{bp}", srv.base()), format!("{}{tp}", srv.base()));
            ctx.state(i);
            ctx.nontrivial(i);
            all_modes(ctx, (&b, bp), (&t, tp), Serve::Raw, vec![], (&urls.0, &urls.1), (&d.join("base").display().to_string(), &d.join("target").display().to_string()))
        },
    )
    .timeout(300)
}

/// How a transfer can fail.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cut {
    Drop,
    Status(u16),
    /// Bytes sent before the end.
    At(usize),
}

fn cuts(len: usize, every: bool) -> Vec<Cut> {
    let mut v = vec![Cut::Drop, Cut::Status(404), Cut::Status(403), Cut::Status(500), Cut::Status(503), Cut::Status(410), Cut::Status(401)];
    if every {
        v.extend((0..len).map(Cut::At));
    } else {
        for x in [0, 1, 2, 30, len / 4, len / 3, len / 2, len / 2 + 1, 2 * len / 3, len.saturating_sub(20), len.saturating_sub(2), len.saturating_sub(1)] {
            if x < len && !v.contains(&Cut::At(x)) {
                v.push(Cut::At(x));
            }
        }
    }
    v
}

fn broken(good: &Reply, c: Cut) -> Reply {
    match c {
        Cut::Drop => Reply::drop(),
        Cut::Status(s) => Reply::status(s, good.body.clone()),
        Cut::At(n) => good.clone().cut(n),
    }
}

/// A failing transfer of each file at each place; then everything works again.
fn failing(tier: Tier) -> Vec<Space> {
    let mut spaces = vec![];
    // (name, target text, every byte)
    for (name, big) in [("failing transfers", false), ("failing transfers of a large log", true)] {
        let files: [(&str, usize); 3] = [("a.log", if big { 4 } else { 1 }), ("d/b.log", 2), ("z.txt", 1)];
        let lens: Vec<usize> = files.iter().enumerate().map(|(k, f)| text(f.1, 3 + k).len()).collect();
        let mut cases: Vec<(bool, usize, Cut, bool, usize)> = vec![];
        for target in [true, false] {
            for f in 0..3 {
                if big && f > 0 {
                    continue;
                }
                for c in cuts(if target { lens[f] } else { text(0, 1).len() }, !big && (tier == Tier::Thorough || f == 0)) {
                    for on in [false, true] {
                        for how in 0..2 {
                            cases.push((target, f, c, on, how));
                        }
                    }
                }
            }
        }
        let n = cases.len() as u64;
        let c2 = cases.clone();
        spaces.push(
            Space::new(
                name,
                format!("{n} failures: of each log of the target or the baseline, by a dropped connection, error statuses or a cut {}, with the cache off or on, with a length or in chunks; then a run without failure", if big { "at 12 places" } else { "after every byte of the first log" }),
                n,
                move |i| {
                    let (target, f, c, on, how) = &c2[i as usize];
                    json!({"of the target": target, "file": (["a.log", "d/b.log", "z.txt"][*f]), "failure": format!("{c:?}"), "cache": on, "chunked": *how == 1})
                },
                move |i, ctx| {
                    let (target, f, c, on, how) = cases[i as usize];
                    let b: Files = files.iter().enumerate().map(|(k, x)| (x.0.to_string(), text(0, 1 + k))).collect();
                    let t: Files = files.iter().enumerate().map(|(k, x)| (x.0.to_string(), text(x.1, 3 + k))).collect();
                    let d = ctx.clean_scratch();
                    put(&d.join("base"), &b);
                    put(&d.join("target"), &t);
                    let srv = server(ctx);
                    let home = ctx.scratch.join("home");
                    let _ = std::fs::remove_dir_all(&home);
                    std::fs::create_dir_all(&home).unwrap();
                    let runs = Runs { home, srv };
                    let mut r = HashMap::new();
                    let how = [Serve::Raw, Serve::Chunked][how];
                    serve(&mut r, "/l/ok/", &b, how);
                    serve(&mut r, "/l/bad/", &t, how);
                    let good = r.clone();
                    let path = format!("{}{}", if target { "/l/bad/" } else { "/l/ok/" }, files[f].0);
                    let reply = broken(&good[&path], c);
                    r.insert(path.clone(), reply);
                    srv.set(r);
                    let mode = if on { CacheMode::On } else { CacheMode::Off };
                    let urls = (format!("{}/l/ok/", srv.base()), format!("{}/l/bad/", srv.base()));
                    let want = analyse(&d.join("base").display().to_string(), &d.join("target").display().to_string(), false)?;
                    let got = runs.run("with the failure", mode, &urls.0, &urls.1)?;
                    ctx.evals(3);
                    ctx.step(3);
                    ctx.state(i);
                    ctx.nontrivial(i);
                    ctx.outcome((target, f, std::mem::discriminant(&c)));
                    if target {
                        ensure!(got["read errors"] == json!([files[f].0]), "unreported", "{} fails ({c:?}) and the read errors are {} {}", files[f].0, got["read errors"], got["report"]);
                        // the others as without the failure
                        let others = |v: &Value| v["logs"].as_array().unwrap().iter().filter(|l| l[0] != json!(files[f].0)).cloned().collect::<Vec<_>>();
                        ensure!(others(&got) == others(&want), "others", "{} fails and the others give {}", files[f].0, got);
                    } else {
                        // a baseline that cannot be read: an error or a report, but no crash
                        ensure!(got.get("train").is_some() || got.get("logs").is_some(), "baseline", "{got}");
                    }
                    runs.gets();
                    srv.set(good);
                    let again = runs.run("after the failure", mode, &urls.0, &urls.1)?;
                    let asked = runs.gets();
                    ensure!(asked.contains(&path), "not-fetched-again", "{path} is not asked for again: {asked:?}");
                    same("after the failure", &again, &want)?;
                    if on {
                        let warm = runs.run("warm", mode, &urls.0, &urls.1)?;
                        let asked = runs.gets();
                        ensure!(asked.is_empty(), "requests", "the warm run asks for {asked:?}");
                        same("warm", &warm, &want)?;
                    }
                    Ok(())
                },
            )
            .timeout(300),
        );
    }
    spaces
}

pub fn spaces(tier: Tier) -> Vec<Space> {
    let mut v = vec![sites(tier), lengths(tier), credentials(), alike(), queries(), other_names(), redirected(), scale(tier)];
    v.extend(failing(tier));
    v
}
