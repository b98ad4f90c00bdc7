//! User inputs.
use crate::*;
use logreduce_model::{Content, Input, Source};
use std::path::Path;

const NAMES: &[&str] = &[
    "http", "https", "httpd.log", "http-log", "https_access", "http:", "https:", "http.d", "httpx", "file", "f.log", "a b", "é.log", "HTTP:", "http:x", "htt", "ftp:", "http%3A", "-x", "x\ty", "x\ny", "http\\", "a:b", "~", "#x", "?x", "x?y=1", "[x", "*", "http:.log",
];
const STRINGS: &[&str] = &[
    "", " ", ".", "..", "/", "./", "nothing", "/nothing/here", "http://", "https://", "http:///", "http://?", "http://#", "http:// ", "http://a b/", "http://[", "http://[::1", "http://h:99999/", "http://h:x/", "http://%", "http://\u{0}/", "http://user@", "http://@/",
    "http://h:", "https://h:/", "http:/x", "http:x", "https:/x", "https:x", "http", "https", "HTTP://h/x", "Http://h/x/", "ftp://h/x", "file:///nothing", "file:///", "file://h/x", "data:text/plain,x", "javascript:x", "://", "//h/x", "h/x", "http:\\\\h\\x", "http:/\\h/x", "x\u{0}y", "\u{0}",
    "/dev/null", "/dev/zero", "/dev", "/dev/tty", "/proc/self/exe", "/proc/self/cwd",
    "http://é/", "http://xn--/", "http://a..b/", "http://1.2.3.4.5/", "http://256.1.1.1/", "http://0x/", "http://-/", "http://_/", "http://a_b/x", "http://h/%zz", "http://h/\u{7f}", "http://h/ x", "http://h/é", "http://h:0/x", "http://h:80/x/", "http://u:p@h/x/", "httpS://h/x", "http ://h/x", " http://h/x", "\u{feff}http://h/x",
];

/// What an input must resolve to.
fn expected(s: &str) -> Option<(bool, bool)> {
    // (url, directory)
    if s.starts_with("http://") || s.starts_with("https://") {
        let u = url::Url::parse(s).ok()?;
        return Some((true, u.as_str().ends_with('/')));
    }
    if s.contains('\u{0}') {
        return None;
    }
    let m = std::fs::metadata(Path::new(s)).ok()?;
    if m.is_dir() {
        Some((false, true))
    } else if m.is_file() {
        Some((false, false))
    } else {
        None
    }
}

fn check_input(s: &str) -> Res {
    let want = expected(s);
    let input = guard("from_string", || Input::from_string(s.to_string()))?;
    let url = s.starts_with("http://") || s.starts_with("https://");
    match &input {
        Input::Url(x) => ensure!(url && x == s, "kind", "{s:?} is taken as the url {x:?}"),
        Input::Path(x) => ensure!(!url && x == s, "kind", "{s:?} is taken as the path {x:?}"),
    }
    let got = guard("from_input", || Content::from_input(input))?;
    match (want, got) {
        (None, Err(_)) => Ok(()),
        (None, Ok(c)) => Err(Fail::new("accepted", format!("{s:?} resolves to {c:?}"))),
        (Some(w), Err(e)) => Err(Fail::new("refused", format!("{s:?} is refused, not {w:?}: {e:#}"))),
        (Some((url, dir)), Ok(c)) => {
            let src = match (&c, dir) {
                (Content::File(x), false) | (Content::Directory(x), true) => x,
                _ => return Err(Fail::new("kind", format!("{s:?} resolves to {c:?}, not a {}", if dir { "directory" } else { "file" }))),
            };
            match (src, url) {
                (Source::Local(_, p), false) => ensure!(p == Path::new(s), "path", "{s:?} resolves to {p:?}"),
                (Source::Remote(_, u), true) => ensure!(*u == url::Url::parse(s).unwrap(), "url", "{s:?} resolves to {u}"),
                _ => return Err(Fail::new("kind", format!("{s:?} resolves to {src:?}"))),
            }
            Ok(())
        }
    }
}

fn fifo(name: &str) {
    let c = std::ffi::CString::new(name).unwrap();
    assert_eq!(unsafe { libc::mkfifo(c.as_ptr(), 0o600) }, 0);
}

/// Every way to write a url.
fn url_parts() -> Space {
    const SCHEME: [&str; 2] = ["http://", "https://"];
    const USER: [&str; 4] = ["", "u@", "u:p@", ":@"];
    const HOST: [&str; 9] = ["h", "a.example", "10.0.0.1", "[::1]", "h.", "\u{e9}.fr", "a%62c", "H", "1"];
    const PORT: [&str; 8] = ["", ":80", ":443", ":8080", ":1", ":65535", ":0", ":65536"];
    const PATH: [&str; 14] = ["", "/", "/x", "/x/", "//", "/x//", "/a/./b", "/a/..", "/x.gz", "/a b/", "/%2F", "/etc/", "/build/", "/t/zuul/build"];
    const END: [&str; 9] = ["", "?", "?q=/", "?q=x", "#", "#/", "#f", "?q/#f/", "/"];
    let total = (2 * 4 * 9 * 8 * 14 * 9) as u64;
    let make = |i: u64| {
        let mut d = Dec(i);
        format!("{}{}{}{}{}{}", d.pick(&SCHEME), d.pick(&USER), d.pick(&HOST), d.pick(&PORT), d.pick(&PATH), d.pick(&END))
    };
    Space::new(
        "urls",
        "2 schemes x 4 user parts x 9 hosts x 8 ports x 14 paths x 9 endings",
        total,
        move |i| json!({"input": make(i)}),
        move |i, ctx| {
            let s = make(i);
            ctx.eval();
            ctx.step(1);
            ctx.state(i);
            ctx.nontrivial(i);
            ctx.outcome(expected(&s));
            check_input(&s)
        },
    )
}

fn inputs() -> Space {
    // names that exist as file, directory, broken link, fifo-free link to each, or not at all, in five spellings
    let n = NAMES.len() as u64;
    const ST: u64 = 9;
    let total = n * ST * 5 + STRINGS.len() as u64;
    let spell = |name: &str, k: usize, dir: &Path| match k {
        0 => name.to_string(),
        1 => format!("./{name}"),
        2 => format!("{name}/"),
        3 => format!("{}/{name}", dir.display()),
        _ => format!("{name}//x"),
    };
    Space::new(
        "inputs",
        format!("{} names x (missing, file, directory, link to each, broken link, fifo, socket, link to a fifo) x 5 spellings, and {} odd strings", NAMES.len(), STRINGS.len()),
        total,
        move |i| if i < n * ST * 5 { json!({"name": NAMES[(i / (ST * 5)) as usize], "state": i % ST, "spelling": i / ST % 5}) } else { json!({"input": STRINGS[(i - n * ST * 5) as usize]}) },
        move |i, ctx| {
            let d = ctx.clean_scratch();
            std::env::set_current_dir(&d).unwrap();
            let s = if i < n * ST * 5 {
                let name = NAMES[(i / (ST * 5)) as usize];
                match i % ST {
                    1 => std::fs::write(name, "x").unwrap(),
                    2 => std::fs::create_dir(name).unwrap(),
                    3 => {
                        std::fs::write("the-target", "x").unwrap();
                        std::os::unix::fs::symlink("the-target", name).unwrap()
                    }
                    4 => {
                        std::fs::create_dir("the-dir").unwrap();
                        std::os::unix::fs::symlink("the-dir", name).unwrap()
                    }
                    5 => std::os::unix::fs::symlink("nowhere", name).unwrap(),
                    6 => fifo(name),
                    7 => drop(std::os::unix::net::UnixListener::bind(name).unwrap()),
                    8 => {
                        fifo("the-fifo");
                        std::os::unix::fs::symlink("the-fifo", name).unwrap()
                    }
                    _ => {}
                }
                spell(name, (i / ST % 5) as usize, &d)
            } else {
                STRINGS[(i - n * ST * 5) as usize].to_string()
            };
            ctx.eval();
            ctx.step(1);
            ctx.state(i);
            ctx.nontrivial((i % ST, &s));
            ctx.outcome(expected(&s));
            let r = check_input(&s);
            std::env::set_current_dir("/").unwrap();
            r
        },
    )
}

/// Names that are not UTF-8, through the functions that take paths.
fn raw_names() -> Space {
    Space::new(
        "raw names",
        "every byte value in a name, as file, directory or missing, through Input::from_pathbuf, Content::from_path and the discovery of baselines",
        256 * 3,
        |i| json!({"byte": i / 3, "state": i % 3}),
        |i, ctx| {
            use std::os::unix::ffi::OsStrExt;
            let b = (i / 3) as u8;
            if b == 0 || b == b'/' {
                return Ok(());
            }
            let d = ctx.clean_scratch();
            let p = d.join(std::ffi::OsStr::from_bytes(&[b'x', b, b'y']));
            match i % 3 {
                1 => std::fs::write(&p, "x").unwrap(),
                2 => std::fs::create_dir(&p).unwrap(),
                _ => {}
            }
            ctx.evals(3);
            ctx.step(1);
            ctx.state(i);
            ctx.nontrivial(i);
            let got = guard("from_path", || Content::from_path(&p))?;
            match (i % 3, &got) {
                (0, Err(_)) => {}
                (1, Ok(Content::File(Source::Local(_, q)))) | (2, Ok(Content::Directory(Source::Local(_, q)))) if *q == p => {}
                _ => return Err(Fail::new("path", format!("{p:?} resolves to {got:?}"))),
            }
            let via = guard("from_pathbuf", || Content::from_input(Input::from_pathbuf(p.clone())))?;
            if p.to_str().is_some() {
                ensure!(via.is_ok() == (i % 3 != 0), "path", "{p:?} resolves to {via:?}");
            }
            if let Ok(c) = got {
                let none = guard("discover_baselines", || c.discover_baselines())?;
                ensure!(none.is_err(), "discover", "{p:?} has the baselines {none:?}");
                if i % 3 == 1 {
                    let mut q = p.clone().into_os_string();
                    q.push(".0");
                    std::fs::write(&q, "x").unwrap();
                    let some = guard("discover_baselines", || c.discover_baselines())?;
                    match &some {
                        Ok(v) if v.len() == 1 && matches!(&v[0], Content::File(Source::Local(_, x)) if x.as_os_str() == q) => {}
                        Err(_) if p.to_str().is_none() => {}
                        _ => return Err(Fail::new("discover", format!("{p:?} has the baselines {some:?}"))),
                    }
                }
            }
            Ok(())
        },
    )
}

const PREFIX: &[&str] = &["", "/zuul", "/a/b", "/t", "/build", "/t/x", "/t/x/y", "/%7Ez", "/build/b/c", "/api", "/t/build"];
const MIDDLE: &[&str] = &["", "/t/zuul", "/t/t", "/t/build", "/t/a%20b", "/t/api", "/x", "/tt/zuul", "/T/zuul", "/t", "/t/local-tenant.x", "/t/Some-Tenant", "/t/Z_9", "/t/%C3%A9", "/t/a+b"];
const TAIL: &[&str] = &[
    "/build/@", "/build/@/", "/builds/@", "/build/@?x=1", "/build/@#x", "/build/@?x=/build/y", "/build/@#/build/y", "/build/@?x=/t/y/", "/buildset/@", "/Build/@", "/build//@", "/xbuild/@", "/build/@/x", "/build", "/build/", "/@", "/build/@?", "/build/@.",
];
const IDS: &[&str] = &[
    "a498f74ab32b49ffa9c9e7463fbf8885", "ABCDEFGHIJKLMNOPQRSTUVWXYZ012345", "00000000000000000000000000000000", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", "a498f74ab32b49ffa9c9e7463fbf888", "a498f74ab32b49ffa9c9e7463fbf88855", "a498f74ab32b49ffa9c9e7463fbf888-",
    "a498f74a-b32b-49ff-a9c9-e7463fbf8", "a498f74ab32b49ffa9c9e7463fbf88_5", "a498f74ab32b49ffa9c9e7463fb%C3%A9", "", "a498f74ab32b49ffa9c9e7463fbf8%38",
];

/// The path of the API and the id, when the url is that of a build.
fn zuul_of(u: &url::Url) -> Option<(String, String)> {
    let segs: Vec<&str> = u.path().split('/').collect();
    let n = segs.len();
    let id = *segs.last()?;
    if n < 3 || id.len() != 32 || !id.chars().all(|c| c.is_ascii_alphanumeric()) || segs[n - 2] != "build" {
        return None;
    }
    let api = if n >= 5 && segs[n - 4] == "t" { format!("{}/api/tenant/{}/", segs[..n - 4].join("/"), segs[n - 3]) } else { format!("{}/api/", segs[..n - 2].join("/")) };
    Some((api, id.to_string()))
}

fn zuul_urls() -> Space {
    let total = (PREFIX.len() * MIDDLE.len() * TAIL.len() * IDS.len() * 2) as u64;
    let make = |i: u64, base: &str| {
        let mut d = Dec(i);
        let t = *d.pick(TAIL);
        let id = *d.pick(IDS);
        let m = *d.pick(MIDDLE);
        let p = *d.pick(PREFIX);
        let answered = d.take(2) == 0;
        (format!("{base}{p}{m}{}", t.replace('@', id)), answered)
    };
    Space::new(
        "build urls",
        format!("{} site prefixes x {} tenant parts x {} endings x {} ids, the API answering or not", PREFIX.len(), MIDDLE.len(), TAIL.len(), IDS.len()),
        total,
        move |i| {
            let (u, a) = make(i, "http://server");
            json!({"url": u, "answered": a})
        },
        move |i, ctx| {
            let srv = server(ctx);
            let (s, answered) = make(i, &srv.base());
            let u = url::Url::parse(&s).unwrap();
            let want = zuul_of(&u);
            let mut routes = std::collections::HashMap::new();
            if let (Some((api, id)), true) = (&want, answered) {
                routes.insert(format!("{api}build/{id}"), httpsrv::Reply::ok(build_json(id, srv, &[]).to_string()));
            }
            srv.set(routes);
            let got = guard("from_input", || Content::from_input(Input::from_string(s.clone())))?;
            let log = srv.take_log();
            ctx.eval();
            ctx.step(1);
            ctx.state(i);
            if want.is_some() {
                ctx.nontrivial(i);
            }
            ctx.outcome((&want, answered));
            match (want, got) {
                (Some((api, id)), got) => {
                    ensure!(!log.is_empty() && log.iter().all(|r| *r == ("GET".to_string(), format!("{api}build/{id}"))), "api", "{s}: the server saw {log:?}, not a request of {api}build/{id}");
                    match got {
                        Ok(Content::Zuul(b)) if answered => {
                            ensure_eq!(format!("{b}"), format!("{}{api}build/{id}", srv.base()), "api", "{s}: the build");
                            ensure!(b.uuid == id, "api", "{s}: the id {}", b.uuid);
                        }
                        Err(_) if !answered => {}
                        x => return Err(Fail::new("build", format!("{s}: {x:?} (the API answers: {answered})"))),
                    }
                }
                (None, Ok(Content::Directory(Source::Remote(_, x)))) if x == u && u.as_str().ends_with('/') => ensure!(log.is_empty(), "api", "{s}: the server saw {log:?}"),
                (None, Ok(Content::File(Source::Remote(_, x)))) if x == u && !u.as_str().ends_with('/') => ensure!(log.is_empty(), "api", "{s}: the server saw {log:?}"),
                (None, x) => return Err(Fail::new("kind", format!("{s}: resolves to {x:?}"))),
            }
            Ok(())
        },
    )
}

const ANSWERS: u64 = 30;
/// What the API answers, and whether that is a usable build.
fn answer(k: u64, id: &str, srv: &httpsrv::Server) -> (httpsrv::Reply, bool) {
    use httpsrv::Reply;
    let good = build_json(id, srv, &[]).to_string();
    let edit = |e: &[(&str, Value)]| Reply::ok(build_json(id, srv, e).to_string());
    match k {
        0 => (Reply::ok(good), true),
        1 => (edit(&[("change", Value::Null)]), false),
        2 => (edit(&[("log_url", Value::Null)]), false),
        3 => (edit(&[("ref_url", Value::Null)]), false),
        4 => (edit(&[("change", Value::Null), ("log_url", Value::Null), ("ref_url", Value::Null)]), false),
        5 => (edit(&[("log_url", json!("not a url"))]), false),
        6 => (edit(&[("end_time", Value::Null)]), false),
        7 => (edit(&[("uuid", Value::Null)]), false),
        8 => (edit(&[("change", json!("12"))]), false),
        9 => (edit(&[("change", json!(-1))]), false),
        10 => (Reply::ok(""), false),
        11 => (Reply::ok("{}"), false),
        12 => (Reply::ok("[]"), false),
        13 => (Reply::ok("null"), false),
        14 => (Reply::ok("<html>oops</html>"), false),
        15 => (Reply::ok(&good[..good.len() / 2]), false),
        16 => (Reply::status(404, "{\"code\": 404}"), false),
        17 => (Reply::status(500, ""), false),
        18 => (Reply::drop(), false),
        19 => (Reply::ok(good.clone()).cut(20), false),
        20 => (Reply::ok(good.clone()).cut(0), false),
        21 => (Reply::ok(good).chunked(), true),
        22 => (edit(&[("result", Value::Null)]), false),
        23 => (edit(&[("project", Value::Null)]), false),
        24 => (edit(&[("extra", json!({"a": [1, 2]}))]), true),
        25 => (edit(&[("change", json!(u64::MAX))]), true),
        26 => (edit(&[("change", json!(0))]), true),
        27 => (Reply::ok(vec![0xff, 0xfe]), false),
        28 => (Reply::redirect("elsewhere"), false),
        _ => (edit(&[("end_time", json!("2014-07-08T09:10:11"))]), true),
    }
}

fn zuul_answers() -> Space {
    Space::new(
        "build answers",
        format!("{ANSWERS} answers of the API (fields missing or damaged, error statuses, broken transfers) x cache off, on, on twice"),
        ANSWERS * 3,
        |i| json!({"answer": i / 3, "cache": i % 3}),
        |i, ctx| {
            let srv = server(ctx);
            let id = IDS[0];
            let (r, good) = answer(i / 3, id, srv);
            srv.set([(format!("/zuul/api/build/{id}"), r)].into());
            let home = ctx.clean_scratch();
            let url = format!("{}/zuul/build/{id}", srv.base());
            ctx.state(i);
            ctx.nontrivial(i);
            ctx.outcome((i / 3, good));
            for round in 0..=(i % 3 == 2) as usize {
                let u = url.clone();
                let v = child::in_child(&home, if i % 3 == 0 { child::CacheMode::Off } else { child::CacheMode::On }, move || {
                    Ok(match Content::from_input(Input::from_string(u)) {
                        Ok(Content::Zuul(b)) => json!(format!("{b} {} {} {}", b.change, b.log_url, b.ref_url)),
                        Ok(c) => json!({"other": format!("{c:?}")}),
                        Err(e) => json!({"err": format!("{e:#}")}),
                    })
                })?;
                ctx.eval();
                ctx.step(1);
                if good {
                    ensure!(v.is_string(), "refused", "round {round}: {v}");
                    let change = build_change(i / 3);
                    ensure_eq!(v.as_str().unwrap().to_string(), format!("{}/zuul/api/build/{id} {change} {}/logs/{id}/ {}/ref/7", srv.base(), srv.base(), srv.base()), "build", "round {round}");
                } else {
                    ensure!(v.get("err").is_some(), "accepted", "round {round}: an unusable answer gives {v}");
                }
            }
            Ok(())
        },
    )
}

fn build_change(k: u64) -> u64 {
    match k {
        25 => u64::MAX,
        26 => 0,
        _ => 7,
    }
}

/// Build urls with a user name or a password, of an API that asks for them.
fn zuul_credentials() -> Space {
    const WHO: [(&str, &str, &str); 6] = [("me:pw@", "me", "pw"), ("me@", "me", ""), (":pw@", "", "pw"), ("me%40host:p%3Aw%2F@", "me@host", "p:w/"), ("", "", ""), ("me:no@", "me", "pw")];
    const N: u64 = 6;
    Space::new(
        "build credentials",
        "5 credentials and a wrong one x 4 paths of the API: the build is asked for with them, and refused without",
        N * 4,
        |i| json!({"who": (WHO[(i % N) as usize].0), "path": i / N}),
        |i, ctx| {
            let (who, user, password) = WHO[(i % N) as usize];
            let srv = server(ctx);
            let id = IDS[0];
            let (web, api) = [("/z/t/local/", "/z/api/tenant/local/"), ("/", "/api/"), ("/z/", "/z/api/"), ("/a/b/t/x/", "/a/b/api/tenant/x/")][(i / N) as usize];
            let (k, r) = httpsrv::Server::protected(user, password);
            srv.set([(format!("{api}build/{id}"), httpsrv::Reply::ok(build_json(id, srv, &[]).to_string())), (k, if who.is_empty() { httpsrv::Reply::ok("") } else { r })].into());
            let at = srv.base().replace("://", &format!("://{who}"));
            let got = guard("from_input", || Content::from_input(Input::from_string(format!("{at}{web}build/{id}"))))?;
            ctx.eval();
            ctx.step(1);
            ctx.state(i);
            ctx.nontrivial(i);
            match got {
                Ok(Content::Zuul(b)) if i % N != 5 => {
                    ensure_eq!(format!("{b}"), format!("{at}{api}build/{id}"), "api", "the build");
                    Ok(())
                }
                Err(_) if i % N == 5 => Ok(()),
                x => Err(Fail::new("build", format!("{x:?}"))),
            }
        },
    )
}

pub fn spaces(_: Tier) -> Vec<Space> {
    vec![zuul_credentials(), inputs(), url_parts(), raw_names(), zuul_urls(), zuul_answers()]
}
