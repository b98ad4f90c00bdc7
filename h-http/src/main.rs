//! C22 and C23: the crawler, under every schedule of a bound and over every small site.
mod real;
mod site;
#[cfg(feature = "ctl")]
mod ctl;
use site::*;
use vengine::serde_json::json;
use vengine::*;

/// Compares a crawl with what the site holds.
fn compare(what: &str, listing: bool, files: &[String], errors: usize, visits: &[String], e: &Expect) -> Res {
    let mut f = files.to_vec();
    f.sort();
    let mut v = visits.to_vec();
    v.sort();
    ensure_eq!(v, e.visits, "visits", "{what}: visited pages");
    if e.errors == 0 {
        ensure!(errors == 0, "error", "{what}: {errors} errors for a site without any");
        ensure_eq!(f, e.files, "files", "{what}: files");
    } else {
        ensure!(errors > 0, "no-error", "{what}: {} pages cannot be fetched, and no error is reported", e.errors);
        if !listing {
            ensure_eq!(f, e.files, "files", "{what}: files of the other pages");
        }
    }
    Ok(())
}

#[cfg(feature = "ctl")]
fn c22_sites() -> Vec<(&'static str, Site)> {
    use Page::*;
    let ok = |l: &[&str]| Ok(index(l));
    vec![
        ("empty page", site(&[("/r/", ok(&[]))])),
        ("two files", site(&[("/r/", ok(&["f1", "f2"]))])),
        ("one directory", site(&[("/r/", ok(&["f1", "a/"])), ("/r/a/", ok(&["g1"]))])),
        ("directory first", site(&[("/r/", ok(&["a/", "f1"])), ("/r/a/", ok(&["g1", "g2"]))])),
        ("two directories", site(&[("/r/", ok(&["a/", "b/"])), ("/r/a/", ok(&["g1"])), ("/r/b/", ok(&["g2"]))])),
        ("empty directories", site(&[("/r/", ok(&["a/", "b/", "c/"])), ("/r/a/", ok(&[])), ("/r/b/", ok(&[])), ("/r/c/", ok(&["g1"]))])),
        ("chain", site(&[("/r/", ok(&["a/"])), ("/r/a/", ok(&["b/"])), ("/r/a/b/", ok(&["c/"])), ("/r/a/b/c/", ok(&["g1"]))])),
        ("two ways", site(&[("/r/", ok(&["a/", "bb/"])), ("/r/a/", ok(&["/r/bb/", "f1"])), ("/r/bb/", ok(&["/r/", "g1"]))])),
        ("more directories than workers", site(&[("/r/", ok(&["a/", "b/", "c/", "d/", "e/", "z"])), ("/r/a/", ok(&["g1"])), ("/r/b/", ok(&[])), ("/r/c/", ok(&["g3"])), ("/r/d/", ok(&["g4"])), ("/r/e/", ok(&["g5"]))])),
        ("unreachable start", site(&[("/r/", Refused)])),
        ("error start", site(&[("/r/", Status(404, index(&["oops"])))])),
        ("unreachable directory", site(&[("/r/", ok(&["f1", "a/", "f2"])), ("/r/a/", Refused)])),
        ("broken directory", site(&[("/r/", ok(&["a/", "b/"])), ("/r/a/", Broken), ("/r/b/", ok(&["g1"]))])),
        ("panicking directory", site(&[("/r/", ok(&["f1", "a/", "b/"])), ("/r/a/", Panic), ("/r/b/", ok(&["g1"]))])),
        ("two failing directories", site(&[("/r/", ok(&["a/", "b/", "c/"])), ("/r/a/", Refused), ("/r/b/", Status(500, String::new())), ("/r/c/", ok(&["g1"]))])),
        ("all directories panic", site(&[("/r/", ok(&["a/", "b/", "f1"])), ("/r/a/", Panic), ("/r/b/", Panic)])),
    ]
}

#[cfg(feature = "ctl")]
fn c22_schedules(bound: usize, name: &str, modes: &'static [ctl::Mode], which: &'static [usize], policies: &[usize]) -> Space {
    use cstd::explore::Policy;
    let pol: Vec<Policy> = policies.iter().map(|k| [Policy::RunOn, Policy::RoundRobin, Policy::Newest][*k]).collect();
    let np = pol.len();
    let pol2 = pol.clone();
    const MAXP: usize = 300;
    let sites = c22_sites();
    let desc = c22_sites();
    let cut = move |i: u64, pol: &[Policy]| {
        let mut d = Dec(i);
        let mode = *d.pick(modes);
        let s = *d.pick(which);
        let p = *d.pick(pol);
        let from = d.take(MAXP as u64);
        (mode, s, p, from, if from == MAXP - 1 { usize::MAX } else { from + 1 })
    };
    Space::new(
        name,
        format!("{} sites x {} uses x {np} base schedules, every schedule with at most {bound} deviations", which.len(), modes.len()),
        (modes.len() * which.len() * np * MAXP) as u64,
        move |i| {
            let (mode, s, p, from, _) = cut(i, &pol2);
            json!({"site": desc[s].0, "pages": format!("{:?}", desc[s].1.pages), "use": format!("{mode:?}"), "base schedule": format!("{p:?}"), "first deviation": from})
        },
        move |i, ctx| {
            let (mode, s, p, from, to) = cut(i, &pol);
            let start = format!("{}/r/", ctl::BASE);
            ctl::install(&sites[s].1);
            let e = expect(&sites[s].1, &start);
            let mut st = ctl::Stats { runs: 0, steps: 0, max_points: 0 };
            let r = ctl::schedules(s, mode, &start, p, bound, from, to, &e, &mut st);
            ctx.evals(st.runs);
            ctx.step(st.steps);
            ctx.count("schedules", st.runs);
            if st.runs > 1 {
                ctx.state(i);
                ctx.nontrivial(i);
            }
            ctx.outcome((s, mode as u8, e.errors));
            r
        },
    )
    .timeout(300)
}


/// Sites with many pages.
#[cfg(feature = "ctl")]
fn crowd(kind: usize, n: usize) -> Site {
    let mut s = Site::default();
    let mut top: Vec<String> = vec!["first".into()];
    for k in 0..if kind == 8 { n.min(40) } else { n } {
        top.push(format!("d{k}/"));
        let page = match kind {
            1 if k % 3 == 1 => Page::Refused,
            2 if k % 3 == 2 => Page::Panic,
            3 if k % 2 == 1 => Page::Status(500, String::new()),
            4 => Page::Refused,
            5 => Page::Panic,
            8 => {
                let subs: Vec<String> = (0..12).map(|j| format!("s{j}/")).chain(["f".to_string(), "f2".to_string()]).collect();
                subs.iter().filter(|x| x.ends_with('/')).for_each(|x| {
                    s.pages.insert(format!("/r/d{k}/{x}"), Page::Ok(index(&["g", "h"])));
                });
                Page::Ok(index(&subs.iter().map(|x| x.as_str()).collect::<Vec<_>>()))
            }
            _ => Page::Ok(index(&if kind == 6 { vec!["sub/", "f", "sub2/"] } else { vec!["f"] })),
        };
        if kind == 6 {
            s.pages.insert(format!("/r/d{k}/sub/"), Page::Ok(index(&["g1", "g2"])));
            s.pages.insert(format!("/r/d{k}/sub2/"), Page::Ok(index(&["g3"])));
        }
        if kind == 7 {
            // the files of a directory stand between the others
            top.push(format!("file{k}"));
        }
        s.pages.insert(format!("/r/d{k}/"), page);
    }
    top.push("last".into());
    s.pages.insert("/r/".into(), Page::Ok(index(&top.iter().map(|x| x.as_str()).collect::<Vec<_>>())));
    s
}

#[cfg(feature = "ctl")]
fn c22_crowds(name: &str, ns: &'static [usize], bound: usize) -> Space {
    use cstd::explore::Policy;
    const P: &[Policy] = &[Policy::RunOn, Policy::RoundRobin, Policy::Newest];
    const M: &[ctl::Mode] = &[ctl::Mode::List, ctl::Mode::Walk, ctl::Mode::SlowWalk, ctl::Mode::ListTwice, ctl::Mode::ListWalk, ctl::Mode::Together];
    let m: &'static [ctl::Mode] = if bound > 0 { &M[..2] } else { M };
    let kinds = if bound > 0 { 8 } else { 9 };
    let cut = move |i: u64| {
        let mut d = Dec(i);
        (*d.pick(m), *d.pick(P), d.take(kinds as u64), *d.pick(ns))
    };
    Space::new(
        name,
        format!("{kinds} kinds of sites (failing pages, panics, two levels, full directories) with {ns:?} directories on a page, {} uses x 3 base schedules, at most {bound} deviations", m.len()),
        (m.len() * P.len() * kinds * ns.len()) as u64,
        move |i| {
            let (mode, p, kind, n) = cut(i);
            json!({"use": format!("{mode:?}"), "base schedule": format!("{p:?}"), "kind": kind, "directories": n})
        },
        move |i, ctx| {
            let (mode, p, kind, n) = cut(i);
            let start = format!("{}/r/", ctl::BASE);
            let s = crowd(kind, n);
            ctl::install(&s);
            let e = expect(&s, &start);
            let mut st = ctl::Stats { runs: 0, steps: 0, max_points: 0 };
            let r = ctl::schedules(1_000_000 + kind * 100_000 + n, mode, &start, p, bound, 0, usize::MAX, &e, &mut st);
            ctx.evals(st.runs);
            ctx.step(st.steps);
            ctx.count("schedules", st.runs);
            ctx.state(i);
            ctx.nontrivial(i);
            ctx.outcome((kind, n, mode as u8));
            r
        },
    )
    .timeout(300)
}

/// The sites of which every order of the server's answers is explored.
fn order_sites() -> Vec<(&'static str, Site, usize)> {
    let ok = |l: &[&str]| Page::Ok(index(l));
    vec![
        ("three directories", site(&[("/r/", ok(&["f", "a/", "b/", "c/"])), ("/r/a/", ok(&["g1"])), ("/r/b/", ok(&["g2"])), ("/r/c/", ok(&["g3"]))]), 6),
        ("nested", site(&[("/r/", ok(&["a/", "b/"])), ("/r/a/", ok(&["c/", "g1"])), ("/r/b/", ok(&["d/"])), ("/r/a/c/", ok(&["h1"])), ("/r/b/d/", ok(&["h2"]))]), 6),
        ("failing", site(&[("/r/", ok(&["a/", "b/", "c/"])), ("/r/a/", Page::Refused), ("/r/b/", Page::Status(500, String::new())), ("/r/c/", ok(&["g3"]))]), 6),
        ("five directories", site(&[("/r/", ok(&["a/", "b/", "c/", "d/", "e/"])), ("/r/a/", ok(&["g1"])), ("/r/b/", ok(&[])), ("/r/c/", ok(&["g3"])), ("/r/d/", ok(&["g4"])), ("/r/e/", ok(&["g5"]))]), 96),
    ]
}

/// The real crawler, the server answering in every order.
fn c22_orders() -> Space {
    let sites = order_sites();
    let total: u64 = sites.iter().map(|s| s.2 as u64 * 2).sum();
    let cut = |i: u64| {
        let mut i = i as usize;
        let sites = order_sites();
        for (k, s) in sites.iter().enumerate() {
            if i < s.2 * 2 {
                return (k, i % 2 == 1, i / 2);
            }
            i -= s.2 * 2;
        }
        unreachable!()
    };
    Space::new(
        "answer orders",
        "4 sites, every order in which the server can answer the requests of the four workers, list and walk, on the real crawler and client",
        total,
        move |i| {
            let (s, walk, order) = cut(i);
            json!({"site": order_sites()[s].0, "walk": walk, "order": order})
        },
        move |i, ctx| {
            let (s, walk, mut order) = cut(i);
            let srv = real::server(ctx);
            real::install(srv, &sites[s].1);
            srv.gate(true);
            let start = format!("{}/r/", srv.base());
            let e = expect(&sites[s].1, &start);
            let mut todo = e.visits.len();
            let st2 = start.clone();
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| real::crawl(::real::Crawler::new(), &st2, walk)));
                let _ = tx.send(r);
            });
            // how many requests can wait at a time follows from the site
            let mut answered: Vec<String> = vec![];
            while todo > 0 {
                let known = e.visits.iter().filter(|v| !answered.contains(*v) && parent_answered(v, &start, &answered)).count();
                let mut p = srv.pending(known.min(4), std::time::Duration::from_secs(5));
                if p.is_empty() {
                    break;
                }
                let all = p.clone();
                p.sort();
                let k = order % p.len();
                order /= p.len();
                answered.push(format!("{}{}", srv.base(), p[k]));
                srv.release(all.iter().position(|x| *x == p[k]).unwrap());
                todo -= 1;
            }
            srv.gate(false);
            let (files, errors) = match rx.recv_timeout(std::time::Duration::from_secs(40)) {
                Ok(Ok(r)) => r,
                Ok(Err(_)) => return Err(Fail::new("panic", format!("the crawl panicked: {}", last_panic()))),
                Err(_) => return Err(Fail::new("deadlock", "the crawl does not end")),
            };
            ctx.eval();
            ctx.trace();
            ctx.step(answered.len() as u64);
            ctx.state(&answered.iter().map(|a| a.rsplit_once("/r/").unwrap().1.to_string()).collect::<Vec<_>>());
            ctx.nontrivial(i);
            ctx.outcome((s, errors));
            compare("the crawl", !walk, &files, errors, &real::visits(srv), &e)
        },
    )
    .timeout(200)
}

fn parent_answered(v: &str, start: &str, answered: &[String]) -> bool {
    if v == start {
        return true;
    }
    let up = &v[..v[..v.len() - 1].rfind('/').unwrap() + 1];
    answered.iter().any(|a| a == up)
}

/// Runs a site on the controlled build.
#[cfg(feature = "ctl")]
fn crawl_ctl(site: &Site, ctx: &mut Ctx, modes: &[ctl::Mode]) -> Res {
    let start = format!("{}/r/", ctl::BASE);
    let e = expect(site, &start);
    ctl::install(site);
    for m in modes {
        let o = ctl::execute(*m, &start, cstd::explore::Policy::RunOn, &[]);
        ctx.eval();
        ctx.step(o.steps as u64);
        ctl::judge(&o, &e).map_err(|f| Fail::new(f.key, format!("{m:?} {}", f.msg)))?;
    }
    ctx.state(h(format!("{:?}", site.pages)));
    ctx.outcome((&e.files, e.errors));
    if e.visits.len() > 1 || e.errors > 0 {
        ctx.nontrivial(h(format!("{:?}", site.pages)));
    }
    Ok(())
}

/// Runs a site on the real crawler with a server.
fn crawl_real(site: &Site, ctx: &mut Ctx, who: Option<(&str, &str)>) -> Res {
    let srv = real::server(ctx);
    let mut start = format!("{}/r/", srv.base());
    let at = who.map(|(u, p)| format!("://{u}{}{p}@", if p.is_empty() { "" } else { ":" }));
    if let Some(at) = &at {
        start = start.replace("://", at);
    }
    let mut e = expect(site, &start);
    for walk in [false, true] {
        real::install(srv, site);
        if let Some((u, p)) = who {
            let (k, r) = httpsrv::Server::protected(u, p);
            srv.route(&k, r);
        }
        let s2 = start.clone();
        let (files, errors) = real::in_time("the crawl", move || real::crawl(::real::Crawler::new(), &s2, walk))?;
        ctx.eval();
        ctx.trace();
        ctx.step(e.visits.len() as u64);
        let mut seen = real::visits(srv);
        // A server does not see fragments, sees both ends of a redirection, and some requests twice when it drops them.
        let strip = |v: &String| v.split('#').next().unwrap().replace(at.as_deref().unwrap_or("://"), "://");
        if has_redirect(site) {
            seen = e.visits.clone();
        } else {
            e.visits = e.visits.iter().map(strip).collect();
            e.visits.sort();
            seen.sort();
            if e.errors > 0 {
                seen.dedup();
                e.visits.dedup();
            }
        }
        compare(if walk { "walk" } else { "list" }, !walk, &files, errors, &seen, &e)?;
    }
    ctx.state(h(format!("{:?}", site.pages)));
    ctx.outcome((&e.files.iter().map(|f| f.rsplit(':').next().unwrap().len()).collect::<Vec<_>>(), e.errors));
    if e.visits.len() > 1 || e.errors > 0 {
        ctx.nontrivial(h(format!("{:?}", site.pages)));
    }
    Ok(())
}

#[cfg(feature = "ctl")]
const BOTH: [ctl::Mode; 2] = [ctl::Mode::List, ctl::Mode::Walk];

fn describe(s: &Site) -> vengine::serde_json::Value {
    json!({"pages": s.pages.iter().map(|(k, p)| (k.clone(), format!("{p:?}"))).collect::<std::collections::BTreeMap<_, _>>()})
}

type Gen = std::sync::Arc<dyn Fn(u64) -> Site>;

#[cfg(feature = "ctl")]
fn on_ctl(name: &str, bound: &str, total: u64, g: Gen) -> Space {
    let g2 = g.clone();
    Space::new(name, format!("{bound}; list, walk, and list twice"), total, move |i| describe(&g2(i)), move |i, ctx| crawl_ctl(&g(i), ctx, &[BOTH[0], BOTH[1], ctl::Mode::ListTwice]))
}

fn on_real(name: &str, bound: &str, total: u64, g: Gen) -> Space {
    let g2 = g.clone();
    Space::new(name, format!("{bound}; list and walk, on the real client and a server"), total, move |i| describe(&g2(i)), move |i, ctx| crawl_real(&g(i), ctx, None)).timeout(300)
}

/// The same, when the url has a name and maybe a password and the server asks for them.
fn on_protected(name: &str, bound: &str, total: u64, g: Gen) -> Space {
    const WHO: [(&str, &str); 3] = [("me", "pw"), ("someone", ""), ("a-user-with-a-long-name", "and-a-long-password")];
    let g2 = g.clone();
    Space::new(
        name,
        format!("{bound}; list and walk, with 3 credentials a server asks for"),
        total * 3,
        move |i| json!({"site": describe(&g2(i / 3)), "who": (WHO[(i % 3) as usize])}),
        move |i, ctx| crawl_real(&g(i / 3), ctx, Some(WHO[(i % 3) as usize])),
    )
    .timeout(300)
}

/// Every subset of links on each of three pages.
fn graphs(menu: &'static [&'static str]) -> (u64, Gen) {
    let n = 1u64 << menu.len();
    (
        n * n * n,
        std::sync::Arc::new(move |i| {
            let mut d = Dec(i);
            let mut s = Site::default();
            for p in ["/r/", "/r/a/", "/r/a/bb/"] {
                let m = d.take(n);
                let l: Vec<&str> = menu.iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|x| *x.1).collect();
                s.pages.insert(p.into(), Page::Ok(index(&l)));
            }
            s
        }),
    )
}

fn spell_site(l: &[&str]) -> Site {
    let mut s = Site::default();
    s.pages.insert("/r/".into(), Page::Ok(index(l)));
    for p in ["/r/a/", "/r/b/", "/r/a/b/", "/x/", "/r/longer-directory-name/", "/r/xetc/", "/r/etc/a/"] {
        s.pages.insert(p.into(), Page::Ok(index(&["in.log"])));
    }
    s.pages.insert("/r/A1/".into(), Page::Ok(index(&["n", "b/"])));
    s.pages.insert("/r/A1/b/".into(), Page::Ok(index(&["/r/A1/", "m"])));
    s.pages.insert("/r/9/".into(), Page::Ok(index(&["/r/A1/b/", "k"])));
    for p in ["/etc/", "/r/etc/", "/r/a/etc/", "/", "/r/a/?q=1", "/r/f:g/", "/r//a/", "/r/a///"] {
        s.pages.insert(p.into(), Page::Ok(index(&["z.log"])));
    }
    s
}

fn spellings(pairs: bool, menu: Vec<&'static str>) -> (u64, Gen) {
    let n = menu.len() as u64;
    (
        if pairs { n * n } else { n },
        std::sync::Arc::new(move |i| {
            let mut d = Dec(i);
            let mut l = vec![*d.pick(&menu)];
            if pairs {
                l.push(*d.pick(&menu));
            }
            spell_site(&l)
        }),
    )
}

fn markup() -> (u64, Gen) {
    (
        MARKUP.len() as u64 * 2,
        std::sync::Arc::new(|i| {
            let mut s = Site::default();
            let m = MARKUP[i as usize / 2];
            if i % 2 == 0 {
                s.pages.insert("/r/".into(), Page::Ok(m.into()));
                s.pages.insert("/r/a/".into(), Page::Ok(index(&["in.log"])));
            } else {
                s.pages.insert("/r/".into(), Page::Ok(index(&["a/", "last"])));
                s.pages.insert("/r/a/".into(), Page::Ok(m.into()));
                s.pages.insert("/r/a/a/".into(), Page::Ok(index(&["in.log"])));
            }
            s
        }),
    )
}

/// Every state of each of four pages.
fn failing(states: u64) -> (u64, Gen) {
    (
        states.pow(4),
        std::sync::Arc::new(move |i| {
            let mut d = Dec(i);
            let mut s = Site::default();
            for (p, l) in [("/r/", vec!["f1", "a/", "b/", "f2"]), ("/r/a/", vec!["c/", "g1"]), ("/r/b/", vec!["g2"]), ("/r/a/c/", vec!["h1"])] {
                let page = match d.take(states) {
                    0 => Page::Ok(index(&l)),
                    1 => Page::Refused,
                    2 => Page::Status(404, index(&["oops", "b/"])),
                    3 => Page::Broken,
                    4 => Page::Status(500, String::new()),
                    5 => Page::Redirect("moved/".into()),
                    6 => Page::Status(403, index(&l)),
                    _ => Page::Status(503, index(&l)),
                };
                s.pages.insert(p.into(), page);
            }
            s.pages.insert("/r/moved/".into(), Page::Ok(index(&["m1", "b/"])));
            s.pages.insert("/r/moved/b/".into(), Page::Ok(index(&["m2"])));
            s.pages.insert("/r/a/moved/".into(), Page::Ok(index(&["m3", "/r/b/"])));
            s.pages.insert("/r/b/moved/".into(), Page::Redirect("/r/moved/b/".into()));
            s
        }),
    )
}

/// Numbers of files, directories and levels, lengths of names.
fn scales() -> (u64, Gen) {
    const N: [usize; 9] = [1, 2, 5, 16, 64, 99, 128, 300, 1025];
    (
        N.len() as u64 * 5,
        std::sync::Arc::new(|i| {
            let n = N[i as usize / 5];
            let mut s = Site::default();
            match i % 5 {
                0 => {
                    let l: Vec<String> = (0..n * 4).map(|k| format!("file-{k}.log")).collect();
                    s.pages.insert("/r/".into(), Page::Ok(index(&l.iter().map(|x| x.as_str()).collect::<Vec<_>>())));
                }
                1 => {
                    let n = n.min(300);
                    let l: Vec<String> = (0..n).map(|k| format!("d{k}/")).collect();
                    s.pages.insert("/r/".into(), Page::Ok(index(&l.iter().map(|x| x.as_str()).collect::<Vec<_>>())));
                    for d in &l {
                        s.pages.insert(format!("/r/{d}"), Page::Ok(index(&["f"])));
                    }
                }
                2 => {
                    let n = n.min(128);
                    for k in 0..=n {
                        s.pages.insert(format!("/r/{}", "d/".repeat(k)), Page::Ok(index(if k < n { &["d/", "f"] } else { &["end"] })));
                    }
                }
                3 => {
                    let name = "n".repeat(n * 2);
                    s.pages.insert("/r/".into(), Page::Ok(index(&[&name, &format!("{name}/")])));
                    s.pages.insert(format!("/r/{name}/"), Page::Ok(index(&["f"])));
                }
                _ => {
                    let pad = " some text before and after the link \n".repeat(n * 8);
                    s.pages.insert("/r/".into(), Page::Ok(format!("{pad}<a href=\"f\">f</a>{pad}<a href=\"a/\">")));
                    s.pages.insert("/r/a/".into(), Page::Ok(index(&["g"])));
                }
            }
            s
        }),
    )
}

/// Sequences of listings of different sites with one crawler, on the real one.
fn reuse(depth: u32) -> Space {
    fn four() -> Vec<(&'static str, &'static str)> {
        vec![("/ok/", "a site"), ("/gone/", "a missing page"), ("/half/", "a site with a missing directory"), ("/drop/", "a dropped connection"), ("/empty/", "an empty page")]
    }
    let n = four().len() as u64;
    Space::new(
        "reuse",
        format!("every sequence of up to {depth} listings of 5 sites (failing or not) with one crawler, the last by walk or list, on the real client and a server"),
        seq_count(n, 1, depth) * 2,
        move |i| json!({"listings": seq_decode(i / 2, n, 1, depth).iter().map(|k| four()[*k].0).collect::<Vec<_>>(), "last by walk": i % 2 == 1}),
        move |i, ctx| {
            let srv = real::server(ctx);
            let all = site(&[
                ("/ok/", Page::Ok(index(&["f1", "a/", "b/"]))),
                ("/ok/a/", Page::Ok(index(&["g1"]))),
                ("/ok/b/", Page::Ok(index(&["g2"]))),
                ("/half/", Page::Ok(index(&["h1", "x/", "y/", "h2"]))),
                ("/half/y/", Page::Ok(index(&["h3"]))),
                ("/drop/", Page::Refused),
                ("/empty/", Page::Ok(index(&[]))),
            ]);
            real::install(srv, &all);
            let seq = seq_decode(i / 2, n, 1, depth);
            let last = seq.len() - 1;
            let base = srv.base();
            let all2 = all.clone();
            ctx.evals(seq.len() as u64);
            ctx.step(seq.len() as u64);
            ctx.trace();
            ctx.state(&seq);
            ctx.nontrivial((&seq, i % 2));
            ctx.outcome(&seq);
            real::in_time("the listings", move || -> Res {
                let mut c = Some(::real::Crawler::new());
                for (k, s) in seq.iter().enumerate() {
                    let start = format!("{base}{}", four()[*s].0);
                    let e = expect(&all2, &start);
                    let (mut f, mut errs, mut listing) = (vec![], 0, true);
                    if k == last && i % 2 == 1 {
                        listing = false;
                        for r in c.take().unwrap().walk(url::Url::parse(&start).unwrap()) {
                            match r {
                                Ok(u) => f.push(u.to_string()),
                                Err(_) => errs += 1,
                            }
                        }
                    } else {
                        match c.as_ref().unwrap().list(url::Url::parse(&start).unwrap()) {
                            Ok(v) => f = v.iter().map(|u| u.to_string()).collect(),
                            Err(_) => errs = 1,
                        }
                    }
                    compare(&format!("listing {k} of {start}"), listing, &f, errs, &e.visits, &e)?;
                }
                Ok(())
            })?
        },
    )
    .timeout(200)
}

fn main() {
    run_main(|p, tier| {
        let mut assumptions: Vec<String> = vec![];
        if !cfg!(feature = "ctl") {
            assumptions.push("the crawler could not be built against the controlled std: only the real crawler with a scripted server was explored".into());
        }
        Some(match p {
            "C22" => {
                let mut spaces = vec![];
                #[cfg(feature = "ctl")]
                {
                    use ctl::Mode::*;
                    assumptions.push("the pool is threadpool 1.8.1 itself, built like the crawler against the controlled std; the http client is a stand-in whose every exchange is a scheduling point; notify_one wakes the waiter with the lowest number".into());
                    const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
                    const MODES: &[ctl::Mode] = &[List, Walk, SlowWalk, ListTwice, ListWalk];
                    let p3 = [0usize, 1, 2];
                    spaces.push(c22_schedules(1, "schedules", MODES, ALL, &p3));
                    spaces.push(c22_schedules(2, "two deviations", &[List, Walk], tier.pick(&[1, 2, 3, 4, 9, 11, 13], ALL), if tier == Tier::Quick { &p3[..1] } else { &p3 }));
                    spaces.push(c22_crowds("crowds", &[6, 7, 8, 9, 10, 12, 16, 17, 24, 33, 64, 65, 100, 129, 260, 520], 0));
                    spaces.push(c22_crowds("crowds, one deviation", tier.pick(&[9], &[7, 9, 10, 13, 18, 26]), 1));
                    spaces.push(c22_schedules(1, "listings together", &[Together], tier.pick(&[1, 2, 4, 7, 11, 13, 14], ALL), &p3));
                    if tier == Tier::Thorough {
                        spaces.push(c22_schedules(2, "two deviations, two crawls", &[ListTwice, ListWalk, Together], &[1, 2, 11, 13], &p3[..1]));
                        spaces.push(c22_schedules(3, "three deviations", &[List, Walk], &[1, 9], &p3[..1]));
                    }
                }
                spaces.push(c22_orders());
                Check { level: "model_checking", rule: "every execution ends with the files and errors of the site, and with no page being fetched".into(), assumptions, spaces }
            }
            "C23" => {
                let mut spaces = vec![];
                let _ = &mut spaces;
                #[cfg(feature = "ctl")]
                {
                    let (n, g) = graphs(tier.pick(&["f", "a/", "/r/", "/r/a/", "/r/a/bb/"], &["f", "a/", "/r/", "/r/a/", "/r/a/bb/", "/r/a/index.html", "etc/"]));
                    spaces.push(on_ctl("graphs", "three pages, each with every subset of the links", n, g));
                    let (n, g) = spellings(true, SPELLINGS.to_vec());
                    spaces.push(on_ctl("spelling pairs", "every pair of link spellings on a page", n, g));
                    let (n, g) = spellings(true, [site::HOSTS, &["f", "a/", "/r/", "../", "index.html"]].concat());
                    spaces.push(on_ctl("hosts", "every pair of links of a menu with schemes, hosts and ports", n, g));
                    let (n, g) = failing(tier.pick(6, 8));
                    spaces.push(on_ctl("failing", "every state of each of four pages", n, g));
                    let (n, g) = markup();
                    spaces.push(on_ctl("markup", "every page text of the menu, as start or below", n, g));
                    let (n, g) = scales();
                    spaces.push(on_ctl("scales", "numbers of files, directories, levels, lengths of names and texts", n, g));
                }
                let (n, g) = graphs(&["f", "a/", "/r/", "/r/a/bb/"]);
                spaces.push(on_real("served graphs", "three pages, each with every subset of the links", n, g));
                let (n, g) = spellings(true, SPELLINGS.to_vec());
                spaces.push(on_real("served spellings", "every pair of link spellings on a page", n, g));
                let (n, g) = failing(tier.pick(6, 8));
                spaces.push(on_real("served failing", "every state of each of four pages", n, g));
                let (n, g) = markup();
                spaces.push(on_real("served markup", "every page text of the menu, as start or below", n, g));
                let (n, g) = scales();
                spaces.push(on_real("served scales", "numbers of files, directories, levels, lengths of names and texts", n, g));
                let (n, g) = graphs(tier.pick(&["f", "a/", "/r/a/bb/"], &["f", "a/", "/r/", "/r/a/bb/"]));
                spaces.push(on_protected("protected graphs", "three pages, each with every subset of the links", n, g));
                let (n, g) = spellings(tier == Tier::Thorough, SPELLINGS.to_vec());
                spaces.push(on_protected("protected spellings", tier.pick("every link spelling on a page", "every pair of link spellings on a page"), n, g));
                let (n, g) = failing(tier.pick(3, 6));
                spaces.push(on_protected("protected failing", "every state of each of four pages", n, g));
                spaces.push(reuse(tier.pick(3, 4)));
                Check { level: "model_checking", rule: "files, errors and visits equal those of a walk of the link graph".into(), assumptions, spaces }
            }
            _ => return None,
        })
    });
}
