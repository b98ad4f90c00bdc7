//! The debug commands: what the library computes, as text.
use crate::cli::{run, Out};
use logreduce_model::{Content, IndexName, Input, Source};
use std::collections::BTreeMap;
use std::path::Path;
use vengine::serde_json::json;
use vengine::*;

fn ok(o: &Out) -> Res {
    ensure!(o.ok(), "status", "{}", o.show());
    Ok(())
}

const CHARS: [&str; 12] = ["a", "b ", " ", "4", "error ", "%", "é", "\t", "\\n", "\"", "/x/y ", "2022-10-01 "];

fn lines(tier: Tier) -> Space {
    let max = tier.pick(3, 4);
    let n = seq_count(12, 0, max);
    let text = move |i: u64| -> String { seq_decode(i, 12, 0, max).into_iter().map(|c| CHARS[c]).collect() };
    Space::new(
        "lines",
        format!("debug-tokenizer and debug-indexname of every text of up to {max} of 12 pieces"),
        n,
        move |i| json!({ "text": text(i) }),
        move |i, ctx| {
            let t = text(i);
            let root = ctx.clean_scratch().join("w");
            std::fs::create_dir_all(&root).unwrap();
            ctx.state(i);
            ctx.nontrivial(i);
            let o = run(&root, &["debug-tokenizer", "--", &t])?;
            ok(&o)?;
            let want = logreduce_tokenizer::process(&t);
            ensure_eq!(o.out.trim_end_matches('\n'), want.trim_end_matches('\n'), "tokens", "the tokens of {t:?}");
            let o = run(&root, &["debug-indexname", "--", &t])?;
            ok(&o)?;
            let want = IndexName::from_path(&t);
            ensure_eq!(o.out.trim_end_matches('\n'), want.as_str().trim_end_matches('\n'), "name", "the index name of {t:?}");
            ctx.evals(2);
            ctx.step(2);
            Ok(())
        },
    )
}

const PIECES: [&[u8]; 12] = [b"a", b"\t", b"\n", b"\\n", b",", b"\"", b"{", b"\xff", b"\xc3\xa9", b"\\", b"12 | error: ", b"\r"];
const FILES: [&str; 5] = ["x.log", "x.json", "x.log.gz", "x.json.gz", "d/y z.log"];

fn gz(data: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::new(6));
    std::io::Write::write_all(&mut e, data).unwrap();
    e.finish().unwrap()
}

fn iterated(file: &Path, json: bool) -> Result<Vec<Option<(usize, String)>>, Fail> {
    let r = Source::file_open(file).map_err(|e| Fail::new("open", format!("{e:#}")))?;
    let mut v = vec![];
    for x in logreduce_iterator::BytesLines::new(r, json) {
        match x {
            Ok((b, n)) => v.push(Some((n, String::from_utf8(b.to_vec()).unwrap_or_default()))),
            Err(_) => {
                v.push(None);
                break;
            }
        }
    }
    Ok(v)
}

/// debug-iterator: a numbered line for each piece, in order.
fn iterator(tier: Tier) -> Space {
    let max = tier.pick(3, 4);
    let per = seq_count(12, 0, max);
    let dec = move |i: u64| {
        let mut d = Dec(i);
        let f = d.take(5 + 2);
        (f, seq_decode(d.0, 12, 0, max))
    };
    Space::new(
        "iterator",
        format!("debug-iterator of every content of up to {max} of 12 pieces in a plain, JSON, compressed or cut compressed file, and a directory"),
        per * 7,
        move |i| json!({"file": dec(i).0, "content": dec(i).1}),
        move |i, ctx| {
            let (f, c) = dec(i);
            let b: Vec<u8> = c.iter().flat_map(|&k| PIECES[k].to_vec()).collect();
            let root = ctx.clean_scratch().join("w");
            std::fs::create_dir_all(root.join("d")).unwrap();
            let name = FILES.get(f).copied().unwrap_or("d/x.log.gz");
            let mut data = if name.ends_with(".gz") { gz(&b) } else { b };
            if f == 6 {
                data.truncate(data.len() - 9);
            }
            std::fs::write(root.join(name), data).unwrap();
            ctx.state(i);
            ctx.nontrivial(i);
            let arg = if f >= 5 { root.join("d") } else { root.join(name) };
            let o = run(&root, &["debug-iterator", arg.to_str().unwrap()])?;
            ok(&o)?;
            ctx.eval();
            ctx.step(1);
            let want = iterated(&root.join(name), name.contains(".json"))?;
            let got: Vec<&str> = o.out.strip_suffix('\n').map_or(vec![], |o| o.split('\n').collect());
            // pieces hold no line feed
            ensure!(got.len() == want.len() || (want.last() == Some(&None) && got.len() > want.len()), "lines", "lines for {want:?}: {}", o.show());
            for (g, w) in got.iter().zip(&want) {
                let Some((n, t)) = w else { continue };
                let Some((gn, gt)) = g.split_once(" | ") else { return Err(Fail::new("line", format!("{g:?} instead of {n} {t:?}"))) };
                ensure!(gn == n.to_string(), "number", "{g:?} instead of {n} {t:?}");
                ensure!(gt == t || t.is_empty(), "text", "{g:?} instead of {n} {t:?}");
            }
            ctx.outcome(want.len());
            Ok(())
        },
    )
}

const NAMES: [&str; 11] = ["7/1234", "1.log", "job.log", "job.log.1", "sub/job.log", "sub/job.log.gz", "abcdef0/x.txt", "fedcba9/x.txt", "Zed.log", "etc/y.log", "a b.json"];

/// debug-groups: each group with its sources, by name.
fn groups(_tier: Tier) -> Space {
    let n = 1u64 << NAMES.len();
    Space::new(
        "groups",
        "debug-groups of every set of 11 names, and of each file alone".to_string(),
        n + NAMES.len() as u64,
        move |i| json!({"set": i}),
        move |i, ctx| {
            let root = ctx.clean_scratch().join("w");
            let set: Vec<&str> = if i < n { (0..NAMES.len()).filter(|k| i >> k & 1 == 1).map(|k| NAMES[k]).collect() } else { vec![NAMES[(i - n) as usize]] };
            std::fs::create_dir_all(root.join("t")).unwrap();
            for f in &set {
                let p = root.join("t").join(f);
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(p, "x\n").unwrap();
            }
            ctx.state(i);
            ctx.nontrivial(i);
            let arg = if i < n { root.join("t") } else { root.join("t").join(set[0]) }.display().to_string();
            let o = run(&root, &["debug-groups", &arg])?;
            ctx.eval();
            ctx.step(1);
            let c = Content::from_input(Input::from_string(arg)).and_then(|c| Content::group_sources(&[c]));
            let want: BTreeMap<String, Vec<String>> = match c {
                Err(_) => {
                    ensure!(o.is_error(), "status", "there are no sources: {}", o.show());
                    return Ok(());
                }
                Ok(g) => g.into_iter().map(|(n, s)| (n.as_str().to_string(), s.iter().map(|s| s.as_str().to_string()).collect())).collect(),
            };
            ok(&o)?;
            // the names and the paths are the texts between quotes, whatever is printed around them
            let mut got: Vec<(String, Vec<String>)> = vec![];
            for q in o.out.split('"').skip(1).step_by(2) {
                if q.starts_with('/') {
                    got.last_mut().ok_or_else(|| Fail::new("groups", o.show()))?.1.push(q.to_string());
                } else {
                    got.push((q.to_string(), vec![]));
                }
            }
            for (_, s) in got.iter_mut() {
                s.sort();
            }
            let want: Vec<(String, Vec<String>)> = want
                .into_iter()
                .map(|(n, mut s)| {
                    s.sort();
                    (n, s)
                })
                .collect();
            ensure!(got == want, "groups", "{got:?} instead of {want:?}: {}", o.show());
            ctx.outcome(want.len());
            Ok(())
        },
    )
}

/// What is no file, or no text.
fn odd() -> Space {
    Space::new(
        "errors",
        "debug-iterator and debug-groups of what is not there or empty".to_string(),
        6,
        |i| json!({ "case": i }),
        |i, ctx| {
            let root = ctx.clean_scratch().join("w");
            std::fs::create_dir_all(root.join("empty")).unwrap();
            let arg = ["none", "empty", "http://127.0.0.1:1/x.log"][(i / 2) as usize];
            let o = run(&root, &[["debug-iterator", "debug-groups"][(i % 2) as usize], arg])?;
            ctx.eval();
            ctx.nontrivial(i);
            // the group of a url needs no request
            ensure!(o.is_error() || (i == 5 && o.ok() && o.out.contains("x.log")), "status", "{}", o.show());
            Ok(())
        },
    )
}

/// debug-indexname of the spellings of paths.
fn paths(tier: Tier) -> Space {
    const P: [&str; 13] = ["a", "/", "./", "../", ".", "1", "b1.log", ".gz", "-2022-10-01", "abcdef0123/", "_", "C:", "log"];
    let max = tier.pick(3, 4);
    let text = move |i: u64| -> String { seq_decode(i, 13, 1, max).into_iter().map(|c| P[c]).collect() };
    Space::new(
        "paths",
        format!("debug-indexname of every path of 1 to {max} of 13 pieces"),
        seq_count(13, 1, max),
        move |i| json!({ "path": text(i) }),
        move |i, ctx| {
            let t = text(i);
            let root = ctx.clean_scratch().join("w");
            std::fs::create_dir_all(&root).unwrap();
            ctx.state(i);
            ctx.nontrivial(i);
            let o = run(&root, &["debug-indexname", "--", &t])?;
            ok(&o)?;
            let want = IndexName::from_path(&t);
            ensure_eq!(o.out.trim_end_matches('\n'), want.as_str().trim_end_matches('\n'), "name", "the index name of {t:?}");
            ctx.eval();
            ctx.step(1);
            ctx.outcome(want.as_str().to_string());
            Ok(())
        },
    )
}

pub fn spaces(tier: Tier) -> Vec<Space> {
    vec![lines(tier), paths(tier), iterator(tier), groups(tier), odd()]
}
