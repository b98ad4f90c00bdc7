use crate::cli::{run, snapshot};
use logreduce_model::{hashing_index, Content, IndexName, Model, OutputMode, Source};
use std::path::Path;
use vengine::serde_json::{self, json};
use vengine::*;

const KNOWN: [&str; 3] = ["2022-10-01 service worker finished processing every request batch", "node manager started unit nominal without trouble today", "closing connections of the pool at the end"];
const NOVEL: [&str; 3] = ["gjkpqu vwxyqu zhmrqu broke", "kkpqqu wwxyqu hhmrqu failed", "qqvxqu yyzhqu mmrtqu died"];
/// Lines of the failing log.
fn line(k: usize) -> String {
    match k {
        0 => KNOWN[0].into(),
        1..=3 => NOVEL[k - 1].into(),
        4 => "  indented pzpzqu gtgtqu trailing  ".into(),
        // a line without any token
        5 => ", ; ( ) ,".into(),
        6 => "spaced  jzjzqu  ktktqu\tout".into(),
        _ => unreachable!(),
    }
}
const NOTES: usize = 15;
/// Lines of the annotation.
fn note(k: usize) -> String {
    match k {
        0..=2 => NOVEL[k].into(),
        3 => "vwxyqu".into(),
        4 => "  zhmrqu broke \n".into(),
        5 => "broke gjkpqu".into(),
        6 => KNOWN[0].into(),
        7 => String::new(),
        8 => "WWXYQU".into(),
        9 => format!("{} and more", NOVEL[1]),
        10 => "pzpzqu gtgtqu trailing".into(),
        11 => "indented  pzpzqu".into(),
        12 => "; (".into(),
        13 => "jzjzqu ktktqu".into(),
        _ => "jzjzqu  ktktqu\tout".into(),
    }
}

fn yaml(notes: &[String]) -> String {
    if notes.is_empty() {
        return "anomalies: []\n".into();
    }
    let mut s = String::from("anomalies:\n");
    for n in notes {
        s += &format!("  - line: {}\n", serde_json::to_string(n).unwrap());
    }
    s
}

fn make(dir: &Path, fail: &[u8], good: &[u8], inf: Option<&str>) {
    std::fs::create_dir_all(dir).unwrap();
    std::fs::write(dir.join("log.good"), good).unwrap();
    std::fs::write(dir.join("log.fail"), fail).unwrap();
    if let Some(i) = inf {
        std::fs::write(dir.join("inf.yaml"), i).unwrap();
    }
}

/// The anomaly lines the library gives, None when it fails.
fn found(dir: &Path) -> Option<Vec<String>> {
    let m = Model::train(OutputMode::Quiet, vec![Content::from_pathbuf(dir.join("log.good"))], hashing_index::new).ok()?;
    let ix = m.get_index(&IndexName("".into()))?;
    let mut skip = Default::default();
    let v: Vec<_> = ix.inspect(OutputMode::Quiet, &Source::from_pathbuf(dir.join("log.fail")), &mut skip).collect();
    v.into_iter().map(|a| a.ok().map(|a| a.anomaly.line)).collect()
}

fn matches(found: &[String], notes: &[String]) -> bool {
    found.len() == notes.len() && found.iter().zip(notes).all(|(f, n)| f.contains(n.trim()))
}

fn check(dirs: &[&Path], want: bool, root: &Path, ctx: &mut Ctx) -> Res {
    let before = snapshot(root);
    let names: Vec<String> = dirs.iter().map(|d| d.display().to_string()).collect();
    let mut args = vec!["test"];
    args.extend(names.iter().map(String::as_str));
    let o = run(root, &args)?;
    ctx.eval();
    ctx.step(1);
    if want {
        ensure!(o.ok(), "fails", "the annotation matches: {}", o.show());
    } else {
        ensure!(o.is_error(), "passes", "the annotation does not match: {}", o.show());
    }
    ctx.outcome(want);
    ensure!(snapshot(root) == before, "files", "the command changes files");
    Ok(())
}

fn good() -> Vec<u8> {
    let mut s = KNOWN.join("\n");
    s.push('\n');
    s.into_bytes()
}

fn datasets(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    for (lines, max_fail, max_note, kinds, title) in [(7, tier.pick(2u32, 3), 2u32, NOTES as u64, "datasets"), (tier.pick(4u64, 5), tier.pick(3, 4), 3, 4, "longer annotations")] {
        let nf = seq_count(lines, 0, max_fail);
        let nn = seq_count(kinds, 0, max_note);
        v.push(Space::new(
            title,
            format!("failing logs of up to {max_fail} of {lines} lines x annotations of up to {max_note} of {kinds} lines"),
            nf * nn,
            move |i| json!({"log": seq_decode(i % nf, lines, 0, max_fail).into_iter().map(line).collect::<Vec<_>>(), "annotation": seq_decode(i / nf, kinds, 0, max_note).into_iter().map(note).collect::<Vec<_>>()}),
            move |i, ctx| {
                let log: Vec<String> = seq_decode(i % nf, lines, 0, max_fail).into_iter().map(line).collect();
                let notes: Vec<String> = seq_decode(i / nf, kinds, 0, max_note).into_iter().map(note).collect();
                let d = ctx.clean_scratch();
                let root = d.join("w");
                let ds = root.join("ds");
                let mut text = log.join("\n");
                if i % 2 == 0 && !text.is_empty() {
                    text.push('\n');
                }
                make(&ds, text.as_bytes(), &good(), Some(&yaml(&notes)));
                let f = found(&ds).ok_or_else(|| Fail::new("library", "the library fails"))?;
                // the lines of the menu are what they should be
                let want = matches(&f, &notes);
                ctx.state(i);
                if want || f.len() == notes.len() {
                    ctx.nontrivial(i);
                }
                check(&[&ds], want, &root, ctx)
            },
        ));
    }
    v
}

const BROKEN: [&str; 26] = [
    "fine", "no inf.yaml", "empty inf.yaml", "not yaml", "no anomalies key", "anomalies null", "anomalies text", "line missing", "line number", "line null", "extra keys", "no good", "no fail", "no directory", "a file", "good is a directory", "fail is a directory", "good not utf-8", "fail not utf-8", "empty good",
    "empty fail", "inf.yaml is a directory", "inf.yaml not utf-8", "empty both", "annotation twice", "block scalars",
];

/// Damaged datasets, alone and among others.
fn broken() -> Space {
    let n = BROKEN.len() as u64;
    Space::new(
        "damaged datasets",
        format!("{n} states of a dataset whose log has one anomaly or none, alone, before and after a matching one and a mismatching one"),
        n * 10,
        move |i| json!({"state": BROKEN[(i / 5 % n) as usize], "place": i % 5, "novel": i / 5 < n}),
        move |i, ctx| {
            let plain = i / 5 >= n;
            let i0 = i;
            let i = i % (n * 5);
            let what = BROKEN[(i / 5) as usize];
            let d = ctx.clean_scratch();
            let root = d.join("w");
            let ds = root.join("ds");
            let notes = yaml(&[NOVEL[0].to_string()]);
            let fail = format!("{}\n{}\n{}\n", KNOWN[0], NOVEL[0], KNOWN[1]);
            let anomalous = fail.clone();
            let fail = if plain { format!("{}\n{}\n", KNOWN[0], KNOWN[1]) } else { fail };
            make(&ds, fail.as_bytes(), &good(), Some(&notes));
            let put = |n: &str, b: &[u8]| std::fs::write(ds.join(n), b).unwrap();
            let swap = |n: &str| {
                std::fs::remove_file(ds.join(n)).unwrap();
                std::fs::create_dir(ds.join(n)).unwrap();
            };
            // None: what happens is not said, but no crash
            let mut want = Some(false);
            match what {
                "fine" => want = Some(true),
                "no inf.yaml" => std::fs::remove_file(ds.join("inf.yaml")).unwrap(),
                "empty inf.yaml" => put("inf.yaml", b""),
                "not yaml" => put("inf.yaml", b"{[\n: :"),
                "no anomalies key" => put("inf.yaml", b"other: []\n"),
                "anomalies null" => put("inf.yaml", b"anomalies:\n"),
                "anomalies text" => put("inf.yaml", b"anomalies: gjkpqu\n"),
                "line missing" => put("inf.yaml", b"anomalies:\n  - filename: x\n"),
                "line number" => put("inf.yaml", b"anomalies:\n  - line: 12\n"),
                "line null" => {
                    put("inf.yaml", b"anomalies:\n  - line:\n");
                    want = None
                }
                "extra keys" => {
                    put("inf.yaml", format!("name: x\n{notes}    filename: y\nurl: z\n").as_bytes());
                    want = Some(true)
                }
                "no good" => std::fs::remove_file(ds.join("log.good")).unwrap(),
                "no fail" => std::fs::remove_file(ds.join("log.fail")).unwrap(),
                "no directory" => std::fs::remove_dir_all(&ds).unwrap(),
                "a file" => {
                    std::fs::remove_dir_all(&ds).unwrap();
                    std::fs::write(&ds, b"x").unwrap()
                }
                "good is a directory" => {
                    swap("log.good");
                    // nothing is learnt, so the known lines are anomalies too
                }
                "fail is a directory" => swap("log.fail"),
                "good not utf-8" => {
                    put("log.good", b"\xff\xfe\n");
                }
                "fail not utf-8" => put("log.fail", format!("{fail}").into_bytes().into_iter().chain(*b"\xff\n").collect::<Vec<u8>>().as_slice()),
                "empty good" => {
                    put("log.good", b"");
                    want = None
                }
                "empty fail" => put("log.fail", b""),
                "inf.yaml is a directory" => swap("inf.yaml"),
                "inf.yaml not utf-8" => put("inf.yaml", b"anomalies:\n  - line: \xff\n"),
                "empty both" => {
                    put("log.good", b"");
                    put("log.fail", b"");
                    put("inf.yaml", b"anomalies: []\n");
                    want = Some(true)
                }
                "annotation twice" => put("inf.yaml", yaml(&[NOVEL[0].to_string(), NOVEL[0].to_string()]).as_bytes()),
                _ => {
                    put("inf.yaml", format!("anomalies:\n  - line: |\n      {}\n", NOVEL[0]).as_bytes());
                    want = Some(true)
                }
            }
            if plain && what != "empty both" {
                // one anomaly is annotated
                want = want.map(|_| false);
                if what == "anomalies null" {
                    // may be taken for an empty list
                    want = None
                }
            }
            let ok = root.join("ok");
            make(&ok, anomalous.as_bytes(), &good(), Some(&notes));
            let bad = root.join("bad");
            make(&bad, anomalous.as_bytes(), &good(), Some("anomalies: []\n"));
            ctx.state(i0);
            ctx.nontrivial(i0);
            let (list, all): (Vec<&Path>, Option<bool>) = match i % 5 {
                0 => (vec![&ds], want),
                1 => (vec![&ds, &ok], want),
                2 => (vec![&ok, &ds], want),
                3 => (vec![&ds, &bad], want.map(|_| false)),
                _ => (vec![&ok, &bad, &ds], want.map(|_| false)),
            };
            match all {
                Some(w) => check(&list, w, &root, ctx),
                None => {
                    let names: Vec<String> = list.iter().map(|d| d.display().to_string()).collect();
                    let mut args = vec!["test"];
                    args.extend(names.iter().map(String::as_str));
                    let o = run(&root, &args)?;
                    ctx.eval();
                    ensure!(o.ok() || o.is_error(), "crash", "{}", o.show());
                    Ok(())
                }
            }
        },
    )
}

/// Many anomalies, long lines, many datasets.
fn scales(tier: Tier) -> Space {
    let sizes: Vec<usize> = (1..=tier.pick(12, 60)).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 1000]).collect();
    let n = sizes.len() as u64;
    let s2 = sizes.clone();
    Space::new(
        "scales",
        format!("{n} numbers of anomalies up to 1000, each with the annotation exact, one missing at the end, one too many, the last one wrong, the first one wrong"),
        n * 5,
        move |i| json!({"anomalies": s2[(i / 5) as usize], "annotation": i % 5}),
        move |i, ctx| {
            let k = sizes[(i / 5) as usize];
            let d = ctx.clean_scratch();
            let root = d.join("w");
            let ds = root.join("ds");
            let mut log = String::new();
            let mut notes = vec![];
            const L: &[u8] = b"gjkpqvwxyzhmrt";
            let w = |i: usize| (0..4).map(|k| L[i / 14usize.pow(k) % 14] as char).collect::<String>() + "qu";
            for j in 0..k {
                let l = format!("{} {} {} broke", w(3 * j), w(3 * j + 1), w(3 * j + 2));
                log += &format!("{}\n{l}\n", KNOWN[j % 3]);
                notes.push(l);
            }
            match i % 5 {
                0 => {}
                1 => {
                    notes.pop();
                }
                2 => notes.push(NOVEL[0].into()),
                3 => *notes.last_mut().unwrap() = "another text".into(),
                _ => notes[0] = "another text".into(),
            }
            make(&ds, log.as_bytes(), &good(), Some(&yaml(&notes)));
            let f = found(&ds).ok_or_else(|| Fail::new("library", "the library fails"))?;
            ensure!(f.len() == k, "library", "{} anomalies instead of {k}", f.len());
            ctx.state(i);
            ctx.nontrivial(i);
            check(&[&ds], matches(&f, &notes), &root, ctx)
        },
    )
}

/// Names of the two logs, and of others beside them.
fn names() -> Space {
    // (name, its kind when it is one)
    const G: [&str; 6] = ["log.good", "x.log.good", ".good", "good", "xgood", "log.good.gz"];
    const F: [&str; 6] = ["log.fail", "x.y.fail", ".fail", "fail", "xfail", "log.fail.txt"];
    const MORE: [&str; 5] = ["", "notes.txt", "afail", "zgood", "x.failed"];
    let is = |n: &str, e: &str| n.rsplit_once('.').map_or(false, |(a, b)| !a.is_empty() && b == e);
    Space::new(
        "names",
        "6 names of the sound log x 6 names of the failing log x 5 other files: only those with the extensions count",
        6 * 6 * 5,
        |i| {
            let mut d = Dec(i);
            json!({"good": d.pick(&G), "fail": d.pick(&F), "beside": d.pick(&MORE)})
        },
        move |i, ctx| {
            let mut d = Dec(i);
            let (g, f, m) = (*d.pick(&G), *d.pick(&F), *d.pick(&MORE));
            let root = ctx.clean_scratch().join("w");
            let ds = root.join("ds");
            let fail = format!("{}\n{}\n{}\n", KNOWN[0], NOVEL[0], KNOWN[1]);
            make(&ds, fail.as_bytes(), &good(), Some(&yaml(&[NOVEL[0].to_string()])));
            std::fs::rename(ds.join("log.good"), ds.join(g)).unwrap();
            std::fs::rename(ds.join("log.fail"), ds.join(f)).unwrap();
            if !m.is_empty() {
                std::fs::write(ds.join(m), NOVEL[2]).unwrap();
            }
            ctx.state(i);
            ctx.nontrivial(i);
            check(&[&ds], is(g, "good") && is(f, "fail"), &root, ctx)
        },
    )
}

pub fn spaces(tier: Tier) -> Vec<Space> {
    let mut v = datasets(tier);
    v.push(names());
    v.push(broken());
    v.push(scales(tier));
    v
}
