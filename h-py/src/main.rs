//! C30: the Python module against the functions it wraps.
use logreduce_index::{Features, FeaturesMatrix};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use vengine::serde_json::{self, json, Value};
use vengine::*;

/// A Python process with the module.
struct Py {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Py {
    fn start() -> Py {
        let lib = match std::env::var_os("LOGREDUCE_PY") {
            Some(p) => p.into(),
            None => verif_dir().join(".target/py/release/liblogreduce_binding.so"),
        };
        let mut child = Command::new("/usr/bin/python3")
            .args(["-B", "-I", "-c", include_str!("driver.py")])
            .arg(&lib)
            .env_clear()
            .env("LANG", "C.UTF-8")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("python3");
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        Py { child, to, from }
    }
    fn ask(&mut self, calls: &Value) -> Option<Vec<Value>> {
        writeln!(self.to, "{calls}").ok()?;
        let mut l = String::new();
        self.from.read_line(&mut l).ok()?;
        serde_json::from_str(&l).ok()
    }
}

impl Drop for Py {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn ask(ctx: &mut Ctx, calls: &Value) -> Result<Vec<Value>, Fail> {
    if ctx.any.is_none() {
        ctx.any = Some(Box::new(Py::start()));
    }
    let py = ctx.any.as_mut().unwrap().downcast_mut::<Py>().unwrap();
    match py.ask(calls) {
        Some(v) => Ok(v),
        None => {
            let st = py.child.wait();
            ctx.any = None;
            Err(Fail::new("crash", format!("the interpreter died: {st:?}")))
        }
    }
}

#[derive(Clone)]
enum Reg {
    Index(Rc<Vec<Features>>),
    Mat(Rc<FeaturesMatrix>),
    Buf(Rc<Vec<u8>>),
    Foreign,
}

fn floats(v: &[f32]) -> Value {
    Value::Array(v.iter().map(|x| if x.is_nan() { json!("nan") } else { json!(*x as f64) }).collect())
}

/// What the Rust functions give; None where the call must raise.
fn reference(calls: &[Value]) -> Vec<Option<Value>> {
    let mut regs: HashMap<String, Reg> = HashMap::new();
    let mut out = vec![];
    for c in calls {
        let args: Option<Vec<String>> = c["args"].as_array().map(|a| a.iter().map(|x| x.as_str().map(String::from)).collect::<Option<Vec<_>>>()).unwrap_or(Some(vec![]));
        let of = c["of"].as_str().and_then(|r| regs.get(r)).cloned();
        let to = c["to"].as_str();
        let v: Option<(Value, Option<Reg>)> = catch_unwind(AssertUnwindSafe(|| match (c["op"].as_str().unwrap(), of) {
            ("process", _) => args.map(|a| (Value::Array(a.iter().map(|l| json!(logreduce_tokenizer::process(l))).collect()), None)),
            ("del", _) => Some((Value::Null, None)),
            ("copy", r) => Some((Value::Null, r)),
            ("index", _) => args.map(|a| (json!("capsule"), Some(Reg::Index(Rc::new(logreduce_index::index(&mut a.into_iter())))))),
            ("index_mat", _) => args.map(|a| (json!("capsule"), Some(Reg::Mat(Rc::new(logreduce_index::index_mat(&a)))))),
            ("search", Some(Reg::Index(m))) => args.map(|a| (floats(&a.iter().map(|l| logreduce_index::search(&m, l)).collect::<Vec<_>>()), None)),
            ("search", _) if args.as_ref().map_or(false, |a| a.is_empty()) => Some((json!([]), None)),
            ("search_mat", Some(Reg::Mat(m))) => args.map(|a| (floats(&logreduce_index::search_mat(&m, &a)), None)),
            ("save_mat", Some(Reg::Mat(m))) => {
                let b = logreduce_index::save_mat(&m);
                Some((json!(b.iter().map(|x| format!("{x:02x}")).collect::<String>()), Some(Reg::Buf(Rc::new(b)))))
            }
            ("load_mat", Some(Reg::Buf(b))) => Some((json!("capsule"), Some(Reg::Mat(Rc::new(logreduce_index::load_mat(&b)))))),
            ("cut", Some(Reg::Buf(b))) => {
                let b = b[..(c["size"].as_u64().unwrap() as usize).min(b.len())].to_vec();
                Some((json!(b.iter().map(|x| format!("{x:02x}")).collect::<String>()), Some(Reg::Buf(Rc::new(b)))))
            }
            ("generate", _) => c["size"].as_u64().map(|n| (json!(logreduce_generate::gen_lines().take(n as usize).collect::<Vec<_>>().join("\n")), None)),
            ("foreign", _) => Some((json!("capsule"), Some(Reg::Foreign))),
            _ => None,
        }))
        .unwrap_or(None);
        if let Some(t) = to {
            match v.as_ref().and_then(|v| v.1.clone()) {
                Some(r) => {
                    regs.insert(t.to_string(), r);
                }
                None => {
                    regs.remove(t);
                }
            }
        }
        out.push(v.map(|v| v.0));
    }
    out
}

fn same(got: &Value, want: &Value) -> bool {
    match (got, want) {
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (Value::Number(a), Value::Number(b)) => (a.as_f64().unwrap_or(f64::NAN) - b.as_f64().unwrap_or(f64::NAN)).abs() < 1e-6,
        _ => got == want,
    }
}

fn check(calls: Vec<Value>, ctx: &mut Ctx) -> Res {
    let want = reference(&calls);
    let got = ask(ctx, &json!(calls))?;
    ctx.eval();
    ctx.step(calls.len() as u64);
    let cut = |v: String| v.chars().take(300).collect::<String>();
    ensure!(got.len() == want.len(), "answers", "{} answers to {} calls", got.len(), want.len());
    for (k, (g, w)) in got.iter().zip(&want).enumerate() {
        let call = cut(calls[k].to_string());
        match w {
            None => ensure!(g.get("error").is_some(), "no-error", "call {k} {call} gives {} and should raise", cut(g.to_string())),
            Some(w) => {
                let nan = |v: &Value| v.to_string().replace("NaN", "\"nan\"");
                ensure!(same(g, w), "differs", "call {k} {call} gives {} instead of {}", cut(nan(g)), cut(w.to_string()));
            }
        }
    }
    ctx.outcome(json!(got).to_string());
    Ok(())
}

const CHARS: [char; 17] = ['a', 'Z', '0', '7', ' ', '-', '.', '/', ':', '=', '"', '[', '\t', '\0', 'é', '\u{1f600}', '\u{feff}'];

fn lines(tier: Tier) -> Space {
    let max = tier.pick(4, 5);
    let n = seq_count(17, 0, max);
    const BATCH: u64 = 512;
    Space::new(
        "lines",
        format!("process on every line of up to {max} of 17 characters"),
        n.div_ceil(BATCH),
        |i| json!({"first": i * BATCH}),
        move |i, ctx| {
            let l: Vec<String> = (i * BATCH..((i + 1) * BATCH).min(n)).map(|k| seq_decode(k, 17, 0, max).into_iter().map(|c| CHARS[c]).collect()).collect();
            for (k, x) in l.iter().enumerate() {
                ctx.state(x);
                if k % 16 == 0 {
                    ctx.nontrivial(x);
                }
            }
            ctx.evals(l.len() as u64 - 1);
            check(vec![json!({"op": "process", "args": l})], ctx)
        },
    )
}

const TEXTS: [&str; 7] = ["the first line", "the second line", "the third line is a warning", "", " ", "é …", "the the the"];

/// Texts that differ from one another only by what is easily dropped.
const MARKED: &[&str] = &[
    "some text here", "some text here\0", "\0some text here", "some\0text here", "some text here ", " some text here", "some text here\n", "some text here\r", "\u{feff}some text here", "some text here\u{a0}", "some text  here", "some\ttext here", "Some text here", "some text her\u{e9}", "some text here\u{301}", "some text here some",
    "some text here\\n", "\"some text here\"", "some text here\u{200b}", "\0", "\n",
];

/// Every function on every small list.
fn lists(name: &str, texts: &'static [&'static str], nb: u32, nt: u32) -> Space {
    let n = texts.len() as u64;
    let (kb, kt) = (seq_count(n, 0, nb), seq_count(n, 0, nt));
    Space::new(
        name,
        format!("every list of up to {nb} baselines and up to {nt} targets of {n} texts: index, search, index_mat, search_mat, save, load"),
        kb * kt,
        move |i| json!({"baselines": seq_decode(i % kb, n, 0, nb), "targets": seq_decode(i / kb, n, 0, nt)}),
        move |i, ctx| {
            let b: Vec<&str> = seq_decode(i % kb, n, 0, nb).into_iter().map(|k| texts[k]).collect();
            let t: Vec<&str> = seq_decode(i / kb, n, 0, nt).into_iter().map(|k| texts[k]).collect();
            ctx.state(i);
            ctx.nontrivial(i);
            check(
                vec![
                    json!({"op": "index", "to": "a", "args": b}),
                    json!({"op": "search", "of": "a", "args": t}),
                    json!({"op": "index_mat", "to": "b", "args": b}),
                    json!({"op": "search_mat", "of": "b", "args": t}),
                    json!({"op": "save_mat", "to": "f", "of": "b"}),
                    json!({"op": "load_mat", "to": "c", "of": "f"}),
                    json!({"op": "search_mat", "of": "c", "args": t}),
                    json!({"op": "search_mat", "of": "b", "args": t}),
                    json!({"op": "search", "of": "a", "args": t}),
                    json!({"op": "save_mat", "of": "c"}),
                ],
                ctx,
            )
        },
    )
}

/// Calls over two models and a buffer; also calls with the wrong kind of model.
fn calls() -> Vec<Value> {
    let one = ["the first line", "another line"];
    let two = ["the second line", "é x"];
    let t = ["the first line", "the second line", "new"];
    let mut v = vec![];
    for r in ["a", "b"] {
        let base = if r == "a" { one } else { two };
        v.push(json!({"op": "index", "to": r, "args": base}));
        v.push(json!({"op": "index_mat", "to": r, "args": base}));
        v.push(json!({"op": "search", "of": r, "args": t}));
        v.push(json!({"op": "search_mat", "of": r, "args": t}));
        v.push(json!({"op": "save_mat", "to": "f", "of": r}));
        v.push(json!({"op": "load_mat", "to": r, "of": "f"}));
        v.push(json!({"op": "del", "to": r}));
    }
    v.push(json!({"op": "copy", "to": "b", "of": "a"}));
    v.push(json!({"op": "copy", "to": "a", "of": "f"}));
    v.push(json!({"op": "foreign", "to": "a"}));
    v
}

fn histories(tier: Tier) -> Space {
    let menu = calls();
    let n = menu.len() as u64;
    let max = tier.pick(4, 5);
    let m2 = menu.clone();
    Space::new(
        "histories",
        format!("every sequence of up to {max} of {n} calls on two models, also with the wrong kind of model"),
        seq_count(n, 1, max),
        move |i| json!({"calls": seq_decode(i, n, 1, max).into_iter().map(|k| m2[k].clone()).collect::<Vec<_>>()}),
        move |i, ctx| {
            let mut c: Vec<Value> = seq_decode(i, n, 1, max).into_iter().map(|k| menu[k].clone()).collect();
            // what the models give at the end
            for r in ["a", "b"] {
                for f in ["search", "search_mat"] {
                    c.push(json!({"op": f, "of": r, "args": ["the first line", "x"]}));
                }
            }
            ctx.state(i);
            ctx.nontrivial(i);
            check(c, ctx)
        },
    )
}

/// Sizes, cut buffers, odd strings.
fn odd(tier: Tier) -> Space {
    let sizes: Vec<usize> = (0..=tier.pick(40, 300)).chain([64, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2000]).collect();
    let n = sizes.len() as u64;
    let s2 = sizes.clone();
    Space::new(
        "sizes",
        format!("{n} sizes up to 2000: baselines, targets, words of a line, characters of a word, cuts of a saved matrix, lone surrogates"),
        n * 6,
        move |i| json!({"size": s2[(i / 6) as usize], "of": i % 6}),
        move |i, ctx| {
            let s = sizes[(i / 6) as usize];
            let w = |k: usize| format!("word{} line {}", k % 97, k);
            ctx.state(i);
            ctx.nontrivial(i);
            let all = |b: Vec<String>, t: Vec<String>| {
                vec![
                    json!({"op": "index", "to": "a", "args": b}),
                    json!({"op": "search", "of": "a", "args": t}),
                    json!({"op": "index_mat", "to": "b", "args": b}),
                    json!({"op": "search_mat", "of": "b", "args": t}),
                    json!({"op": "save_mat", "to": "f", "of": "b"}),
                    json!({"op": "load_mat", "to": "c", "of": "f"}),
                    json!({"op": "search_mat", "of": "c", "args": t}),
                    json!({"op": "process", "args": b}),
                ]
            };
            let c = match i % 6 {
                0 => all((0..s).map(w).collect(), vec![w(0), w(s), w(s.saturating_sub(1)), "none".into()]),
                1 => all(vec![w(1), w(50)], (0..s).map(w).collect()),
                2 => all(vec![(0..s).map(w).collect::<Vec<_>>().join(" "), w(2)], vec![(0..s).map(w).collect::<Vec<_>>().join(" "), (0..s / 2).map(w).collect::<Vec<_>>().join(" ")]),
                3 => all(vec!["xé".chars().cycle().take(s).collect::<String>(), w(3)], vec!["xé".chars().cycle().take(s).collect::<String>(), "x".repeat(s)]),
                4 => vec![
                    json!({"op": "index_mat", "to": "b", "args": [w(1), w(2)]}),
                    json!({"op": "save_mat", "to": "f", "of": "b"}),
                    json!({"op": "cut", "to": "f", "of": "f", "size": s}),
                    json!({"op": "load_mat", "to": "c", "of": "f"}),
                    json!({"op": "search_mat", "of": "c", "args": [w(1)]}),
                    json!({"op": "search_mat", "of": "b", "args": [w(1)]}),
                ],
                _ => {
                    // code points that are no characters cannot be taken
                    let bad = vec![0x61, 0xd800 + (s as u32 % 2048), 0x62];
                    vec![
                        json!({"op": "process", "args": [bad]}),
                        json!({"op": "index", "to": "a", "args": [bad]}),
                        json!({"op": "index_mat", "to": "a", "args": ["x", bad]}),
                        json!({"op": "index", "to": "a", "args": ["x"]}),
                        json!({"op": "search", "of": "a", "args": [bad]}),
                        json!({"op": "search", "of": "a", "args": ["x"]}),
                    ]
                }
            };
            check(c, ctx)
        },
    )
}

/// Many baselines and many targets.
fn many(tier: Tier) -> Space {
    let sizes: &'static [usize] = tier.pick(&[4096, 10_000, 10_240, 16_385, 33_000], &[4096, 10_000, 10_240, 16_385, 33_000, 70_000]);
    let n = sizes.len() as u64;
    Space::new(
        "many",
        format!("{sizes:?} targets against 2 baselines, and as many baselines against 3 targets"),
        n * 2,
        move |i| json!({"targets": sizes[(i % n) as usize], "swapped": i / n}),
        move |i, ctx| {
            let s = sizes[(i % n) as usize];
            let w = |k: usize| format!("word{} line {}", k % 97, k);
            // few of the lines match
            let many: Vec<String> = (0..s).map(|k| if k % 1000 == 999 { "the second line".into() } else { w(k) }).collect();
            let few: Vec<String> = vec!["the first line".into(), "the second line".into(), "word5 other".into()];
            let (b, t) = if i / n == 0 { (few[..2].to_vec(), many) } else { (many, few) };
            ctx.state(i);
            ctx.nontrivial(i);
            check(
                vec![
                    json!({"op": "index_mat", "to": "b", "args": b}),
                    json!({"op": "search_mat", "of": "b", "args": t}),
                    json!({"op": "index", "to": "a", "args": b}),
                    json!({"op": "search", "of": "a", "args": &t[..t.len().min(3)]}),
                ],
                ctx,
            )
        },
    )
    .timeout(300)
}

/// generate between other calls: the first lines of one fixed sequence.
fn generated(tier: Tier) -> Space {
    let max = tier.pick(300u64, 3000);
    const BIG: [u64; 8] = [511, 512, 513, 1000, 1024, 4096, 10_000, 60_000];
    Space::new(
        "generated",
        format!("generate of every size up to {max} and 8 sizes up to 60000, before and after other calls, and sizes that are none"),
        max + 1 + 8 + 5,
        move |i| json!({ "size": i }),
        move |i, ctx| {
            ctx.state(i);
            ctx.nontrivial(i);
            let size = if i <= max {
                json!(i)
            } else if i - max - 1 < 8 {
                json!(BIG[(i - max - 1) as usize])
            } else {
                [json!(-1), json!("1"), Value::Null, json!(1.5), json!([1])][(i - max - 9) as usize].clone()
            };
            if let Some(n) = size.as_u64() {
                // lines as they are described: 2 to 9 words of 2 to 17 letters and digits
                let l: Vec<String> = logreduce_generate::gen_lines().take(n as usize).collect();
                ensure!(l.len() as u64 == n, "count", "{} lines instead of {n}", l.len());
                for x in &l {
                    let w: Vec<&str> = x.split(' ').collect();
                    ensure!((2..10).contains(&w.len()) && w.iter().all(|w| (2..18).contains(&w.len()) && w.bytes().all(|b| b.is_ascii_alphanumeric())), "shape", "generated line {x:?}");
                }
                if let Some(last) = l.last() {
                    ensure!(logreduce_generate::gen_lines().nth(n as usize - 1).as_ref() == Some(last), "repeat", "the sequence is not the same again");
                }
            }
            let g = json!({"op": "generate", "size": size});
            check(vec![g.clone(), json!({"op": "process", "args": ["x y"]}), json!({"op": "generate", "size": 3}), g], ctx)
        },
    )
}

fn main() {
    let _ = logreduce_tokenizer::process("warm up 2022-01-01");
    run_main(|p, tier| {
        Some(match p {
            "C30" => Check {
                level: "model_checking",
                rule: "every call of the Python module gives what the Rust function gives (distances up to 1e-6: the module is built with its own lock file), and raises where there is no such call".into(),
                assumptions: vec!["CPython 3.12 of the sandbox".into()],
                spaces: vec![lines(tier), lists("lists", &TEXTS, tier.pick(3, 4), tier.pick(2, 3)), lists("marked texts", MARKED, tier.pick(1, 2), 1), histories(tier), odd(tier), many(tier), generated(tier)],
            },
            _ => return None,
        })
    });
}
