//! C09, C10: distances against the set formula, for every small baseline, target, cut and batch.
use logreduce_index::*;
use std::collections::BTreeSet;
use vengine::serde_json::json;
use vengine::*;

/// The formula of the property.
fn dist1(a: &str, b: &str) -> f64 {
    let a: BTreeSet<&str> = a.split(' ').collect();
    let b: BTreeSet<&str> = b.split(' ').collect();
    1.0 - a.intersection(&b).count() as f64 / ((a.len() * b.len()) as f64).sqrt()
}

fn dist(base: &[String], t: &str) -> f64 {
    base.iter().map(|b| dist1(b, t)).fold(1.0, f64::min)
}

fn close(a: f32, b: f64) -> bool {
    // 0 must be 0 and 1 must be 1 up to rounding of sums of a few thousand terms
    (a as f64 - b).abs() < 2e-5 && a > -1e-5 && a < 1.00001
}

fn check_all(got: &[f32], base: &[String], targets: &[String], key: &str) -> Res {
    ensure_eq!(got.len(), targets.len(), key, "number of distances");
    for (g, t) in got.iter().zip(targets) {
        let e = dist(base, t);
        ensure!(close(*g, e), key, "{key}: target {t:?} in baseline {} lines: got {g}, expected {e}; baseline {:?}", base.len(), &base[..base.len().min(6)]);
    }
    Ok(())
}

const VOCAB: [&str; 6] = ["the", "error%A", "%ID", "line", "connection", ""];

/// All subsets of the vocabulary, as lines (the empty set is the empty line, which is the word "").
fn set_lines() -> Vec<String> {
    (0..64u32).map(|m| (0..6).filter(|k| m >> k & 1 == 1).map(|k| VOCAB[k]).collect::<Vec<_>>().join(" ")).collect()
}

fn rep_lines() -> Vec<String> {
    let v = ["alpha", "beta", "gamma"];
    (0..seq_count(3, 1, 4)).map(|i| seq_decode(i, 3, 1, 4).iter().map(|&x| v[x]).collect::<Vec<_>>().join(" ")).collect()
}

fn cuts<T: Clone>(xs: &[T], mask: u64) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    for (i, x) in xs.iter().enumerate() {
        if i > 0 && mask >> (i - 1) & 1 == 1 {
            out.push(vec![]);
        }
        out.last_mut().unwrap().push(x.clone());
    }
    out
}

fn many(n: usize, salt: usize) -> Vec<String> {
    (0..n)
        .map(|i| {
            let mut w: Vec<String> = (0..6).map(|j| format!("w{}", (i * 7 + j * 13 + salt * (j % 2)) % 97)).collect();
            w.push(format!("u{}", i % 53));
            w.join(" ")
        })
        .collect()
}

/// Lines that are each at distance 1/4 at least of every other one.
fn apart(k: usize) -> String {
    (0..4).map(|p| format!("{}{}", ["north", "south", "east", "west"][p], k / 20usize.pow(p as u32) % 20)).collect::<Vec<_>>().join(" ")
}

/// Each line of a long baseline counts.
fn long(tier: Tier) -> Space {
    let sizes: Vec<usize> = tier.pick(vec![100, 300, 600, 1000, 1100, 2100, 3000, 4200, 6000, 8300, 10_100, 16_500, 33_000], (1..40).map(|k| k * 500).chain([33_000, 66_000, 132_000]).collect());
    let s2 = sizes.clone();
    Space::new(
        "each line",
        format!("baselines of {} sizes up to {} of different lines, whole, saved and loaded, in chunks of 512: the lines at every power of two and ten, their neighbours, and 100 others are at distance 0", sizes.len(), sizes.last().unwrap()),
        sizes.len() as u64,
        move |i| json!({"lines": s2[i as usize]}),
        move |i, ctx| {
            let n = sizes[i as usize];
            let base: Vec<String> = (0..n).map(apart).collect();
            let mut at: BTreeSet<usize> = (0..100).map(|k| k * n / 100).collect();
            for p in (0..18).map(|e| 1usize << e).chain((1..6).map(|e| 10usize.pow(e))) {
                at.extend([p - 1, p, p + 1]);
            }
            at.insert(n - 1);
            let targets: Vec<String> = at.into_iter().filter(|k| *k < n).map(apart).chain(["north0 of nothing".into(), "unseen".into()]).collect();
            let exp: Vec<f64> = targets.iter().map(|t| if t == "unseen" { 1.0 } else if t.ends_with("nothing") { 1.0 - 1.0 / 12f64.sqrt() } else { 0.0 }).collect();
            let all = |got: Vec<f32>, what: &str| -> Res {
                ensure_eq!(got.len(), exp.len(), "long", "{what}: number of distances");
                for (k, (g, e)) in got.iter().zip(&exp).enumerate() {
                    ensure!(close(*g, *e), "long", "{what} of {n} lines: {:?} is at {g} instead of {e}", targets[k]);
                }
                Ok(())
            };
            ctx.evals(5 * targets.len() as u64);
            ctx.nontrivial(n);
            let mat = index_mat(&base);
            let loaded = load_mat(&save_mat(&mat));
            ensure!(loaded == mat, "load", "the loaded matrix of {n} lines differs");
            all(search_mat(&mat, &targets), "matrix")?;
            all(search_mat(&loaded, &targets), "loaded matrix")?;
            all(search_mat_chunk(&[loaded], &targets), "one chunk")?;
            let chunks: Vec<FeaturesMatrix> = base.chunks(512).map(index_mat).collect();
            all(search_mat_chunk(&chunks, &targets), "chunks")?;
            let feats = index(&mut base.into_iter());
            all(targets.iter().map(|t| search(&feats, t)).collect(), "line search")
        },
    )
    .timeout(300)
}

fn c09(tier: Tier) -> Vec<Space> {
    let mut v = Vec::new();
    v.push(long(tier));
    let lines = set_lines();
    let max = tier.pick(2, 3);
    let l2 = lines.clone();
    v.push(Space::new(
        "sets",
        format!("every baseline of 0..={max} lines over the 64 subsets of 6 words x all 64 targets, by line, matrix and chunked search"),
        seq_count(64, 0, max),
        move |i| json!({"baseline": seq_decode(i, 64, 0, max).iter().map(|&x| l2[x].clone()).collect::<Vec<_>>(), "targets": "all 64"}),
        move |i, ctx| {
            let base: Vec<String> = seq_decode(i, 64, 0, max).iter().map(|&x| lines[x].clone()).collect();
            let feats = index(&mut base.clone().into_iter());
            let by_line: Vec<f32> = lines.iter().map(|t| search(&feats, t)).collect();
            let mat = index_mat(&base);
            let by_mat = search_mat(&mat, &lines);
            let chunks = if base.is_empty() { vec![] } else { vec![mat] };
            let by_chunk = search_mat_chunk(&chunks, &lines);
            ctx.evals(3 * lines.len() as u64);
            ctx.nontrivial(i);
            ctx.outcome(by_mat.iter().map(|f| (f * 1e4) as i64).collect::<Vec<_>>());
            check_all(&by_line, &base, &lines, "line")?;
            check_all(&by_mat, &base, &lines, "matrix")?;
            check_all(&by_chunk, &base, &lines, "chunk")
        },
    ));
    let lines = rep_lines();
    let n = lines.len() as u64;
    let l2 = lines.clone();
    v.push(Space::new(
        "repetition",
        format!("every baseline line and every target of 1..=4 words over 3 words, in any order and with repetitions ({n} x {n})"),
        n,
        move |i| json!({"baseline": [l2[i as usize].clone()], "targets": "all"}),
        move |i, ctx| {
            let base = vec![lines[i as usize].clone()];
            let feats = index(&mut base.clone().into_iter());
            let by_line: Vec<f32> = lines.iter().map(|t| search(&feats, t)).collect();
            let mat = index_mat(&base);
            ctx.evals(3 * lines.len() as u64);
            ctx.nontrivial(i);
            check_all(&by_line, &base, &lines, "line")?;
            check_all(&search_mat(&mat, &lines), &base, &lines, "matrix")?;
            check_all(&search_mat_chunk(&[mat], &lines), &base, &lines, "chunk")
        },
    ));
    let sizes: Vec<usize> = tier.pick(
        vec![1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1000, 1023, 1025, 2049, 4097, 5000],
        (1..1100).chain([2047, 2048, 2049, 4095, 4097, 8193, 10_000, 16_385, 20_000]).collect(),
    );
    let s2 = sizes.clone();
    v.push(Space::new(
        "sizes",
        format!("baselines and batches of {} sizes up to {}", sizes.len(), sizes.last().unwrap()),
        sizes.len() as u64,
        move |i| json!({"lines": s2[i as usize]}),
        move |i, ctx| {
            let n = sizes[i as usize];
            let base = many(n, 1);
            let targets = many(n.min(300).max(n / 4), 2);
            let mat = index_mat(&base);
            ctx.evals(3 * targets.len() as u64);
            ctx.nontrivial(n);
            check_all(&search_mat(&mat, &targets), &base, &targets, "matrix")?;
            check_all(&search_mat_chunk(&[mat], &targets), &base, &targets, "chunk")?;
            let feats = index(&mut base.clone().into_iter());
            let by_line: Vec<f32> = targets.iter().map(|t| search(&feats, t)).collect();
            check_all(&by_line, &base, &targets, "line")?;
            // lines of the baseline
            let own = search_mat_chunk(&[index_mat(&base)], &base[..n.min(300)]);
            ensure!(own.iter().all(|d| d.abs() < 1e-5), "self", "a line of the baseline is not at distance 0");
            Ok(())
        },
    ));
    let words: Vec<usize> = vec![1, 2, 3, 5, 10, 33, 100, 250, 500];
    let w2 = words.clone();
    let nw = words.len() as u64;
    v.push(Space::new(
        "wide",
        "lines of up to 500 distinct words from a vocabulary of 500: every pair of prefix lengths, disjoint or overlapping",
        nw * nw * 3,
        move |i| json!({"words": [w2[(i % nw) as usize], w2[(i / nw % nw) as usize]], "offset": i / nw / nw}),
        move |i, ctx| {
            let a = words[(i % nw) as usize];
            let b = words[(i / nw % nw) as usize];
            let off = [0, 1, a][(i / nw / nw) as usize];
            let w = |k: usize| format!("token{k}");
            let la = (0..a).map(w).collect::<Vec<_>>().join(" ");
            let lb = (off..off + b).map(|k| w(k % 500)).collect::<Vec<_>>().join(" ");
            let base = vec![la];
            let t = vec![lb.clone()];
            ctx.evals(3);
            ctx.nontrivial((a, b, off));
            let mat = index_mat(&base);
            check_all(&search_mat(&mat, &t), &base, &t, "matrix")?;
            check_all(&search_mat_chunk(&[mat], &t), &base, &t, "chunk")?;
            let feats = index(&mut base.clone().into_iter());
            check_all(&[search(&feats, &lb)], &base, &t, "line")
        },
    ));
    v.push(Space::new(
        "collisions",
        "all pairs of distinct words of a vocabulary of 500 are at distance 1",
        500,
        |i| json!({"word": format!("token{i}")}),
        |i, ctx| {
            let base = vec![format!("token{i}")];
            let targets: Vec<String> = (0..500).map(|k| format!("token{k}")).collect();
            ctx.evals(500);
            ctx.nontrivial(i);
            check_all(&search_mat(&index_mat(&base), &targets), &base, &targets, "matrix")
        },
    ));
    // how often and where a word is repeated does not matter
    const TIMES: [usize; 20] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 64, 100, 255, 256, 1000, 5000];
    const EXTRA: [usize; 5] = [0, 1, 2, 5, 40];
    let line = |times: usize, extra: usize, place: usize| -> String {
        let mut w: Vec<String> = (0..extra).map(|k| format!("token{k}")).collect();
        match place {
            0 => (0..times).for_each(|_| w.push("again".into())),
            1 => (0..times).for_each(|_| w.insert(0, "again".into())),
            2 => (0..times).for_each(|k| w.insert((k * 7) % (w.len() + 1), "again".into())),
            // every word of the line
            _ => {
                w.push("again".into());
                w = (0..times).flat_map(|_| w.clone()).collect();
            }
        }
        w.join(" ")
    };
    let n = (TIMES.len() * EXTRA.len() * 4) as u64;
    let dec = move |i: u64| {
        let mut d = Dec(i);
        (TIMES[d.take(20)], EXTRA[d.take(5)], d.take(4))
    };
    v.push(Space::new(
        "repeated",
        "lines where one word, or every word, is there 1..5000 times, at the end, at the start or in between, with 0..40 other words; as baseline and as target of lines with fewer repetitions",
        n,
        move |i| {
            let (t, e, p) = dec(i);
            json!({"times": t, "other_words": e, "place": p})
        },
        move |i, ctx| {
            let (t, e, p) = dec(i);
            let l = line(t, e, p);
            let others: Vec<String> = EXTRA.iter().map(|&x| line(1, x, 0)).chain([line(3, e, 2), line(t, 2, 0), "token0 token1 tokenx".to_string(), l.clone()]).collect();
            ctx.nontrivial(i);
            for (base, targets) in [(vec![l.clone()], others.clone()), (others.clone(), vec![l.clone()]), (vec![others[7].clone()], vec![l.clone(), l.clone()])] {
                ctx.evals(3);
                let mat = index_mat(&base);
                check_all(&search_mat(&mat, &targets), &base, &targets, "matrix")?;
                check_all(&search_mat_chunk(&[mat], &targets), &base, &targets, "chunk")?;
                let feats = index(&mut base.clone().into_iter());
                let by_line: Vec<f32> = targets.iter().map(|t| search(&feats, t)).collect();
                check_all(&by_line, &base, &targets, "line")?;
            }
            Ok(())
        },
    ));
    // the shape of a word does not matter
    let shapes: Vec<String> = (33u8..127)
        .map(|c| (c as char).to_string())
        .chain((1..=64).map(|n| "a".repeat(n)))
        .chain([100, 255, 256, 257, 1000, 5999].map(|n| "b".repeat(n)))
        .chain((33u8..127).map(|c| format!("word{}", c as char)))
        .chain(["é", "日本", "日", "%ID", "%HASH", "%URL", "%A", "%", "%%", "Word", "WORD", "\u{1f600}", "\t", "a\tb"].map(String::from))
        .collect::<BTreeSet<_>>()
        .into_iter()
        .collect();
    let n = shapes.len() as u64;
    let s2 = shapes.clone();
    v.push(Space::new(
        "shapes",
        format!("every ordered pair of {n} words (every visible character alone and as last letter, every length up to 64, long ones, not ASCII): alone and with two words in common"),
        n,
        move |i| json!({"word": s2[i as usize].chars().take(80).collect::<String>()}),
        move |i, ctx| {
            let w = &shapes[i as usize];
            ctx.nontrivial(i);
            ctx.evals(4 * n);
            for (base, targets) in [(vec![w.clone()], shapes.clone()), (vec![format!("some {w} text")], shapes.iter().map(|x| format!("text {x} some")).collect::<Vec<_>>())] {
                let mat = index_mat(&base);
                check_all(&search_mat_chunk(&[mat], &targets), &base, &targets, "chunk")?;
                let feats = index(&mut base.clone().into_iter());
                let by_line: Vec<f32> = targets.iter().map(|t| search(&feats, t)).collect();
                check_all(&by_line, &base, &targets, "line")?;
            }
            Ok(())
        },
    ));
    v
}

fn same(a: &[f32], b: &[f32], key: &str, what: &str) -> Res {
    ensure_eq!(a.len(), b.len(), key, "{what}: number of distances");
    for (n, (x, y)) in a.iter().zip(b).enumerate() {
        ensure!((x - y).abs() < 1e-5, key, "{what}: distance {n} is {x}, was {y}");
    }
    Ok(())
}

fn cut_space(name: &str, what: &str, max: u32, pool: Vec<String>, targets: Vec<String>) -> Space {
    let k = pool.len() as u64;
    let p2 = pool.clone();
    let t1 = targets;
    Space::new(
        name,
        format!("every baseline of 1..={max} of {what} (any order, repetitions) x every cut into chunks, empty chunks inserted, saved and loaded; adding the last line never increases a distance"),
        seq_count(k, 1, max),
        move |i| json!({"baseline": seq_decode(i, k, 1, max).iter().map(|&x| p2[x].clone()).collect::<Vec<_>>()}),
        move |i, ctx| {
            let base: Vec<String> = seq_decode(i, k, 1, max).iter().map(|&x| pool[x].clone()).collect();
            let n = base.len();
            let whole = search_mat(&index_mat(&base), &t1);
            ctx.outcome(whole.iter().map(|f| (f * 1e4) as i64).collect::<Vec<_>>());
            ctx.nontrivial(i);
            let masks = 1u64 << (n - 1);
            for m in 0..masks {
                let mut chunks: Vec<FeaturesMatrix> = cuts(&base, m).iter().map(|c| index_mat(c)).collect();
                ctx.eval();
                same(&search_mat_chunk(&chunks, &t1), &whole, "chunks", &format!("cut {m:b}"))?;
                if m == 0 || m == masks - 1 || m == i % masks {
                    // empty chunks anywhere
                    let at = (i % (chunks.len() as u64 + 1)) as usize;
                    chunks.insert(at, index_mat(&[]));
                    chunks.push(index_mat(&[]));
                    ctx.eval();
                    same(&search_mat_chunk(&chunks, &t1), &whole, "empty", &format!("cut {m:b} with empty chunks"))?;
                    let loaded: Vec<FeaturesMatrix> = chunks.iter().map(|c| load_mat(&save_mat(c))).collect();
                    for (a, b) in loaded.iter().zip(&chunks) {
                        ensure!(a == b, "load", "a loaded chunk differs");
                        ensure!(save_mat(a) == save_mat(b), "load", "a saved chunk differs once loaded and saved again");
                    }
                    ctx.eval();
                    let r = search_mat_chunk(&loaded, &t1);
                    ensure!(r == search_mat_chunk(&chunks, &t1), "load", "a loaded index gives other distances");
                    chunks.reverse();
                    same(&search_mat_chunk(&chunks, &t1), &whole, "order", "chunks reversed")?;
                }
            }
            // reversed baseline; every line twice
            let mut rev = base.clone();
            rev.reverse();
            same(&search_mat(&index_mat(&rev), &t1), &whole, "order", "reversed baseline")?;
            let twice: Vec<String> = base.iter().chain(base.iter()).cloned().collect();
            same(&search_mat(&index_mat(&twice), &t1), &whole, "repeat", "every baseline line twice")?;
            // monotone
            let less = search_mat(&index_mat(&base[..n - 1]), &t1);
            for (a, b) in less.iter().zip(&whole) {
                ensure!(*b <= *a + 1e-5, "monotone", "adding {:?} increases a distance from {a} to {b}", base[n - 1]);
            }
            // line search
            let f = index(&mut base.clone().into_iter());
            let by_line: Vec<f32> = t1.iter().map(|t| search(&f, t)).collect();
            same(&by_line, &whole, "line", "line search")?;
            ctx.evals(4);
            Ok(())
        },
    )
}

fn c10(tier: Tier) -> Vec<Space> {
    let mut v = Vec::new();
    let pool: Vec<String> = ["a b c", "a b d", "x", "a b c", "error%A error fatal", "", "x y z a b", "c b a"].iter().map(|s| s.to_string()).collect();
    let targets: Vec<String> = ["a b c", "x y", "fatal error", "", "never seen", "a", "x", "d c b a"].iter().map(|s| s.to_string()).collect();
    let t2 = targets.clone();
    v.push(cut_space("cuts", "8 lines", tier.pick(3, 5), pool, targets));
    // lines that differ little
    let near = |change: &[usize]| -> String { (0..24).map(|k| if change.contains(&k) { format!("other{k}") } else { format!("token{k}") }).collect::<Vec<_>>().join(" ") };
    let pool: Vec<String> = vec![near(&[]), near(&[3]), near(&[20]), near(&[3, 20]), near(&[0, 1, 2, 3, 4]), near(&[5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15])];
    let targets: Vec<String> = vec![near(&[]), near(&[3]), near(&[3, 20]), near(&[22]), near(&[0, 1, 2, 3])];
    v.push(cut_space("near cuts", "6 lines of 24 words that differ in 0 to 11 words", tier.pick(4, 5), pool.clone(), targets));
    for (k, t) in pool[..4].iter().enumerate() {
        v.push(cut_space(&format!("near cuts of target {k}"), "6 lines of 24 words that differ in 0 to 11 words", tier.pick(3, 4), pool.clone(), vec![t.clone()]));
    }
    let slices = tier.pick(70u64, 600);
    v.push(Space::new(
        "slices",
        format!("{slices} baseline lines cut into equal chunks of every size"),
        slices,
        |i| json!({"chunk_size": i + 1}),
        move |i, ctx| {
            let base = many(slices as usize, 1);
            let targets: Vec<String> = many(30, 2).into_iter().chain(base[..10].iter().cloned()).collect();
            let chunks: Vec<FeaturesMatrix> = base.chunks(i as usize + 1).map(index_mat).collect();
            let whole = search_mat(&index_mat(&base), &targets);
            ctx.evals(2);
            ctx.nontrivial(i);
            same(&search_mat_chunk(&chunks, &targets), &whole, "chunks", &format!("chunks of {}", i + 1))
        },
    ));
    v.push(long(tier));
    // what is stored, whatever its size
    let sizes: Vec<usize> = tier.pick(vec![0, 1, 2, 15, 16, 17, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 2049, 4097, 9999, 10_001, 16_385, 40_000], (0..1400).chain([2047, 2048, 2049, 4095, 4097, 8193, 9999, 10_001, 16_385, 32_769, 65_537, 100_001]).collect());
    let s2 = sizes.clone();
    v.push(Space::new(
        "stored sizes",
        format!("chunks of {} sizes up to {}, and of one line of as many words, saved and loaded: the same matrix, the same bytes when saved again, the same distances", sizes.len(), sizes.last().unwrap()),
        2 * sizes.len() as u64,
        move |i| json!({"size": s2[(i / 2) as usize], "one_line": i % 2 == 1}),
        move |i, ctx| {
            let n = sizes[(i / 2) as usize];
            let base: Vec<String> = if i % 2 == 1 {
                vec![(0..n).map(|k| format!("w{}", k % 3000)).collect::<Vec<_>>().join(" ")]
            } else {
                many(n, 1).into_iter().enumerate().map(|(k, l)| l.split(' ').take(1 + k % 7).collect::<Vec<_>>().join(" ")).collect()
            };
            let mat = index_mat(&base);
            let saved = save_mat(&mat);
            let loaded = load_mat(&saved);
            ctx.evals(2);
            ctx.nontrivial(i);
            ensure!(loaded == mat, "load", "a loaded chunk of {n} differs");
            ensure!(save_mat(&loaded) == saved, "load", "a saved chunk of {n} differs once loaded and saved again");
            let targets: Vec<String> = many(30, 2).into_iter().chain(base.iter().rev().take(3).cloned()).collect();
            ensure!(search_mat(&loaded, &targets) == search_mat(&mat, &targets), "load", "a loaded chunk of {n} gives other distances");
            Ok(())
        },
    ));
    // many chunks, many targets
    let sizes: Vec<usize> = tier.pick(vec![15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 700], (1..700).chain([1000, 1023, 1024, 1025, 2000, 4097]).collect());
    let s2 = sizes.clone();
    v.push(Space::new(
        "many chunks",
        format!("indexes of {} numbers of chunks up to {}, of 1 or 3 lines: the targets are lines of every chunk", sizes.len(), sizes.last().unwrap()),
        2 * sizes.len() as u64,
        move |i| json!({"chunks": s2[(i / 2) as usize], "lines": 1 + 2 * (i % 2)}),
        move |i, ctx| {
            let (n, per) = (sizes[(i / 2) as usize], 1 + 2 * (i % 2) as usize);
            let base: Vec<String> = (0..n * per).map(|k| format!("chunk line{k} from{}", k % 7)).collect();
            let chunks: Vec<FeaturesMatrix> = base.chunks(per).map(index_mat).collect();
            ensure_eq!(chunks.len(), n, "chunks", "number of chunks");
            let targets: Vec<String> = base.iter().cloned().chain(["line3 of nothing".to_string(), "unseen words only".to_string()]).collect();
            let whole = search_mat(&index_mat(&base), &targets);
            ctx.evals(2);
            ctx.nontrivial(i);
            same(&search_mat_chunk(&chunks, &targets), &whole, "chunks", &format!("{n} chunks of {per}"))?;
            for (k, d) in whole[..base.len()].iter().enumerate() {
                ensure!(d.abs() < 1e-5, "chunks", "line {k} of the baseline is at {d}");
            }
            let loaded: Vec<FeaturesMatrix> = chunks.iter().map(|c| load_mat(&save_mat(c))).collect();
            same(&search_mat_chunk(&loaded, &targets), &whole, "load", &format!("{n} chunks of {per}, loaded"))
        },
    ));
    let sizes: Vec<usize> = tier.pick(vec![100, 127, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 1500, 2047, 2049, 4097, 5121, 10_001], (1..1500).chain([2047, 2048, 2049, 4095, 4097, 8193, 10_001, 20_001, 66_000]).collect());
    let s2 = sizes.clone();
    v.push(Space::new(
        "many targets",
        format!("batches of {} sizes up to {} against one, two and five chunks: the distances of each target alone", sizes.len(), sizes.last().unwrap()),
        3 * sizes.len() as u64,
        move |i| json!({"targets": s2[(i / 3) as usize], "chunks": ([1, 2, 5][(i % 3) as usize])}),
        move |i, ctx| {
            let (n, c) = (sizes[(i / 3) as usize], [1usize, 2, 5][(i % 3) as usize]);
            let base = many(40, 1);
            let chunks: Vec<FeaturesMatrix> = base.chunks(40 / c).map(index_mat).collect();
            // 100 different targets, again and again
            let pool: Vec<String> = many(60, 2).into_iter().chain(base.iter().cloned()).collect();
            let batch: Vec<String> = (0..n).map(|k| pool[k * 13 % 100].clone()).collect();
            let f = index(&mut base.clone().into_iter());
            let alone: Vec<f32> = pool.iter().map(|t| search(&f, t)).collect();
            let exp: Vec<f32> = (0..n).map(|k| alone[k * 13 % 100]).collect();
            ctx.evals(2);
            ctx.nontrivial(i);
            same(&search_mat_chunk(&chunks, &batch), &exp, "batch", &format!("batch of {n}, {c} chunks"))?;
            same(&search_mat(&index_mat(&base), &batch), &exp, "batch", &format!("batch of {n}"))
        },
    ));
    // batches: every sequence of targets
    let bmax = tier.pick(3, 4);
    let nt = t2.len() as u64;
    let tt = t2.clone();
    let bases: Vec<Vec<String>> = vec![
        vec![],
        vec!["a b c".into()],
        vec!["x".into(), "a b d".into(), "".into()],
        many(40, 1),
        ["fatal error", "x y z", "a a a"].iter().map(|s| s.to_string()).collect(),
    ];
    let nb = bases.len() as u64;
    v.push(Space::new(
        "batches",
        format!("every batch of 0..={bmax} of 8 targets (any order, repetitions) against 5 baselines, whole and chunked: same distances as alone"),
        seq_count(nt, 0, bmax) * nb,
        move |i| json!({"baseline": i % nb, "targets": seq_decode(i / nb, nt, 0, bmax).iter().map(|&x| tt[x].clone()).collect::<Vec<_>>()}),
        move |i, ctx| {
            let base = &bases[(i % nb) as usize];
            let batch: Vec<String> = seq_decode(i / nb, nt, 0, bmax).iter().map(|&x| t2[x].clone()).collect();
            let mat = index_mat(base);
            let whole = search_mat(&mat, &batch);
            let f = index(&mut base.clone().into_iter());
            let alone: Vec<f32> = batch.iter().map(|t| search(&f, t)).collect();
            ctx.evals(2 + batch.len() as u64);
            ctx.nontrivial(i);
            ctx.outcome(whole.iter().map(|f| (f * 1e4) as i64).collect::<Vec<_>>());
            same(&whole, &alone, "batch", "in a batch")?;
            for t in batch.iter().take(1) {
                same(&search_mat(&mat, &[t.clone()]), &alone[..1], "batch", "alone")?;
            }
            same(&search_mat_chunk(&[mat], &batch), &alone, "batch", "in a batch, chunked")
        },
    ));
    v
}

fn main() {
    run_main(|p, tier| {
        let (spaces, rule) = match p {
            "C09" => (c09(tier), "every case compares all three searches with the set formula; non-trivial: distinct baseline"),
            "C10" => (c10(tier), "every case compares all cuts/batches of one baseline with the uncut search; non-trivial: distinct baseline or batch"),
            _ => return None,
        };
        Some(Check {
            level: "exploration",
            rule: rule.into(),
            assumptions: vec!["The words used do not collide in the hash (checked by the collisions space on the current code).".into()],
            spaces,
        })
    });
}
