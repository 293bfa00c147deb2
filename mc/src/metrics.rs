//! C26: merging statistics. Every history of measurements up to a length, every distribution of it
//! over workers and every order of merging, against gathering everything in one place and against
//! exact arithmetic over the whole history.
use crate::core::*;
use crate::rules::Tally;
use carcara::benchmarking::*;
use std::time::Duration;

/// Binary trees over the workers `0..k`, with every order of the leaves.
#[derive(Clone, Debug)]
enum Tree {
    Leaf(usize),
    Node(Box<Tree>, Box<Tree>),
}

fn trees(leaves: &[usize]) -> Vec<Tree> {
    if leaves.len() == 1 {
        return vec![Tree::Leaf(leaves[0])];
    }
    let mut out = vec![];
    for m in 1..(1u32 << leaves.len()) - 1 {
        let l: Vec<usize> = leaves.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1).collect();
        let r: Vec<usize> = leaves.iter().enumerate().filter(|(i, _)| m >> i & 1 == 0).map(|x| *x.1).collect();
        for a in trees(&l) {
            for b in trees(&r) {
                out.push(Tree::Node(Box::new(a.clone()), Box::new(b)));
            }
        }
    }
    out
}

fn merge<M>(t: &Tree, parts: &mut [Option<M>], f: &dyn Fn(M, M) -> M) -> M {
    match t {
        Tree::Leaf(i) => parts[*i].take().unwrap(),
        Tree::Node(a, b) => {
            let x = merge(a, parts, f);
            let y = merge(b, parts, f);
            f(x, y)
        }
    }
}

fn distributions(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        out = out.iter().flat_map(|p: &Vec<usize>| (0..k).map(move |w| [&p[..], &[w]].concat())).collect();
    }
    out
}

fn sequences(n: usize, alphabet: usize) -> Vec<Vec<usize>> {
    distributions(n, alphabet)
}

/// What a metric reports, as numbers.
#[derive(Debug, Clone)]
struct Rep {
    count: usize,
    total: f64,
    mean: f64,
    max: Option<(usize, f64)>,
    min: Option<(usize, f64)>,
    sd: f64,
}

fn report<T: MetricsUnit, M: Metrics<usize, T>>(m: &M) -> Rep {
    if m.is_empty() {
        return Rep { count: 0, total: 0.0, mean: 0.0, max: None, min: None, sd: 0.0 };
    }
    Rep {
        count: m.count(),
        total: m.total().as_f64(),
        mean: m.mean().as_f64(),
        max: Some((m.max().0, m.max().1.as_f64())),
        min: Some((m.min().0, m.min().1.as_f64())),
        sd: m.standard_deviation().as_f64(),
    }
}

/// Compares a report with the exact statistics of the samples, given in the unit of `as_f64`.
fn wrong(r: &Rep, samples: &[f64], eps: f64, sd: bool) -> Option<String> {
    let n = samples.len();
    if r.count != n {
        return Some(format!("count {} instead of {n}", r.count));
    }
    if n == 0 {
        return None;
    }
    let close = |a: f64, b: f64, e: f64| (a - b).abs() <= e * (1.0 + b.abs());
    let total: f64 = samples.iter().sum();
    if !close(r.total, total, 1e-12) {
        return Some(format!("total {} instead of {total}", r.total));
    }
    let mean = total / n as f64;
    if !close(r.mean, mean, eps) {
        return Some(format!("mean {} instead of {mean}", r.mean));
    }
    let max = samples.iter().cloned().fold(f64::MIN, f64::max);
    let min = samples.iter().cloned().fold(f64::MAX, f64::min);
    let (k, v) = r.max.unwrap();
    if v != max || samples[k] != max {
        return Some(format!("maximum {v} (sample {k}) instead of {max}"));
    }
    let (k, v) = r.min.unwrap();
    if v != min || samples[k] != min {
        return Some(format!("minimum {v} (sample {k}) instead of {min}"));
    }
    if sd {
        let ss: f64 = samples.iter().map(|s| (s - mean) * (s - mean)).sum();
        let want = (ss / (n.max(2) - 1) as f64).sqrt();
        if !close(r.sd, want, 1e-6) {
            return Some(format!("standard deviation {} instead of {want}", r.sd));
        }
    }
    None
}

fn explore<T: MetricsUnit, M: Metrics<usize, T> + Default>(
    name: &str,
    values: &[T],
    eps: f64,
    rep: &Report,
    maxn: usize,
    maxk: usize,
) {
    let seqs: Vec<Vec<usize>> = (0..=maxn).flat_map(|n| sequences(n, values.len())).collect();
    let chunks: Vec<&[Vec<usize>]> = seqs.chunks(64).collect();
    // values are Copy numbers; share them as indices
    let vals: Vec<f64> = values.iter().map(|v| v.as_f64()).collect();
    let mk = std::sync::Mutex::new(values.to_vec());
    let _ = &mk;
    let tr: Vec<Vec<Tree>> = (1..=maxk).map(|k| trees(&(0..k).collect::<Vec<_>>())).collect();
    let values: Vec<T> = values.to_vec();
    let mut t = Tally::new();
    for ch in chunks {
        for seq in ch {
            let samples: Vec<f64> = seq.iter().map(|i| vals[*i]).collect();
            for k in 1..=maxk {
                for dist in distributions(seq.len(), k) {
                    for tree in &tr[k - 1] {
                        let mut parts: Vec<Option<M>> = (0..k).map(|_| Some(M::default())).collect();
                        for (i, (v, w)) in seq.iter().zip(&dist).enumerate() {
                            parts[*w].as_mut().unwrap().add_sample(&i, values[*v]);
                        }
                        let key = || format!("{name}: samples {samples:?} on workers {dist:?} of {k}, merged as {tree:?}");
                        t.inc("evaluations", 1);
                        match guard(|| report(&merge(tree, &mut parts, &|a: M, b: M| a.combine(b)))) {
                            Ok(r) => {
                                t.distinct.insert(hash_of(&(name, seq, &dist, format!("{tree:?}"))));
                                if let Some(e) = wrong(&r, &samples, eps, true) {
                                    rep.violation(&key(), &e);
                                }
                            }
                            Err(p) => rep.violation(&key(), &format!("panics: {p}")),
                        }
                    }
                }
            }
        }
    }
    t.flush(rep);
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Step(usize, usize, u64),
    Assume(bool, u64),
    Depth(usize),
    Run(u64),
    Holey,
    Error,
}
const EVENTS: [Ev; 10] = [
    Ev::Step(0, 0, 3),
    Ev::Step(0, 1, 8),
    Ev::Step(1, 0, 5),
    Ev::Assume(true, 2),
    Ev::Assume(false, 9),
    Ev::Depth(4),
    Ev::Depth(1),
    Ev::Run(6),
    Ev::Holey,
    Ev::Error,
];
const FILES: [&str; 2] = ["f.alethe", "g.alethe"];
const RULES: [&str; 2] = ["and", "refl"];

fn ns(k: u64) -> Duration {
    Duration::from_nanos(k * 1000)
}

fn feed<R: CollectResults>(r: &mut R, e: Ev, i: usize) {
    match e {
        Ev::Step(f, ru, k) => r.add_step_measurement(FILES[f], &format!("t{i}"), RULES[ru], ns(k)),
        Ev::Assume(easy, k) => r.add_assume_measurement(FILES[0], &format!("t{i}"), easy, ns(k)),
        Ev::Depth(d) => r.add_polyeq_depth(d),
        Ev::Run(k) => {
            let k = k + i as u64;
            r.add_run_measurement(
                &(format!("f{i}"), i),
                RunMeasurement {
                    parsing: ns(k),
                    checking: ns(2 * k),
                    elaboration: ns(3 * k),
                    scheduling: ns(4 * k),
                    total: ns(11 * k),
                    polyeq: ns(k),
                    assume: ns(k + 1),
                    assume_core: ns(k + 2),
                    elaboration_pipeline: vec![ns(k)],
                },
            )
        }
        Ev::Holey => r.register_holey(),
        Ev::Error => r.register_error(&carcara::Error::DoesNotReachEmptyClause),
    }
}

fn met<K: Clone, T: MetricsUnit>(m: &OnlineMetrics<K, T>) -> Vec<i64> {
    if m.is_empty() {
        return vec![0];
    }
    // nanosecond-scale integers; the mean of durations is truncated to nanoseconds
    let r = |x: f64| (x * 1e9).round() as i64;
    vec![m.count() as i64, r(m.total().as_f64()), r(m.mean().as_f64()), r(m.max().1.as_f64()), r(m.min().1.as_f64())]
}

fn online(o: &OnlineBenchmarkResults) -> Vec<(String, Vec<i64>)> {
    let mut v: Vec<(String, Vec<i64>)> = vec![
        ("parsing".into(), met(&o.parsing)),
        ("checking".into(), met(&o.checking)),
        ("elaborating".into(), met(&o.elaborating)),
        ("scheduling".into(), met(&o.scheduling)),
        ("accounted for".into(), met(&o.total_accounted_for)),
        ("total".into(), met(&o.total)),
        ("step time".into(), met(&o.step_time)),
        ("polyeq time".into(), met(&o.polyeq_time)),
        ("polyeq ratio".into(), met(&o.polyeq_time_ratio)),
        ("assume time".into(), met(&o.assume_time)),
        ("assume ratio".into(), met(&o.assume_time_ratio)),
        ("assume core".into(), met(&o.assume_core_time)),
        ("polyeq depths".into(), met(&o.polyeq_depths)),
        ("assumes".into(), vec![o.num_assumes as i64, o.num_easy_assumes as i64]),
        ("flags".into(), vec![o.is_holey as i64, o.had_error as i64]),
    ];
    let mut by: Vec<(String, Vec<i64>)> = o.step_time_by_file.iter().map(|(k, m)| (format!("file {k}"), met(m))).collect();
    by.extend(o.step_time_by_rule.iter().map(|(k, m)| (format!("rule {k}"), met(m))));
    by.sort();
    v.extend(by);
    v
}

fn csv(c: CsvBenchmarkResults) -> (bool, usize, Vec<String>, Vec<String>) {
    let (h, n) = (c.is_holey(), c.num_errors());
    let (mut a, mut b) = (Vec::new(), Vec::new());
    c.write_csv(&mut a, &mut b).unwrap();
    let lines = |v: Vec<u8>| {
        let mut l: Vec<String> = String::from_utf8(v).unwrap().lines().map(|s| s.to_string()).collect();
        l[1..].sort();
        l
    };
    let mut runs = lines(a);
    // without any run, the header has no pipeline columns
    if runs.len() == 1 {
        runs = vec![];
    }
    (h, n, runs, lines(b))
}

fn results(rep: &Report, n: usize, k: usize) {
    let seqs: Vec<Vec<usize>> = (1..=n).flat_map(|n| sequences(n, EVENTS.len())).collect();
    let tr = trees(&(0..k).collect::<Vec<_>>());
    par(&seqs, |seq| {
        let mut t = Tally::new();
        let ev: Vec<Ev> = seq.iter().map(|i| EVENTS[*i]).collect();
        let (mut one, mut onec) = (OnlineBenchmarkResults::new(), CsvBenchmarkResults::new());
        for (i, e) in ev.iter().enumerate() {
            feed(&mut one, *e, i);
            feed(&mut onec, *e, i);
        }
        // an independent account of the simplest figures
        let holey = ev.contains(&Ev::Holey);
        let errors = ev.iter().filter(|e| **e == Ev::Error).count();
        let steps = ev.iter().filter(|e| matches!(e, Ev::Step(..) | Ev::Assume(..))).count();
        let want = online(&one);
        let wantc = csv(onec);
        if one.is_holey != holey || one.had_error != (errors > 0) || one.step_time.count() != steps || wantc.0 != holey || wantc.1 != errors || wantc.3.len() != steps + 1 {
            rep.violation(&format!("{ev:?} in one place"), "wrong flags or counts");
        }
        for dist in distributions(ev.len(), k) {
            for tree in &tr {
                t.inc("evaluations", 2);
                let key = |w: &str| format!("{w}: {ev:?} on workers {dist:?}, merged as {tree:?}");
                let mut parts: Vec<Option<OnlineBenchmarkResults>> = (0..k).map(|_| Some(Default::default())).collect();
                let mut partsc: Vec<Option<CsvBenchmarkResults>> = (0..k).map(|_| Some(Default::default())).collect();
                for (i, (e, w)) in ev.iter().zip(&dist).enumerate() {
                    feed(parts[*w].as_mut().unwrap(), *e, i);
                    feed(partsc[*w].as_mut().unwrap(), *e, i);
                }
                t.distinct.insert(hash_of(&(seq, &dist, format!("{tree:?}"))));
                match guard(|| online(&merge(tree, &mut parts, &CollectResults::combine))) {
                    Ok(got) => {
                        if got != want {
                            let d = got.iter().zip(&want).find(|(a, b)| a != b);
                            rep.violation(&key("online"), &format!("merged: {:?}", d.map(|x| format!("{:?} instead of {:?}", x.0, x.1))));
                        }
                    }
                    Err(p) => rep.violation(&key("online"), &format!("panics: {p}")),
                }
                match guard(|| csv(merge(tree, &mut partsc, &CollectResults::combine))) {
                    Ok(got) => {
                        if got != wantc {
                            rep.violation(&key("csv"), &format!("merged: {got:?} instead of {wantc:?}"));
                        }
                    }
                    Err(p) => rep.violation(&key("csv"), &format!("panics: {p}")),
                }
            }
        }
        t.flush(rep);
    });
}

pub fn run(rep: &Report, thorough: bool) {
    let n = if thorough { 6 } else { 5 };
    let us = [0usize, 1, 2, 7];
    let du = [Duration::ZERO, Duration::from_nanos(1), Duration::from_millis(3), Duration::from_secs(2)];
    let fl = [0.0f64, 0.25, -1.5, 3.0];
    let jobs: Vec<usize> = (0..8).collect();
    par(&jobs, |j| match j {
        0 => explore::<usize, OnlineMetrics<usize, usize>>("online usize", &us, 1e-9, rep, n, 3),
        1 => explore::<Duration, OnlineMetrics<usize, Duration>>("online duration", &du, 2e-9, rep, n, 3),
        2 => explore::<f64, OnlineMetrics<usize, f64>>("online f64", &fl, 1e-9, rep, n, 3),
        3 => explore::<usize, OfflineMetrics<usize, usize>>("offline usize", &us, 1e-9, rep, n, 3),
        4 => explore::<Duration, OfflineMetrics<usize, Duration>>("offline duration", &du, 2e-9, rep, n, 3),
        5 => explore::<f64, OfflineMetrics<usize, f64>>("offline f64", &fl, 1e-9, rep, n, 3),
        6 => explore::<usize, OnlineMetrics<usize, usize>>("online usize, 4 workers", &us[1..3], 1e-9, rep, n, 4),
        _ => explore::<usize, OnlineMetrics<usize, usize>>("online usize, long", &us[1..3], 1e-9, rep, n + 4, 2),
    });
    results(rep, if thorough { 4 } else { 3 }, 3);
    rep.sample("5 samples over {0, 1, 2, 7}, on every assignment to 3 workers, merged in every order and shape");
}
