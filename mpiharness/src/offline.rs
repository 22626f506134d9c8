//! Judges the logs of all ranks together: every call seen on every rank in the
//! same order, every cell accounted for exactly once, with the right payload.
use crate::ctx::Ctx;
use crate::elem::Elem;
use crate::log::*;
use funspace::space_mpi::decomp2d::Distribution;
use num_complex::Complex;
use std::collections::BTreeMap;

fn payload(elem: &str, k: u32) -> (f64, f64) {
    match elem {
        "f64" => f64::expect(k),
        "f32" => f32::expect(k),
        "i32" => i32::expect(k),
        "i64" => i64::expect(k),
        "u64" => u64::expect(k),
        "c64" => Complex::<f64>::expect(k),
        "c32" => Complex::<f32>::expect(k),
        other => panic!("FSMON: element type {other}"),
    }
}

struct Judge {
    c: Ctx,
    np: usize,
    case: u64,
    cells: u64,
}

impl Judge {
    fn check(&self, ok: bool, msg: impl FnOnce() -> String) {
        if !ok {
            self.c.fail(&format!("np={} case={}: {}", self.np, self.case, msg()));
        }
    }

    /// The pieces of all ranks: a partition of the array with the right
    /// contents?  `want` gives the expected value of a cell and the slack.
    fn tile(&mut self, recs: &[&Rec], want: impl Fn(usize) -> ((f64, f64), f64)) {
        let (op, g) = (&recs[0].op, recs[0].g);
        let mut owner = vec![usize::MAX; g[0] * g[1]];
        for (rank, r) in recs.iter().enumerate() {
            self.check(r.g == g, || format!("{op}: ranks disagree on the global shape: {:?}, {g:?}", r.g));
            self.check(r.v.len() == r.sz[0] * r.sz[1], || format!("{op}: rank {rank} holds {} values, owns {:?}", r.v.len(), r.sz));
            for (k, v) in r.v.iter().enumerate() {
                let (i, j) = (r.st[0] + k / r.sz[1], r.st[1] + k % r.sz[1]);
                self.check(i < g[0] && j < g[1], || format!("{op}: rank {rank} owns ({i}, {j}) outside of {g:?}"));
                let cell = i * g[1] + j;
                self.check(owner[cell] == usize::MAX, || format!("{op}: ({i}, {j}) belongs to ranks {} and {rank}", owner[cell]));
                owner[cell] = rank;
                let (w, tol) = want(cell);
                self.check(*v == w || (v.0 - w.0).abs() <= tol && (v.1 - w.1).abs() <= tol, || {
                    format!("{op} {g:?}: rank {rank} has {v:?} at ({i}, {j}), expected {w:?}")
                });
            }
        }
        if let Some(k) = owner.iter().position(|o| *o == usize::MAX) {
            self.check(false, || format!("{op}: ({}, {}) of {g:?} belongs to no rank", k / g[1], k % g[1]));
        }
        self.cells += owner.len() as u64;
    }

    fn sig(&self, r: &Rec) -> String {
        format!("np={} {} {} {}x{}", self.np, r.op, r.elem, r.g[0], r.g[1])
    }

    fn call(&mut self, recs: &[&Rec], reference: &mut Option<Rec>) {
        let (kind, op) = (recs[0].kind.as_str(), &recs[0].op);
        match kind {
            BLOCK => {
                let (salt, elem) = (recs[0].salt as u32, recs[0].elem.clone());
                self.check(recs.iter().all(|r| r.salt == recs[0].salt), || "FSMON: salts".into());
                self.tile(recs, |cell| (payload(&elem, salt + cell as u32), 0.));
                self.c.count(&format!("{op}: calls"), 1);
            }
            FULL | ROOT => {
                let whole = if kind == FULL { recs } else { &recs[..1] };
                for (rank, r) in whole.iter().enumerate() {
                    self.check(r.v.len() == r.g[0] * r.g[1], || format!("{op}: rank {rank} got {} values", r.v.len()));
                    for (cell, v) in r.v.iter().enumerate() {
                        let w = payload(&r.elem, r.salt as u32 + cell as u32);
                        self.check(*v == w, || {
                            format!("{op} {:?}: rank {rank} got {v:?} at ({}, {}), expected {w:?}", r.g, cell / r.g[1], cell % r.g[1])
                        });
                    }
                    self.cells += r.v.len() as u64;
                }
                self.c.count(&format!("{op}: calls"), 1);
            }
            "piece" => {
                let want = reference.take().expect("FSMON: no reference");
                self.check(want.op == *op, || format!("FSMON: reference of {} for {op}", want.op));
                self.check(want.g == recs[0].g, || format!("{op}: global shape {:?}, serial {:?}", recs[0].g, want.g));
                self.tile(recs, |cell| (want.v[cell], want.salt));
                let what = op.split(' ').skip(3).take_while(|w| !w.starts_with('[')).collect::<Vec<_>>().join(" ");
                self.c.count(&format!("{what}: calls"), 1);
            }
            REFUSED => {
                for (rank, r) in recs.iter().enumerate() {
                    self.check(r.v[0].0 == 1., || format!("rank {rank} accepted: {op}"));
                }
                self.c.count("refused calls", recs.len() as u64);
            }
            VALUE => self.values(recs),
            "own" => self.own(recs),
            "gather" => {
                for r in recs {
                    let mut at = 0.;
                    for (q, (c, d)) in r.v.iter().enumerate() {
                        let s = recs[q].sz;
                        self.check(*c == (s[0] * s[1]) as f64, || format!("{op}: {c} values from rank {q}, which owns {s:?}"));
                        self.check(*d == at, || format!("{op}: offset of rank {q} is {d}, expected {at}"));
                        at += c;
                    }
                    self.check(at == (r.g[0] * r.g[1]) as f64, || format!("{op}: {at} values in total of {:?}", r.g));
                }
            }
            "counts" => {
                // a sends b as much as the blocks of a and b have in common
                for (a, r) in recs.iter().enumerate() {
                    let mut at = 0.;
                    self.check(r.v.len() == self.np, || format!("{op}: {} counts", r.v.len()));
                    for (b, (c, d)) in r.v.iter().enumerate() {
                        self.check(*d == at, || format!("{op}: rank {a}: offset {d} for rank {b}, expected {at}"));
                        at += c;
                    }
                    self.check(at == (r.sz[0] * r.sz[1]) as f64, || format!("{op}: rank {a} moves {at} of {:?} cells", r.sz));
                }
            }
            // compared on the spot
            "far" => {
                self.c.count("calls on arrays too large for the log", 1);
                self.cells += recs.iter().map(|r| (r.sz[0] * r.sz[1]) as u64).sum::<u64>();
            }
            "local" => self.c.count("ranks compared their serial calls", recs.len() as u64),
            other => panic!("FSMON: record kind {other}"),
        }
        if kind != "local" {
            let s = self.sig(recs[0]);
            self.c.seen(&s);
        }
    }

    fn values(&mut self, recs: &[&Rec]) {
        let op = recs[0].op.as_str();
        let tol = recs[0].salt;
        let given: Vec<(f64, f64)> = recs.iter().map(|r| r.v[0]).collect();
        let sum = given.iter().fold((0., 0.), |a, b| (a.0 + b.0, a.1 + b.1));
        let slack = tol * given.iter().map(|x| x.0.abs() + x.1.abs()).sum::<f64>();
        for (rank, r) in recs.iter().enumerate() {
            let got = r.v[1];
            let (want, slack) = match op {
                "broadcast" => (given[0], 0.),
                "gather_sum" if rank != 0 => continue,
                _ => (sum, slack),
            };
            self.check(got == want || (got.0 - want.0).abs() <= slack && (got.1 - want.1).abs() <= slack, || {
                format!("{op}: rank {rank} got {got:?}, expected {want:?} from {given:?}")
            });
        }
        self.c.count(&format!("{op}: calls"), 1);
        let s = format!("np={} {op} {} {:?}", self.np, recs[0].elem, given);
        self.c.seen(&s);
    }

    /// What the ranks say each of them owns.
    fn own(&mut self, recs: &[&Rec]) {
        let op = recs[0].op.clone();
        for r in recs {
            self.check(r.v == recs[0].v, || format!("{op}: ranks have different tables"));
        }
        for (q, r) in recs.iter().enumerate() {
            let f = |x: [usize; 2]| (x[0] as f64, x[1] as f64);
            self.check(r.v[3 * q] == f(r.st) && r.v[3 * q + 1] == f(r.sz), || format!("{op}: the table entry of rank {q} is not its own block"));
        }
        let axis = usize::from(op.ends_with('1'));
        let blocks: Vec<([usize; 2], [usize; 2])> = recs.iter().map(|r| (r.st, r.sz)).collect();
        if let Err(m) = partition(&blocks, recs[0].g, axis) {
            self.check(false, || format!("{op}: {m}"));
        }
        self.cells += (recs[0].g[0] * recs[0].g[1]) as u64;
        self.c.count("partitions", 1);
    }
}

/// Blocks (start, size), whole along `axis`, cover `g` exactly once, in rank
/// order, with sizes that differ by at most one.
fn partition(blocks: &[([usize; 2], [usize; 2])], g: [usize; 2], axis: usize) -> Result<(), String> {
    let split = 1 - axis;
    let mut at = 0;
    for (q, (st, sz)) in blocks.iter().enumerate() {
        if st[axis] != 0 || sz[axis] != g[axis] {
            return Err(format!("rank {q} owns {}..+{} of {} along the contiguous axis", st[axis], sz[axis], g[axis]));
        }
        if st[split] != at {
            return Err(format!("rank {q} starts at {}, the one before ended at {at}", st[split]));
        }
        at += sz[split];
    }
    if at != g[split] {
        return Err(format!("the blocks cover {at} of {}", g[split]));
    }
    let n = |f: fn(usize, usize) -> usize, i: usize| blocks.iter().map(|b| b.1[split]).fold(i, f);
    let (lo, hi) = (n(usize::min, usize::MAX), n(usize::max, 0));
    if hi - lo > 1 || lo == 0 {
        return Err(format!("unbalanced: between {lo} and {hi} of {}", g[split]));
    }
    Ok(())
}

/// The arithmetic of the decomposition, for process counts no sandbox has.
fn sweep(j: &mut Judge) {
    let thorough = j.c.thorough();
    let (pmax, nmax) = if thorough { (96, 700) } else { (40, 200) };
    for p in 1..=pmax {
        if j.c.begin(&format!("sweep p={p}")).is_none() {
            continue;
        }
        j.np = p;
        // long axes as far as the counts of a message can tell, and further
        let long: Vec<usize> = (0..24).map(|k| (1usize << (11 + k % 14)) + (k * k * 37 + p * 11) % 1999).collect();
        let far = (0..12).map(|k| (1usize << (24 + k)) + (k * 7919 + p * 101) % 65_537);
        for n in far.chain([16_777_217, 16_777_219]) {
            for (axis, g) in [(0, [3, n]), (1, [n, 3])] {
                let d: Distribution<2> = Distribution::new(g, p, n % p, axis);
                let blocks: Vec<_> = (0..p).map(|q| (d.st_procs[q], d.sz_procs[q])).collect();
                if let Err(m) = partition(&blocks, g, axis) {
                    j.check(false, || format!("{g:?} over {p}, axis {axis}: {m}"));
                }
                j.c.count("partitions", 1);
                j.c.seen(&format!("p={p} {g:?} axis={axis}"));
            }
        }
        for n in (p..=nmax.min(p * 6 + 40)).chain([1000 + p, 4096, 10007]).chain(long) {
            let m = p + (n * 7 + p * 3) % (3 * p);
            if m * n >= 1 << 31 {
                continue;
            }
            for (axis, g) in [(0, [m, n]), (1, [n, m])] {
                let all: Vec<Distribution<2>> = if n <= 64 || n % 16 == 0 {
                    (0..p).map(|r| Distribution::new(g, p, r, axis)).collect()
                } else {
                    vec![Distribution::new(g, p, n % p, axis)]
                };
                let d = &all[0];
                let blocks: Vec<_> = (0..p).map(|q| (d.st_procs[q], d.sz_procs[q])).collect();
                if let Err(m) = partition(&blocks, g, axis) {
                    j.check(false, || format!("{g:?} over {p}, axis {axis}: {m}"));
                }
                for d in &all {
                    let r = d.nrank;
                    let ok = d.nprocs == p
                        && d.axis_contig == axis
                        && d.st == d.st_procs[r]
                        && d.sz == d.sz_procs[r]
                        && d.en == d.en_procs[r]
                        && (0..p).all(|q| (d.st_procs[q], d.sz_procs[q]) == blocks[q])
                        && (0..p).all(|q| (0..2).all(|k| d.en_procs[q][k] + 1 == d.st_procs[q][k] + d.sz_procs[q][k]))
                        && d.length() == d.sz[0] * d.sz[1];
                    j.check(ok, || format!("{g:?} over {p}: inconsistent view of rank {r}: {d:?}"));
                }
                // what is sent is what the other side expects to receive
                if all.len() == p && p <= 24 {
                    let other: Vec<Distribution<2>> = (0..p).map(|r| Distribution::new(g, p, r, 1 - axis)).collect();
                    let out: Vec<_> = (0..p).map(|r| all[r].get_counts_all_to_all(&other[r])).collect();
                    let inn: Vec<_> = (0..p).map(|r| other[r].get_counts_all_to_all(&all[r])).collect();
                    for a in 0..p {
                        for b in 0..p {
                            let common = all[a].sz[1 - axis] * other[b].sz[axis];
                            j.check(out[a].0[b] as usize == common && inn[b].0[a] as usize == common, || {
                                format!("{g:?} over {p}: {a} sends {}, {b} expects {}, they share {common} cells", out[a].0[b], inn[b].0[a])
                            });
                            let before: i32 = out[a].0[..b].iter().sum();
                            j.check(out[a].1[b] == before, || format!("{g:?} over {p}: displacement"));
                        }
                    }
                    j.c.count("exchange plans", 1);
                }
                let (c, o) = d.get_counts_all_gather();
                let mut at = 0;
                for q in 0..p {
                    j.check(c[q] as usize == blocks[q].1[0] * blocks[q].1[1] && o[q] == at, || format!("{g:?} over {p}: gather counts of {q}"));
                    at += c[q];
                }
                j.c.count("partitions", 1);
                j.c.seen(&format!("p={p} {g:?} axis={axis}"));
            }
        }
    }
}

pub fn main(prop: &str, dir: &str, np: usize) {
    std::panic::set_hook(Box::new(|i| eprintln!("FSMON: {i}")));
    let mut j = Judge { c: Ctx::from_env(prop), np, case: 0, cells: 0 };
    if np == 0 {
        sweep(&mut j);
        j.c.finish();
        return;
    }
    let mut logs: Vec<BTreeMap<u64, Vec<Rec>>> = vec![];
    for r in 0..np {
        let mut m: BTreeMap<u64, Vec<Rec>> = BTreeMap::new();
        for rec in read(&format!("{dir}/log.{r}")) {
            m.entry(rec.case).or_default().push(rec);
        }
        logs.push(m);
    }
    let cases: Vec<u64> = logs[0].keys().copied().collect();
    for case in cases {
        // counts the case; the number printed on failure is that of the run
        if j.c.begin(&format!("np={np} logs of case {case}")).is_none() {
            continue;
        }
        j.case = case;
        let mut reference = None;
        let mut at = vec![0usize; np];
        loop {
            // references are on rank 0 only
            if let Some(r) = logs[0][&case].get(at[0]).filter(|r| r.kind == REF) {
                reference = Some(r.clone());
                at[0] += 1;
                continue;
            }
            let recs: Vec<Option<&Rec>> = (0..np).map(|r| logs[r].get(&case).and_then(|l| l.get(at[r]))).collect();
            j.check(recs.iter().all(Option::is_some), || "FSMON: a log ends early".into());
            let recs: Vec<&Rec> = recs.into_iter().flatten().collect();
            let (kind, op) = (&recs[0].kind, &recs[0].op);
            assert!(recs.iter().all(|r| r.kind == *kind && (r.op == *op || kind == "local")), "FSMON: logs out of step");
            if kind == "end" {
                break;
            }
            j.call(&recs, &mut reference);
            j.c.count("rank events", np as u64);
            at.iter_mut().for_each(|k| *k += 1);
        }
    }
    let cells = j.cells;
    j.c.count("cells accounted for", cells);
    j.c.finish();
}
