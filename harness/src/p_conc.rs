//! C11 (concurrent use of a shared base) and C15 (results depend on nothing
//! but the arguments).
use fsmon::ctx::{hash_str, Ctx};
use fsmon::gen::{vec_of, Rng};
use fsmon::nd::{visit_kind, Make, Op1, OpVisitor};
use fsmon::num::{Real, Scal};
use fsmon::oracle::Kind;
use fsmon::spaces::{pick, visit_space, Case, SpaceVisitor, MODES};
use ndarray::ArrayD;
use num_complex::Complex;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};

use crate::p_nd::fill;
use crate::quiet;

type Bits = Vec<(u64, u64)>;

/// A call on an object under test: input id -> exact result
#[derive(Clone)]
pub struct Task {
    label: String,
    call: Arc<dyn Fn(u64) -> Bits + Send + Sync>,
    /// a call that the library refuses
    abuse: Arc<dyn Fn(u64) + Send + Sync>,
}

fn bits<'a, T: Scal + 'a>(v: impl IntoIterator<Item = &'a T>) -> Bits {
    v.into_iter()
        .map(|x| {
            let (p, b) = (x.parts(), x.bits());
            // payloads of NaNs are nobody's business
            (if p.0.is_nan() { 1 } else { b.0 }, if p.1.is_nan() { 1 } else { b.1 })
        })
        .collect()
}

/// An input id names a drawing (`id >> 4`) and a small change to it (`id & 15`):
/// whoever remembers an input by its length, ends, sum or most of its entries
/// takes one of them for another.
fn twist<'a, T: Scal + 'a>(id: u64, v: impl Iterator<Item = &'a mut T>) {
    let mut v: Vec<&mut T> = v.collect();
    let k = id & 15;
    if k == 0 || v.is_empty() {
        return;
    }
    let mut r = Rng::new(id ^ 0x7157);
    let (i, j) = (r.below(v.len()), r.below(v.len()));
    let (p, q) = (v[i].parts(), v[j].parts());
    match k % 5 {
        0 => *v[i] = T::make(0., 0.),
        1 => *v[i] = T::make(p.0 + 0.5 + p.0.abs() * 0.25, p.1),
        2 => {
            *v[i] = T::make(q.0, q.1);
            *v[j] = T::make(p.0, p.1);
        }
        3 => *v[i] = T::make(p.0 * (1. + 1e-5), p.1 + 1e-5),
        _ => v.iter_mut().for_each(|x| {
            let p = x.parts();
            **x = T::make(-p.0, p.1);
        }),
    }
}

/// a few drawings, each with small changes
fn ids(seed: u64, drawings: u64, twists: u64) -> Vec<u64> {
    let mut r = Rng::new(seed ^ 0x1D5);
    let mut v = vec![];
    for i in 0..drawings {
        let d = (seed.wrapping_mul(31).wrapping_add(i) << 4) & !15;
        for t in 0..twists {
            v.push(if t == 0 { d } else { d | r.range(1, 15) as u64 });
        }
    }
    v
}

struct Collect {
    tasks: Vec<Task>,
    par: bool,
}

impl OpVisitor for Collect {
    fn visit<TI: Scal, TO: Scal>(&mut self, op: &Op1<TI, TO>) {
        for style in 0..3 {
            let o = op.clone();
            let par = self.par && style == 2;
            let call = move |id: u64| -> Bits {
                let draw = id >> 4;
                let mut rng = Rng::new(draw);
                match style {
                    0 => {
                        let mut x: Vec<TI> = vec_of(&mut rng, o.nin, (draw % 9) as usize, 6);
                        twist(id, x.iter_mut());
                        // whatever was in the output before must not matter
                        let mut y: Vec<TO> = vec![TO::make(std::time::Instant::now().elapsed().as_nanos() as f64, 3.); o.nout];
                        o.slice(&x, &mut y);
                        bits(&y)
                    }
                    _ => {
                        let d = rng.range(1, 3);
                        let axis = rng.below(d);
                        let mut s: Vec<usize> = (0..d).map(|_| rng.range(1, 5)).collect();
                        s[axis] = o.nin;
                        let mut a: ArrayD<TI> = fill(&mut rng, &s, (draw % 9) as usize);
                        twist(id, a.iter_mut());
                        bits(&o.alloc(a.view(), axis, par))
                    }
                }
            };
            let o = op.clone();
            let abuse = move |id: u64| {
                let mut rng = Rng::new(id);
                let x: Vec<TI> = vec_of(&mut rng, o.nin + 1 + (id % 3) as usize, 0, 0);
                let mut y: Vec<TO> = vec![TO::nan(); o.nout + (id % 2) as usize];
                let _ = quiet(|| o.slice(&x, &mut y));
            };
            self.tasks.push(Task { label: format!("{} style={style}", op.label()), call: Arc::new(call), abuse: Arc::new(abuse) });
        }
    }
}

struct CollectSpace<'a> {
    tasks: &'a mut Vec<Task>,
    par: bool,
    dup: bool,
}
impl<A: Real> SpaceVisitor<A> for CollectSpace<'_>
where
    Complex<A>: Scal,
{
    fn visit<P: Scal, S: Scal>(&mut self, c: &Case<A, P, S>) {
        let obj: Arc<dyn fsmon::spaces::SpaceObj<A, P, S>> = Arc::from(c.obj.dup());
        for op in 0..5 {
            let o = Arc::clone(&obj);
            let (par, dup, nd) = (self.par, self.dup, c.ns.len());
            let call = move |id: u64| -> Bits {
                let draw = id >> 4;
                let mut rng = Rng::new(draw);
                let m = MODES[(draw % if par { 4 } else { 2 }) as usize];
                let fresh;
                let o = if dup {
                    fresh = o.dup();
                    &*fresh
                } else {
                    &*o
                };
                fn input<T: Scal>(rng: &mut Rng, shape: &[usize], id: u64) -> ArrayD<T> {
                    let mut a: ArrayD<T> = fill(rng, shape, ((id >> 4) % 9) as usize);
                    twist(id, a.iter_mut());
                    a
                }
                match op {
                    0 => bits(&o.forward(input(&mut rng, &o.phys(), id).view(), m, None)),
                    1 => bits(&o.backward(input(&mut rng, &o.spec(), id).view(), m, None)),
                    2 => bits(&o.to_ortho(input(&mut rng, &o.spec(), id).view(), m, None)),
                    3 => bits(&o.from_ortho(input(&mut rng, &o.orth(), id).view(), m, None)),
                    _ => {
                        let d: Vec<usize> = (0..nd).map(|_| rng.range(0, 2)).collect();
                        let sc: Vec<A> = (0..nd).map(|_| A::r(0.5 + rng.unit())).collect();
                        let s = if draw % 2 == 0 { None } else { Some(&sc[..]) };
                        bits(&o.gradient(input(&mut rng, &o.spec(), id).view(), &d, s, par && draw % 4 > 1))
                    }
                }
            };
            let o = Arc::clone(&obj);
            let abuse = move |id: u64| {
                let mut rng = Rng::new(id);
                let mut s = o.spec();
                s[0] += 1;
                let a: ArrayD<S> = fill(&mut rng, &s, 0);
                let _ = quiet(|| o.backward(a.view(), MODES[0], None));
            };
            self.tasks.push(Task { label: format!("{} op={op}", c.name), call: Arc::new(call), abuse: Arc::new(abuse) });
        }
    }
}

fn base_tasks<A: Real>(kind: Kind, n: usize, conc: bool, par: bool) -> Vec<Task>
where
    Complex<A>: Scal,
{
    let mut v = Collect { tasks: vec![], par };
    visit_kind::<A, _>(kind, n, conc, &[1, 2], &mut v);
    v.tasks
}

// ------------------------------------------------------------------ C11

fn storm(ctx: &mut Ctx, what: &str, shared: &[Task], alone: &[Task], threads: usize, rounds: usize, seed: u64) {
    // expected results: same calls, an object of their own, no concurrency
    let ids = ids(seed, 2, 3);
    let mut expect: HashMap<(usize, u64), Bits> = HashMap::new();
    for (t, task) in alone.iter().enumerate() {
        for &id in &ids {
            expect.insert((t, id), (task.call)(id));
        }
    }
    let inflight = AtomicUsize::new(0);
    let overlap = AtomicU64::new(0);
    let clock = AtomicU64::new(0);
    let log: Mutex<Vec<(u64, usize, usize)>> = Mutex::new(vec![]);
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let start = Barrier::new(threads);
    std::thread::scope(|s| {
        for th in 0..threads {
            let (expect, inflight, overlap, log, bad, start, clock, ids) = (&expect, &inflight, &overlap, &log, &bad, &start, &clock, &ids);
            s.spawn(move || {
                let mut rng = Rng::new(seed ^ (th as u64).wrapping_mul(0x51_7CC1));
                let mut mine = vec![];
                start.wait();
                for _ in 0..rounds {
                    let t = rng.below(shared.len());
                    let id = *rng.pick(ids);
                    let seq = clock.fetch_add(1, SeqCst);
                    if inflight.fetch_add(1, SeqCst) > 0 {
                        overlap.fetch_add(1, SeqCst);
                    }
                    if rng.below(5) == 0 {
                        std::thread::yield_now();
                    }
                    let got = (shared[t].call)(id);
                    inflight.fetch_sub(1, SeqCst);
                    mine.push((seq, th, t));
                    if got != expect[&(t, id)] {
                        let k = got.iter().zip(&expect[&(t, id)]).position(|(a, b)| a != b);
                        *bad.lock().unwrap() = Some(format!("{} in thread {th}: differs from the undisturbed result at element {k:?}", shared[t].label));
                        return;
                    }
                }
                log.lock().unwrap().extend(mine);
            });
        }
    });
    if let Some(b) = bad.into_inner().unwrap() {
        ctx.fail(&format!("{what}: {b}"));
    }
    let mut log = log.into_inner().unwrap();
    ctx.check(log.len() == threads * rounds, || format!("{what}: {} calls recorded, {} made", log.len(), threads * rounds));
    log.sort_unstable();
    let order: Vec<String> = log.iter().map(|e| format!("{}:{}", e.1, e.2)).collect();
    let switches = log.windows(2).filter(|w| w[0].1 != w[1].1).count();
    ctx.count("concurrent_calls", log.len() as u64);
    ctx.count("overlapping_calls", overlap.load(SeqCst));
    ctx.count("thread_switches_in_call_order", switches as u64);
    ctx.seen(&format!("{what} threads={threads} interleaving={:x}", hash_str(&order.join(","))));
}

fn c11_type<A: Real>(ctx: &mut Ctx)
where
    Complex<A>: Scal,
{
    let tsan = ctx.stage == "tsan";
    let th = ctx.thorough();
    let mut r = Rng::new(ctx.seed);
    let reps = match (tsan, th) {
        (true, false) => 2,
        (true, true) => 40,
        (false, false) => 12,
        (false, true) => 150,
    };
    for rep in 0..reps {
        for kind in Kind::ALL {
            let n = r.range(kind.min_n(), if rep % 3 == 2 { 130 } else { 24 });
            if let Some(seed) = ctx.begin(&format!("C11 {kind:?} {} n={n} rep={rep}", <A as Scal>::NAME)) {
                let conc = rep % 2 == 1;
                let alone = base_tasks::<A>(kind, n, conc, false);
                // base constructions race with each other, too
                let shared = if rep % 3 == 1 {
                    std::thread::scope(|s| {
                        let h: Vec<_> = (0..4).map(|_| s.spawn(move || base_tasks::<A>(kind, n, conc, true))).collect();
                        h.into_iter().map(|h| h.join().unwrap()).next_back().unwrap()
                    })
                } else {
                    base_tasks::<A>(kind, n, conc, true)
                };
                let threads = if tsan { [2, 4, 8][(seed % 3) as usize] } else { [2, 4, 8, 20][(seed % 4) as usize] };
                storm(ctx, &format!("{kind:?} n={n} {}", <A as Scal>::NAME), &shared, &alone, threads, if tsan { 30 } else { 60 }, seed);
            }
            if ctx.out_of_time() {
                return;
            }
        }
        let ty = r.below(A::SPACES);
        let (kinds, ns) = pick(&mut r, ty, 12);
        if let Some(seed) = ctx.begin(&format!("C11 space {kinds:?} {ns:?} {} rep={rep}", <A as Scal>::NAME)) {
            let (mut a, mut b) = (vec![], vec![]);
            // the parallel flag must agree: it selects the call made
            visit_space::<A, _>(&kinds, &ns, &mut CollectSpace { tasks: &mut a, par: true, dup: false });
            visit_space::<A, _>(&kinds, &ns, &mut CollectSpace { tasks: &mut b, par: true, dup: rep % 2 == 1 });
            storm(ctx, &format!("space {kinds:?} {ns:?} {}", <A as Scal>::NAME), &b, &a, 4, if tsan { 12 } else { 40 }, seed);
        }
    }
}

pub fn c11(ctx: &mut Ctx) {
    c11_type::<f64>(ctx);
    c11_type::<f32>(ctx);
}

// ------------------------------------------------------------------ C15

/// tasks of a clone whose original is gone
fn cloned<A: Real>(kind: Kind, n: usize) -> Vec<Task>
where
    Complex<A>: Scal,
{
    let mut v = Collect { tasks: vec![], par: false };
    A::base(kind, n, Make::Clone).visit(&[1, 2], &mut v);
    v.tasks
}

fn space_tasks<A: Real>(kinds: &[Kind], ns: &[usize], par: bool, dup: bool) -> Vec<Task>
where
    Complex<A>: Scal,
{
    let mut t = vec![];
    visit_space::<A, _>(kinds, ns, &mut CollectSpace { tasks: &mut t, par, dup });
    t
}

fn digest(r: &Bits) -> u64 {
    r.iter().fold(0xcbf2_9ce4_8422_2325u64, |h, (a, b)| {
        (h ^ a).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(17) ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15)
    })
}

/// inputs of the histories
fn inputs(seed: u64) -> Vec<u64> {
    ids(seed, 2, 4)
}

fn all_digests(tasks: &[Task], seed: u64) -> Vec<u64> {
    tasks.iter().flat_map(|t| inputs(seed).into_iter().map(move |id| digest(&(t.call)(id)))).collect()
}

/// What the calls give in a process that made nothing but this object:
/// `fsmon C15 digest f64 conc seed Kind,Kind n,n`.  One kind is a base,
/// more are a space.
pub fn fresh_main(args: &[String]) {
    let kinds: Vec<Kind> = args[3].split(',').map(|k| Kind::ALL[k.parse::<usize>().unwrap()]).collect();
    let ns: Vec<usize> = args[4].split(',').map(|k| k.parse().unwrap()).collect();
    let (conc, seed) = (args[1] == "1", args[2].parse().unwrap());
    let space = args[5] == "space";
    fn go<A: Real>(kinds: &[Kind], ns: &[usize], conc: bool, space: bool, seed: u64) -> Vec<u64>
    where
        Complex<A>: Scal,
    {
        let t = if space { space_tasks::<A>(kinds, ns, conc, false) } else { base_tasks::<A>(kinds[0], ns[0], conc, false) };
        all_digests(&t, seed)
    }
    let d = if args[0] == "f64" { go::<f64>(&kinds, &ns, conc, space, seed) } else { go::<f32>(&kinds, &ns, conc, space, seed) };
    let s: Vec<String> = d.iter().map(u64::to_string).collect();
    println!("DIGESTS {}", s.join(" "));
}

fn in_fresh_process<A: Real>(kinds: &[Kind], ns: &[usize], conc: bool, space: bool, seed: u64) -> Result<Vec<u64>, String> {
    let k: Vec<String> = kinds.iter().map(|k| Kind::ALL.iter().position(|x| x == k).unwrap().to_string()).collect();
    let n: Vec<String> = ns.iter().map(usize::to_string).collect();
    let o = std::process::Command::new(std::env::current_exe().expect("own path"))
        .args(["C15", "digest", <A as Scal>::NAME, if conc { "1" } else { "0" }, &seed.to_string()])
        .args([k.join(",").as_str(), n.join(",").as_str(), if space { "space" } else { "base" }])
        .env_remove("FSMON_CRUMB")
        .output()
        .expect("a process of its own");
    let out = String::from_utf8_lossy(&o.stdout);
    out.lines()
        .find_map(|l| l.strip_prefix("DIGESTS "))
        .map(|l| l.split(' ').map(|x| x.parse().unwrap()).collect())
        .ok_or_else(|| format!("{:?}: {}", o.status, String::from_utf8_lossy(&o.stderr)))
}

/// How an object of the history is made anew
type Maker<'a> = &'a dyn Fn(usize) -> Vec<Task>;

/// Offline: the recorded history must be a function of (object recipe, call, input),
/// the same one as in a process without a history
fn history(ctx: &mut Ctx, what: &str, make: Maker, noise: Maker, fresh: Option<Vec<u64>>, steps: usize, seed: u64) {
    let mut rng = Rng::new(seed);
    let mut log: Vec<(usize, usize, usize, u64)> = vec![];
    let ids = inputs(seed);
    let mut noises: Vec<Vec<Task>> = vec![];
    // some histories begin with something else
    for _ in 0..rng.below(3) {
        noises.push(noise(rng.below(64)));
    }
    let mut copies: Vec<Vec<Task>> = (0..3).map(make).collect();
    let nt = copies[0].len();
    let shared = copies[rng.below(3)].clone();
    copies.push(shared);
    for _ in 0..steps {
        match rng.below(16) {
            0 | 1 if !noises.is_empty() => {
                let q = rng.pick(&noises);
                if let Some(t) = q.get(rng.below(q.len().max(1))) {
                    (t.call)(rng.next());
                }
            }
            2 => {
                let c = rng.pick(&copies);
                (c[rng.below(nt)].abuse)(rng.next());
                ctx.count("refused_calls_in_history", 1);
            }
            3 => {
                // made in between: other sizes, other kinds, other scalars
                let q = noise(rng.below(64));
                if noises.len() < 4 {
                    noises.push(q);
                } else {
                    let k = rng.below(4);
                    noises[k] = q;
                }
                ctx.count("other_objects_made_in_history", 1);
            }
            4 => {
                let k = rng.below(copies.len());
                copies[k] = make(rng.below(3));
                ctx.check(copies[k].len() == nt, || format!("{what}: a rebuilt object offers other operations"));
                ctx.count("objects_made_again_in_history", 1);
            }
            _ => {
                let (mut c, t) = (rng.below(copies.len()), rng.below(nt));
                // often several times in a row with nearly the same input
                for _ in 0..[1, 1, 2, 3][rng.below(4)] {
                    let i = rng.below(ids.len());
                    log.push((c, t, i, digest(&(copies[c][t].call)(ids[i]))));
                    if rng.below(3) == 0 {
                        c = rng.below(copies.len());
                    }
                }
            }
        }
    }
    let mut first: HashMap<(usize, usize), (usize, usize, u64)> = HashMap::new();
    let mut repeats = 0;
    for (i, (c, t, id, h)) in log.iter().enumerate() {
        match first.get(&(*t, *id)) {
            None => {
                first.insert((*t, *id), (i, *c, *h));
            }
            Some((j, c0, h0)) => {
                repeats += 1;
                ctx.check(h0 == h, || format!("{what}: {} gave different results at steps {j} (copy {c0}) and {i} (copy {c})", copies[0][*t].label));
            }
        }
    }
    if let Some(f) = fresh {
        ctx.check(f.len() == nt * ids.len(), || format!("{what}: a process of its own offers other operations"));
        for (i, (c, t, id, h)) in log.iter().enumerate() {
            ctx.check(f[t * ids.len() + id] == *h, || format!("{what}: {} gave something else at step {i} (copy {c}) than in a process without a history", copies[0][*t].label));
        }
        ctx.count("calls_compared_with_a_fresh_process", log.len() as u64);
    }
    ctx.count("calls", log.len() as u64);
    ctx.count("repeated_calls_compared", repeats);
    let order: Vec<String> = log.iter().map(|e| format!("{}.{}", e.0, e.1)).collect();
    ctx.seen(&format!("{what} history={:x}", hash_str(&order.join(","))));
}

/// objects a history might be confused by
fn noise_for<A: Real>(kind: Kind, n: usize, q: usize) -> Vec<Task>
where
    Complex<A>: Scal,
{
    let other = if q % 8 == 7 { Kind::ALL[(q / 8) % 8] } else { kind };
    let m = match q % 12 {
        0 | 1 => n + 1,
        2 | 3 => n.saturating_sub(1),
        4 => n + 2,
        5 => n.saturating_sub(2),
        6 => 2 * n,
        7 => n / 2,
        8 => 2 * n.saturating_sub(1),
        9 => n,
        10 => n / 2 + 1,
        _ => 6 + q % 17,
    }
    .max(other.min_n());
    if q % 5 == 4 {
        // the other scalar type
        if <A as Scal>::NAME == "f64" { base_tasks::<f32>(other, m, q % 3 == 0, false) } else { base_tasks::<f64>(other, m, q % 3 == 0, false) }
    } else {
        base_tasks::<A>(other, m, q % 3 == 0, false)
    }
}

fn c15_type<A: Real>(ctx: &mut Ctx)
where
    Complex<A>: Scal,
{
    let mut r = Rng::new(ctx.seed);
    let reps = if ctx.thorough() { 2000 } else { 150 };
    for rep in 0..reps {
        for kind in Kind::ALL {
            let n = r.range(kind.min_n(), [16, 40, 70, 300][rep % 4]);
            if let Some(seed) = ctx.begin(&format!("C15 {kind:?} {} n={n} rep={rep}", <A as Scal>::NAME)) {
                let conc = rep % 2 == 0;
                // a clone shares the plans, a rebuild does not
                let make = |i: usize| if i == 1 { cloned::<A>(kind, n) } else { base_tasks::<A>(kind, n, conc, false) };
                let noise = |q: usize| noise_for::<A>(kind, n, q);
                let what = format!("{kind:?} n={n} {}", <A as Scal>::NAME);
                let fresh = in_fresh_process::<A>(&[kind], &[n], conc, false, seed);
                let fresh = fresh.unwrap_or_else(|e| ctx.fail(&format!("{what}: fails in a process of its own: {e}")));
                history(ctx, &what, &make, &noise, Some(fresh), 200, seed);
            }
            if ctx.out_of_time() {
                return;
            }
        }
        let ty = r.below(A::SPACES);
        let (kinds, ns) = pick(&mut r, ty, 12);
        if let Some(seed) = ctx.begin(&format!("C15 space {kinds:?} {ns:?} {} rep={rep}", <A as Scal>::NAME)) {
            let par = rep % 2 == 0;
            let make = |i: usize| space_tasks::<A>(&kinds, &ns, par, i == 1);
            let noise = |q: usize| {
                let k = q % kinds.len();
                if q % 4 == 3 {
                    let mut m = ns.clone();
                    m[k] += 1;
                    space_tasks::<A>(&kinds, &m, par, false)
                } else {
                    noise_for::<A>(kinds[k], ns[k], q)
                }
            };
            let what = format!("space {kinds:?} {ns:?} {}", <A as Scal>::NAME);
            let fresh = in_fresh_process::<A>(&kinds, &ns, par, true, seed);
            let fresh = fresh.unwrap_or_else(|e| ctx.fail(&format!("{what}: fails in a process of its own: {e}")));
            history(ctx, &what, &make, &noise, Some(fresh), 100, seed);
        }
    }
}

pub fn c15(ctx: &mut Ctx) {
    c15_type::<f64>(ctx);
    c15_type::<f32>(ctx);
}
