//! A probe base: a fifth implementation of the base traits whose slice
//! operations only record what the library's N-dimensional drivers hand them.
//! Everything that walks the arrays (the provided trait methods) is the real
//! code; the log of lane visits is checked offline.
use crate::num::Scal;
use funspace::*;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug)]
pub struct Visit {
    pub lane: u64,
    pub thread: usize,
    pub seq: u64,
}

pub struct Probe {
    pub nin: usize,
    pub nout: usize,
    pub north: usize,
    pub log: Mutex<Vec<Visit>>,
    pub bad: Mutex<Vec<String>>,
    seq: AtomicU64,
    /// upper bound of the injected delay in microseconds (0: none)
    pub delay: u64,
}

/// lane `l`, position `i` carries this value
pub fn cell(l: u64, i: usize) -> f64 {
    (l * 4096 + i as u64) as f64
}

/// and is mapped to this value at output position `i`
pub fn image(l: u64, i: usize, d: usize) -> f64 {
    -((l * 4096 + i as u64) as f64) - 0.25 * (d as f64 + 1.)
}

impl Probe {
    pub fn new(nin: usize, nout: usize, north: usize, delay: u64) -> Self {
        Self { nin, nout, north, log: Mutex::new(vec![]), bad: Mutex::new(vec![]), seq: AtomicU64::new(0), delay }
    }
    fn work<T: Scal>(&self, x: &[T], y: &mut [T], nin: usize, nout: usize, d: usize) {
        if x.len() != nin || y.len() != nout {
            self.bad.lock().unwrap().push(format!("slice lengths {} -> {} expected {nin} -> {nout}", x.len(), y.len()));
            return;
        }
        let lane = (x[0].parts().0 / 4096.) as u64;
        for (i, v) in x.iter().enumerate() {
            if v.parts().0 != cell(lane, i) {
                self.bad.lock().unwrap().push(format!("lane {lane}: element {i} is {}", v.parts().0));
            }
        }
        let seq = self.seq.fetch_add(1, Ordering::Relaxed);
        let thread = rayon::current_thread_index().map_or(0, |t| t + 1);
        if self.delay > 0 {
            let mut h = (lane + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ seq;
            h ^= h >> 31;
            match h % 4 {
                0 => std::thread::yield_now(),
                1 => {
                    let t = std::time::Instant::now();
                    while t.elapsed().as_micros() < u128::from(h / 7 % self.delay) {
                        std::hint::spin_loop();
                    }
                }
                2 => std::thread::sleep(std::time::Duration::from_micros(h / 7 % self.delay)),
                _ => {}
            }
        }
        for (i, v) in y.iter_mut().enumerate() {
            *v = T::make(image(lane, i, d), 0.);
        }
        self.log.lock().unwrap().push(Visit { lane, thread, seq });
    }
}

impl BaseSize for Probe {
    fn len_phys(&self) -> usize {
        self.nin
    }
    fn len_spec(&self) -> usize {
        self.nout
    }
    fn len_orth(&self) -> usize {
        self.north
    }
}
impl BaseTransform for Probe {
    type Physical = f64;
    type Spectral = f64;
    fn forward_slice(&self, x: &[f64], y: &mut [f64]) {
        self.work(x, y, self.nin, self.nout, 100)
    }
    fn backward_slice(&self, x: &[f64], y: &mut [f64]) {
        self.work(x, y, self.nout, self.nin, 200)
    }
}
impl BaseFromOrtho<f64> for Probe {
    fn to_ortho_slice(&self, x: &[f64], y: &mut [f64]) {
        self.work(x, y, self.nout, self.north, 300)
    }
    fn from_ortho_slice(&self, x: &[f64], y: &mut [f64]) {
        self.work(x, y, self.north, self.nout, 400)
    }
}
impl BaseGradient<f64> for Probe {
    fn gradient_slice(&self, x: &[f64], y: &mut [f64], d: usize) {
        self.work(x, y, self.nout, self.north, d)
    }
}
