//! Per-rank event log.
//!
//! One record per call observed: a header line followed by the values the
//! rank ended up with.  Placement is what the library itself reports the rank
//! to own; whether that is a partition is part of what the offline checker
//! decides.
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Read, Write};

/// How the records of one call (one per rank) fit together.
pub const BLOCK: &str = "block"; // the pieces of all ranks tile the array
pub const FULL: &str = "full"; // every rank holds the whole array
pub const ROOT: &str = "root"; // only rank 0 holds something
pub const REF: &str = "ref"; // rank 0: what the next call has to deliver
pub const REFUSED: &str = "refused"; // every rank: the call was turned down
pub const VALUE: &str = "value"; // one value per rank

#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub case: u64,
    pub seq: u64,
    pub kind: String,
    pub st: [usize; 2],
    pub sz: [usize; 2],
    pub g: [usize; 2],
    /// payload numbering, or tolerance for references
    pub salt: f64,
    pub elem: String,
    pub op: String,
    pub v: Vec<(f64, f64)>,
}

pub struct Log {
    f: BufWriter<File>,
    pub case: u64,
    seq: u64,
}

impl Log {
    pub fn new(path: &str) -> Self {
        Self { f: BufWriter::with_capacity(1 << 16, File::create(path).expect("FSMON: log file")), case: 0, seq: 0 }
    }
    pub fn start(&mut self, case: u64) {
        self.case = case;
        self.seq = 0;
        self.f.flush().expect("FSMON: log");
    }
    pub fn put(&mut self, kind: &str, op: &str, elem: &str, place: [[usize; 2]; 3], salt: f64, v: impl Iterator<Item = (f64, f64)>) {
        let v: Vec<(f64, f64)> = v.collect();
        let [st, sz, g] = place;
        writeln!(
            self.f,
            "{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}",
            self.case, self.seq, kind, st[0], st[1], sz[0], sz[1], g[0], g[1], salt, elem, op, v.len()
        )
        .expect("FSMON: log");
        for (a, b) in &v {
            self.f.write_all(&a.to_le_bytes()).expect("FSMON: log");
            self.f.write_all(&b.to_le_bytes()).expect("FSMON: log");
        }
        self.seq += 1;
    }
    pub fn end(&mut self) {
        self.put("end", "", "", [[0; 2]; 3], 0., std::iter::empty());
        self.f.flush().expect("FSMON: log");
    }
}

pub fn read(path: &str) -> Vec<Rec> {
    let mut f = BufReader::new(File::open(path).expect("FSMON: log missing"));
    let mut out = Vec::new();
    let mut line = String::new();
    loop {
        line.clear();
        if f.read_line(&mut line).expect("FSMON: log") == 0 {
            return out;
        }
        let p: Vec<&str> = line.trim_end_matches('\n').split('\t').collect();
        let u = |i: usize| p[i].parse::<usize>().expect("FSMON: log header");
        let n = u(12);
        let mut b = vec![0u8; n * 16];
        f.read_exact(&mut b).expect("FSMON: log truncated");
        let d = |i: usize| f64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        out.push(Rec {
            case: u(0) as u64,
            seq: u(1) as u64,
            kind: p[2].into(),
            st: [u(3), u(4)],
            sz: [u(5), u(6)],
            g: [u(7), u(8)],
            salt: p[9].parse().expect("FSMON: log header"),
            elem: p[10].into(),
            op: p[11].into(),
            v: (0..n).map(|i| (d(2 * i), d(2 * i + 1))).collect(),
        });
    }
}
