use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    /// mixture: small integers, dyadics, uniform, occasionally large
    pub fn coord(&mut self) -> f64 {
        match self.below(8) {
            0..=2 => self.below(21) as f64 - 10.0,
            3 => (self.below(161) as f64 - 80.0) / 16.0,
            4..=6 => self.f(-10.0, 10.0),
            _ => self.f(-300.0, 300.0),
        }
    }
    pub fn p3(&mut self) -> geom3d::Point3 {
        geom3d::Point3::new(self.coord(), self.coord(), self.coord())
    }
    pub fn p2(&mut self) -> geom3d::Point2 {
        geom3d::Point2::new(self.coord(), self.coord())
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let k = self.below(v.len());
        &v[k]
    }
    /// unit vector
    pub fn dir(&mut self) -> geom3d::Vec3 {
        if self.below(3) == 0 {
            return *self.pick(&[
                geom3d::Vec3::X, geom3d::Vec3::Y, geom3d::Vec3::Z, -geom3d::Vec3::X, -geom3d::Vec3::Y, -geom3d::Vec3::Z,
            ]);
        }
        loop {
            let v = geom3d::Vec3::new(self.f(-1.0, 1.0), self.f(-1.0, 1.0), self.f(-1.0, 1.0));
            if v.length() > 0.1 && v.length() <= 1.0 {
                return v.normalize();
            }
        }
    }
    /// orthonormal (axis, ref_dir)
    pub fn frame(&mut self) -> (geom3d::Vec3, geom3d::Vec3) {
        let a = self.dir();
        loop {
            let b = self.dir();
            let c = b - a * a.dot(b);
            if c.length() > 0.3 {
                return (a, c.normalize());
            }
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub struct Run {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub rng: Rng,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub groups: BTreeMap<String, (u64, u64)>,
    pub samples: Vec<String>,
    pub fails: Vec<(String, String, String)>,
    pub known_seen: BTreeMap<String, String>,
    pub known: Vec<String>,
    pub failed_groups: HashSet<String>,
    pub lits_i: Vec<usize>,
    pub lits_f: Vec<f64>,
    cur: Arc<Mutex<Option<(Instant, String, String)>>>,
    start: Instant,
    out: String,
    trace: Option<String>,
    pub budget: f64,
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Run {
    pub fn new(id: &str) -> Run {
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
        let out = std::env::var("VX_OUT").unwrap_or("/dev/stdout".into());
        let known = std::env::var("VX_KNOWN").unwrap_or_default().split(';').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        let trace = std::env::var("VX_TRACE").ok();
        let cur: Arc<Mutex<Option<(Instant, String, String)>>> = Arc::new(Mutex::new(None));
        let c2 = cur.clone();
        let out2 = out.clone();
        let id2 = id.to_string();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let g = c2.lock().unwrap();
            if let Some((t, grp, d)) = &*g {
                if t.elapsed() > Duration::from_secs(25) {
                    let j = format!(
                        "{{\"property\":{},\"evaluations\":1,\"distinct\":1,\"groups\":{{}},\"samples\":[],\"known\":[],\"fails\":[[{},{},\"does not terminate within 25 s\"]]}}",
                        esc(&id2), esc(grp), esc(d)
                    );
                    let _ = std::fs::write(&out2, j);
                    std::process::exit(1);
                }
            }
        });
        // keep panic messages of the code under test quiet
        std::panic::set_hook(Box::new(|_| {}));
        let (mut li, mut lf) = (vec![], vec![]);
        mine(std::path::Path::new("/repo/src"), &mut li, &mut lf);
        li.sort();
        li.dedup();
        lf.sort_by(|a, b| a.partial_cmp(b).unwrap());
        lf.dedup();
        let budget = std::env::var("VX_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 60.0 } else { 300.0 });
        Run {
            id: id.into(),
            seed,
            rng: Rng(seed.wrapping_mul(0x1234567).wrapping_add(hash(id))),
            evals: 0,
            distinct: HashSet::new(),
            groups: BTreeMap::new(),
            samples: vec![],
            fails: vec![],
            known_seen: BTreeMap::new(),
            known,
            failed_groups: HashSet::new(),
            lits_i: li,
            lits_f: lf,
            cur,
            start: Instant::now(),
            out,
            trace,
            tier,
            budget,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier != "quick"
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough() { thorough } else { quick }
    }
    pub fn time_left(&self) -> bool {
        self.start.elapsed().as_secs_f64() < self.budget
    }
    /// one evaluation of an executable contract. `group` names the contract clause.
    pub fn case(&mut self, group: &str, desc: String, f: impl FnOnce() -> Result<(), String>) -> bool {
        if self.failed_groups.contains(group) {
            return false;
        }
        self.evals += 1;
        let fresh = self.distinct.insert(hash(&format!("{}|{}", group, desc)));
        let g = self.groups.entry(group.to_string()).or_insert((0, 0));
        g.0 += 1;
        if fresh {
            g.1 += 1;
        }
        if g.0 == 1 || (g.0 == 50 && self.samples.len() < 40) {
            self.samples.push(format!("{}: {}", group, desc.chars().take(400).collect::<String>()));
        }
        *self.cur.lock().unwrap() = Some((Instant::now(), group.to_string(), desc.clone()));
        if let Some(t) = &self.trace {
            let _ = std::fs::write(t, format!("{}\n{}", group, desc));
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        *self.cur.lock().unwrap() = None;
        let msg = match r {
            Ok(Ok(())) => return true,
            Ok(Err(m)) => m,
            Err(p) => {
                let s = if let Some(s) = p.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "?".into()
                };
                format!("panicked: {}", s)
            }
        };
        self.failed_groups.insert(group.to_string());
        self.fails.push((group.to_string(), desc, msg));
        false
    }
    /// a case recorded as a known finding: reported, not failed
    pub fn known_case(&mut self, key: &str, group: &str, desc: String, f: impl FnOnce() -> Result<(), String>) {
        let listed = self.known.iter().any(|k| k == key);
        self.evals += 1;
        *self.cur.lock().unwrap() = Some((Instant::now(), group.to_string(), desc.clone()));
        let r = catch_unwind(AssertUnwindSafe(f));
        *self.cur.lock().unwrap() = None;
        let bad = match r {
            Ok(Ok(())) => None,
            Ok(Err(m)) => Some(m),
            Err(_) => Some("panicked".to_string()),
        };
        if let Some(m) = bad {
            if listed {
                self.known_seen.insert(key.to_string(), format!("{} ({})", desc, m));
            } else {
                self.fails.push((group.to_string(), desc, m));
            }
        }
    }
    pub fn finish(&self) {
        let mut j = String::new();
        j.push_str(&format!("{{\"property\":{},\"evaluations\":{},\"distinct\":{},", esc(&self.id), self.evals, self.distinct.len()));
        j.push_str("\"groups\":{");
        j.push_str(&self.groups.iter().map(|(k, v)| format!("{}:[{},{}]", esc(k), v.0, v.1)).collect::<Vec<_>>().join(","));
        j.push_str("},\"samples\":[");
        j.push_str(&self.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
        j.push_str("],\"known\":[");
        j.push_str(&self.known_seen.iter().map(|(k, v)| format!("[{},{}]", esc(k), esc(v))).collect::<Vec<_>>().join(","));
        j.push_str("],\"fails\":[");
        j.push_str(&self.fails.iter().map(|(a, b, c)| format!("[{},{},{}]", esc(a), esc(b), esc(c))).collect::<Vec<_>>().join(","));
        j.push_str("]}");
        std::fs::write(&self.out, j).unwrap();
        std::process::exit(if self.fails.is_empty() { 0 } else { 1 });
    }
}

/// numeric literals of the code under test: sizes and parameters worth trying
fn mine(d: &std::path::Path, li: &mut Vec<usize>, lf: &mut Vec<f64>) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    let mut es: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            mine(&p, li, lf);
        } else if p.extension().map_or(false, |e| e == "rs") {
            let Ok(t) = std::fs::read_to_string(&p) else { continue };
            let t = t.split("#[test]").next().unwrap_or("").to_string();
            let b: Vec<char> = t.chars().collect();
            let mut i = 0;
            while i < b.len() {
                if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_' || b[i - 1] == '.')) {
                    let mut j = i;
                    let mut s = String::new();
                    while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == '_' || (b[j] == '.' && j + 1 < b.len() && b[j + 1].is_ascii_digit()) || (b[j] == '-' && (b[j - 1] == 'e'))) {
                        s.push(b[j]);
                        j += 1;
                    }
                    let s = s.replace('_', "");
                    if let Ok(k) = s.parse::<usize>() {
                        if k <= 70 {
                            li.push(k);
                        }
                        lf.push(k as f64);
                    } else if let Ok(x) = s.trim_end_matches("f64").parse::<f64>() {
                        lf.push(x);
                    }
                    i = j;
                } else {
                    i += 1;
                }
            }
        }
    }
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
pub fn close3(a: geom3d::Point3, b: geom3d::Point3, tol: f64) -> bool {
    close(a.x, b.x, tol) && close(a.y, b.y, tol) && close(a.z, b.z, tol)
}
/// difference at most tol * scale
pub fn near3(a: geom3d::Point3, b: geom3d::Point3, tol: f64) -> bool {
    (a.x - b.x).abs() <= tol && (a.y - b.y).abs() <= tol && (a.z - b.z).abs() <= tol
}
pub fn ensure(b: bool, m: impl FnOnce() -> String) -> Result<(), String> {
    if b { Ok(()) } else { Err(m()) }
}
