//! Shared machinery: deterministic randomness, running cbindgen through its public API,
//! parallel case execution and failure records.
use cbindgen::{Bindings, Builder, Config};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut r = Rng(seed ^ stream.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub what: String,
    pub input: String,
    pub output: String,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub scratch: PathBuf,
    pub cases: AtomicU64,
    pub nontrivial: AtomicU64,
    pub fails: Mutex<Vec<Fail>>,
    pub known: Mutex<Vec<String>>,
    pub known_enabled: Vec<String>,
    pub bounds: Mutex<Vec<String>>,
}

static COUNTER: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static TDIR: std::cell::RefCell<Option<PathBuf>> = const { std::cell::RefCell::new(None) };
}

impl Ctx {
    pub fn tdir(&self) -> PathBuf {
        TDIR.with(|t| {
            t.borrow_mut()
                .get_or_insert_with(|| {
                    let d = self
                        .scratch
                        .join(format!("t{}", COUNTER.fetch_add(1, Ordering::SeqCst)));
                    std::fs::create_dir_all(&d).unwrap();
                    d
                })
                .clone()
        })
    }

    /// Number of cases: quick or thorough.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into());
    }

    pub fn fail(&self, f: Fail) {
        self.fails.lock().unwrap().push(f);
    }

    pub fn known(&self, id: &str) -> bool {
        self.known_enabled.iter().any(|k| k == id)
    }

    pub fn count(&self) {
        self.cases.fetch_add(1, Ordering::Relaxed);
    }

    pub fn interesting(&self) {
        self.nontrivial.fetch_add(1, Ordering::Relaxed);
    }

    /// Run `n` independent cases on all cores. Each gets its own random stream, which depends
    /// only on the seed, the label and the index.
    pub fn par(&self, label: &str, n: usize, f: impl Fn(&Ctx, usize, &mut Rng) -> Result<(), Fail> + Sync) {
        let mut h: u64 = 1469598103934665603;
        for b in label.bytes() {
            h = (h ^ b as u64).wrapping_mul(1099511628211);
        }
        let next = AtomicUsize::new(0);
        let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
        std::thread::scope(|s| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || self.fails.lock().unwrap().len() > 20 {
                            break;
                        }
                        let mut rng = Rng::new(self.seed.wrapping_add(h), i as u64);
                        self.count();
                        match catch_unwind(AssertUnwindSafe(|| f(self, i, &mut rng))) {
                            Ok(Ok(())) => {}
                            Ok(Err(mut e)) => {
                                e.what = format!("{} [{label} case {i}]", e.what);
                                self.fail(e)
                            }
                            Err(p) => {
                                // A panic of the harness itself, not of cbindgen.
                                self.fail(Fail {
                                    what: format!("HARNESS-PANIC {} [{label} case {i}]", panic_text(&p)),
                                    input: String::new(),
                                    output: String::new(),
                                })
                            }
                        }
                    })
                    .unwrap();
            }
        });
    }
}

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}

#[derive(Clone, Debug)]
pub struct Input {
    pub src: String,
    pub toml: String,
}

impl Input {
    pub fn text(&self) -> String {
        format!(
            "--- cbindgen.toml\n{}\n--- source (lib.rs)\n{}\n",
            self.toml, self.src
        )
    }
}

pub enum Gen {
    Ok(String),
    Err(String),
    Panic(String),
}

pub fn bindings(ctx: &Ctx, inp: &Input) -> Result<Bindings, Gen> {
    let d = ctx.tdir();
    let sp = d.join("lib.rs");
    let cp = d.join("cbindgen.toml");
    std::fs::write(&sp, &inp.src).unwrap();
    std::fs::write(&cp, &inp.toml).unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let cfg = Config::from_file(&cp).map_err(|e| format!("config: {e}"))?;
        Builder::new()
            .with_config(cfg)
            .with_src(&sp)
            .generate()
            .map_err(|e| format!("generate: {e}"))
    }));
    match r {
        Ok(Ok(b)) => Ok(b),
        Ok(Err(e)) => Err(Gen::Err(e)),
        Err(p) => Err(Gen::Panic(panic_text(&p))),
    }
}

pub fn write_bindings(b: &Bindings) -> Result<String, Gen> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut v = Vec::new();
        b.write(&mut v);
        v
    }));
    match r {
        Ok(v) => Ok(String::from_utf8_lossy(&v).into_owned()),
        Err(p) => Err(Gen::Panic(panic_text(&p))),
    }
}

pub fn run(ctx: &Ctx, inp: &Input) -> Gen {
    match bindings(ctx, inp) {
        Ok(b) => match write_bindings(&b) {
            Ok(s) => Gen::Ok(s),
            Err(e) => e,
        },
        Err(e) => e,
    }
}

/// Run and demand a header.
pub fn header(ctx: &Ctx, inp: &Input) -> Result<String, Fail> {
    match run(ctx, inp) {
        Gen::Ok(s) => Ok(s),
        Gen::Err(e) => Err(Fail { what: format!("cbindgen rejected a valid input: {e}"), input: inp.text(), output: String::new() }),
        Gen::Panic(e) => Err(Fail { what: format!("cbindgen panicked: {e}"), input: inp.text(), output: String::new() }),
    }
}

pub fn fail(inp: &Input, out: &str, what: impl Into<String>) -> Fail {
    Fail { what: what.into(), input: inp.text(), output: out.to_string() }
}

pub fn q(s: &str) -> String {
    format!("{s:?}")
}

#[allow(dead_code)]
pub fn ls(p: &Path) -> Vec<PathBuf> {
    let mut v: Vec<_> = std::fs::read_dir(p).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    v.sort();
    v
}

/// Identifier-shaped string literals of a source file of /repo: a dictionary for name generators,
/// so that a name newly recognised by the code is also tried.
pub fn dict(file: &str) -> Vec<String> {
    let text = std::fs::read_to_string(Path::new("/repo/src/bindgen").join(file)).unwrap_or_default();
    let mut out = vec![];
    for line in text.lines() {
        for (i, s) in line.split('"').enumerate() {
            if i % 2 == 1 && s.len() > 1 && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !s.starts_with(|c: char| c.is_ascii_digit()) {
                out.push(s.to_string());
            }
        }
    }
    out.sort();
    out.dedup();
    out
}
