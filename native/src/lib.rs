//! Case generation and reporting shared by the two oracle programs.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn unit(&mut self) -> f32 {
        (self.next() >> 40) as f32 / (1u64 << 24) as f32
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
}

/// what a case reports: how it looked (for the evidence samples) or why it failed
pub type Outcome = Result<String, String>;

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    /// case(rng, size): size grows from 0 (tiny) to 4 (big pieces), 5: very many pieces
    pub case: fn(&mut Rng, usize) -> Outcome,
}

fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let text = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        format!("panicked: {}", text)
    })
}

pub fn run_case(p: &Property, seed: u64, size: usize) -> Outcome {
    match quiet(|| (p.case)(&mut Rng(seed), size)) {
        Ok(o) => o,
        Err(e) => Err(e),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

/// ID --seed N --secs S --out FILE: search, exit 3 and write FILE when a case fails
/// replay FILE: run the case again, exit 3 when it (still) fails
pub fn main_with(program: &str, props: &[Property]) {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let flag = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    if args.first().map(|s| s.as_str()) == Some("replay") {
        let text = std::fs::read_to_string(&args[1]).expect("replay file");
        let field = |k: &str| {
            text.lines()
                .find_map(|l| l.strip_prefix(k).and_then(|l| l.strip_prefix('=')))
                .unwrap_or("")
                .trim()
                .to_string()
        };
        let id = field("case-property");
        let p = props.iter().find(|p| p.id == id).expect("unknown property");
        match run_case(p, field("case-seed").parse().unwrap(), field("case-size").parse().unwrap()) {
            Ok(s) => println!("holds: {}", s),
            Err(e) => {
                println!("FAILS: {}", e);
                std::process::exit(3)
            }
        }
        return;
    }
    let id = &args[0];
    let p = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            println!("{{\"unsupported\":true}}");
            return;
        }
    };
    let seed: u64 = flag("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = flag("--secs").and_then(|s| s.parse().ok()).unwrap_or(5.0);
    let out = flag("--out").unwrap_or_else(|| "replay.txt".into());
    let start = Instant::now();
    let budget = Duration::from_secs_f64(secs);
    let mut n = 0u64;
    let mut seen = std::collections::HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut master = Rng(seed ^ 0xA5A5_0000);
    while start.elapsed() < budget {
        let case_seed = master.next();
        // tiny cases first, then a mixture
        let size = if n < 400 { (n / 200) as usize } else { [0, 1, 1, 2, 2, 2, 3, 3, 4, 1][(n % 10) as usize] };
        let size = if size == 4 && n % 40 != 8 { 3 } else { size };
        // now and then a recording of very many pieces
        let size = if n % 300 == 201 { 5 } else { size };
        n += 1;
        match run_case(p, case_seed, size) {
            Ok(s) => {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                use std::hash::{Hash, Hasher};
                s.hash(&mut h);
                if s != "trivial" {
                    seen.insert(h.finish());
                    if samples.len() < 5 && n % 7 == 3 {
                        samples.push(s)
                    }
                }
            }
            Err(e) => {
                let text = format!(
                    "# failing input for {id}, found on the real code by native/src/bin/{program}.rs\n# run again with: cd /verif/native && cargo run --offline --bin {program} -- replay THIS_FILE\ncase-property={id}\ncase-seed={case_seed}\ncase-size={size}\nfailure={}\n",
                    e
                );
                std::fs::write(&out, text).expect("cannot write the replay file");
                println!("{{\"evaluations\":{},\"found\":true,\"why\":\"{}\"}}", n, esc(&e.chars().take(600).collect::<String>()));
                std::process::exit(3)
            }
        }
    }
    let s: Vec<String> = samples.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    println!(
        "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"found\":false,\"rule\":\"{}\",\"samples\":[{}]}}",
        n, seen.len(), esc(p.rule), s.join(",")
    );
}

/// sample values of many kinds
pub fn gen_samples(r: &mut Rng, n: usize, wild: bool) -> Vec<f32> {
    let style = r.below(if wild { 13 } else { 10 });
    let a = r.unit();
    let f = r.unit() * 0.7;
    let mut walk = 0.0f32;
    (0..n)
        .map(|i| match style {
            0 => 0.0,
            1 => a * 2.0 - 1.0,
            2 => (i as f32 * f).sin() * a,
            3 => if i % 2 == 0 { 1.0 } else { -1.0 },
            4 => r.unit() * 2.0 - 1.0,
            5 => (r.range(-32767, 32767) as f32) / 32767.0,
            6 => if r.chance(1, 17) { if r.chance(1, 2) { 1.0 } else { -1.0 } } else { 0.0 },
            7 => { walk = (walk + (r.unit() - 0.5) * 0.05).clamp(-1.0, 1.0); walk }
            8 => (r.range(-40, 40) as f32) / 32767.0,
            9 => r.pick(&[1.0, -1.0, 0.0, -0.0, 0.99999994, -0.99999994, 1.5e-5, -1.5e-5, 3.1e-5, -3.1e-5]),
            10 => r.unit() * 6.0 - 3.0,
            11 => r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-40, 0.25, -0.75]),
            _ => f32::from_bits(r.next() as u32),
        })
        .collect()
}

/// the 16 bit value a sample stands for
pub fn q16(s: f32) -> i16 {
    if s.is_nan() {
        return 0;
    }
    (s.max(-1.0).min(1.0) as f32 * 32767.0f32).trunc() as i16
}
pub fn deq(v: i16) -> f32 {
    v as f32 * (1.0f32 / 32767.0)
}
