//! The search engine: a choice-sequence generator (every random decision is one
//! recorded integer), a parallel fixed-work runner, an automatic shrinker that
//! works on the recorded choices, replay files and evidence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Source of choices: either fresh random ones or a recorded tape.
pub struct Src {
    state: u64,
    tape: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    pub depth: u32,
    pub hits: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub want_note: bool,
    pub notes: Vec<String>,
    /// Some properties enumerate a finite space systematically by case index.
    pub index: u64,
    pub memory: crate::gen::Memory,
    /// Choices to make once more, last first.
    echo: Vec<u64>,
}

/// A step of a program and the choices it took, to be done once more.
#[derive(Default)]
pub struct Twin {
    last: Option<(Vec<u64>, crate::gen::Memory)>,
    current: Option<(usize, crate::gen::Memory)>,
    own_echo: bool,
}

/// The choices of a part of a program, with which it can be run again.
#[derive(Clone)]
pub struct Script {
    tape: Vec<u64>,
    memory: crate::gen::Memory,
    depth: u32,
    index: u64,
}

impl std::fmt::Debug for Script {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{} choices", self.tape.len())
    }
}

impl Script {
    pub fn src(&self) -> Src {
        let mut s = Src::replay(self.tape.clone(), self.index);
        s.memory = self.memory.clone();
        s.depth = self.depth;
        s
    }
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Src {
    /// Whether this is the case set aside for something huge. Trials of the
    /// machinery can leave these out.
    pub fn huge(&self, index: u64) -> bool {
        static OUT: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
        self.index == index && !OUT.get_or_init(|| std::env::var_os("VERIF_NO_HUGE").is_some())
    }

    pub fn random(seed: u64, index: u64) -> Self {
        Self::make(mix(seed ^ mix(index)), None, index)
    }

    pub fn replay(tape: Vec<u64>, index: u64) -> Self {
        Self::make(0, Some(tape), index)
    }

    fn make(state: u64, tape: Option<Vec<u64>>, index: u64) -> Self {
        crate::gen::reset_lazy();
        Self {
            state,
            tape,
            pos: 0,
            rec: Vec::new(),
            depth: 3,
            hits: BTreeMap::new(),
            nontrivial: false,
            want_note: false,
            notes: Vec::new(),
            index,
            memory: Default::default(),
            echo: Vec::new(),
        }
    }

    fn raw(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }

    /// One choice in `0..n`. Zero is by convention the simplest outcome.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &self.tape {
            Some(t) => t.get(self.pos).copied().unwrap_or(0) % n,
            None => match self.echo.pop() {
                Some(v) => v % n,
                // Bytes, characters and code units are values, the rest choices.
                None if n == 128 || n == 256 || n >= 65535 => self.fresh(0, n),
                None => self.raw() % n,
            },
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }

    /// A value below `n`; now and then, one that is `lo` less than a number
    /// which is new in the sources.
    fn fresh(&mut self, lo: i64, n: u64) -> u64 {
        let v = self.raw();
        let lits = crate::lits::get();
        if n > 16 && lits.on && v >> 58 == 0 && !lits.ints.is_empty() {
            let d = self.near().wrapping_sub(lo);
            if d >= 0 && (d as u64) < n {
                return d as u64;
            }
        }
        v % n
    }

    /// Near a number which is new in the sources.
    fn near(&mut self) -> i64 {
        let v = self.raw();
        let ints = &crate::lits::get().ints;
        if ints.is_empty() {
            return 0;
        }
        let c = ints[(v >> 8) as usize % ints.len()];
        match v % 16 {
            0..=5 => c,
            6 | 7 => c.saturating_add(1),
            8 | 9 => c.saturating_sub(1),
            10 => c.saturating_neg(),
            11 => c.saturating_mul(2),
            12 if (0..32).contains(&c) => 1 << c,
            12 => c.saturating_mul(3),
            13 if (0..32).contains(&c) => (1 << c) + 1,
            13 => c / 2,
            14 if ints.len() > 1 => c.saturating_mul(ints[(v >> 40) as usize % ints.len()]),
            14 => c.saturating_add(2),
            _ => c.saturating_mul((v >> 40) as i64 % 12),
        }
    }

    /// Any value, decided by `f` unless it is repeated.
    fn value(&mut self, f: impl FnOnce(&mut Self) -> u64) -> u64 {
        let v = match &self.tape {
            Some(t) => t.get(self.pos).copied().unwrap_or(0),
            None => match self.echo.pop() {
                Some(v) => v,
                None => f(self),
            },
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }

    /// One time in `often`, a number near one that is new in the sources.
    pub fn new_int(&mut self, often: u64, lo: i64, hi: i64) -> Option<i64> {
        if !crate::lits::get().on || !self.one_in(often) {
            return None;
        }
        let v = self.value(|s| s.near() as u64) as i64;
        (lo <= v && v <= hi).then_some(v)
    }

    /// One time in `often`, a size near a number that is new in the sources:
    /// at most one of them large and a few of medium size in each case.
    pub fn new_size(&mut self, often: u64, lo: i64, hi: i64) -> Option<usize> {
        let hi = match self.memory.grown {
            0..=1000 => hi,
            1001..=5000 => hi.min(1000),
            _ => hi.min(40),
        };
        let n = self.new_int(often, lo, hi)?;
        // Large ones seldom, for they take their time (cheap ones less).
        let unit = if hi > 100_000 { 4000 } else { 400 };
        if n > unit && !self.one_in((n / unit) as u64) {
            return None;
        }
        self.memory.grown += n;
        Some(n as usize)
    }

    /// One time in `often`, a real number that is new in the sources.
    pub fn new_num(&mut self, often: u64) -> Option<f32> {
        let lits = crate::lits::get();
        if !lits.on || !self.one_in(often) {
            return None;
        }
        let v = self.value(|s| {
            let r = s.raw();
            let v = if lits.nums.is_empty() || r % 4 == 0 {
                let v = s.near() as f32;
                if r % 32 == 0 { v / 100.0 } else { v }
            } else {
                lits.nums[(r >> 8) as usize % lits.nums.len()]
            };
            let v = match (r >> 4) % 8 {
                0 => -v,
                1 => f32::from_bits(v.to_bits().wrapping_add(1)),
                2 => f32::from_bits(v.to_bits().wrapping_sub(1)),
                3 => v * 1.5,
                _ => v,
            };
            v.to_bits() as u64
        });
        Some(f32::from_bits(v as u32)).filter(|v| v.is_finite())
    }

    /// One time in `often`, a text that is new in the sources, or one with it
    /// at its begin or end.
    pub fn new_text(&mut self, often: u64) -> Option<Vec<u8>> {
        let lits = crate::lits::get();
        if !lits.on || !self.one_in(often) {
            return None;
        }
        let at = self.value(|s| s.raw() % 1024);
        let text = |k: u64| lits.texts.get(k as usize % lits.texts.len().max(1)).map_or(&b""[..], |t| t);
        let n = self.value(|_| text(at).len().min(300) as u64).min(300);
        let mut v: Vec<u8> = (0..n).map(|i| self.value(|_| text(at)[i as usize] as u64) as u8).collect();
        match self.below(8) {
            4 => v.extend((0..self.below(8)).map(|i| b"ab() 1/<"[i as usize])),
            5 => v.insert(0, b'a'),
            6 => v.extend(v.clone()),
            7 => v.truncate(v.len() / 2),
            _ => {}
        }
        Some(v)
    }

    /// Do something, and keep the choices it took.
    pub fn script<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> (T, Script) {
        let (start, memory, depth) = (self.rec.len(), self.memory.clone(), self.depth);
        let v = f(self);
        (v, Script { tape: self.rec[start..].to_vec(), memory, depth, index: self.index })
    }

    /// Begin a step of a random program. Now and then a step is one before it
    /// with the very same arguments.
    pub fn step_begins(&mut self, t: &mut Twin) {
        t.own_echo = false;
        t.current = None;
        if let Some((tape, memory)) = t.last.take() {
            self.memory = memory;
            if self.echo.is_empty() {
                t.own_echo = true;
                self.echo = tape;
                self.echo.reverse();
            }
        } else if self.one_in(24) {
            t.current = Some((self.rec.len(), self.memory.clone()));
        }
    }

    pub fn step_ends(&mut self, t: &mut Twin) {
        if t.own_echo {
            self.echo.clear();
        }
        if let Some((start, memory)) = t.current.take() {
            if self.rec.len() - start < 3000 {
                t.last = Some((self.rec[start..].to_vec(), memory));
            }
        }
    }

    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        let n = (hi - lo + 1) as u64;
        if crate::lits::get().on && n > 16 {
            return lo + (self.value(|s| s.fresh(lo, n)) % n) as i64;
        }
        lo + self.below(n) as i64
    }

    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }

    pub fn coin(&mut self) -> bool {
        self.below(2) == 1
    }

    /// True with probability 1/n; false is the simple outcome.
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == n - 1
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }

    pub fn hit(&mut self, label: &'static str) {
        *self.hits.entry(label).or_insert(0) += 1;
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_note {
            let mut s = f();
            if s.len() > 600 {
                let mut i = 600;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
                s.push_str("...");
            }
            self.notes.push(s);
        }
    }
}

pub type CaseFn = fn(&mut Src) -> Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub run: CaseFn,
    /// Cases in the quick and in the thorough tier.
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Labels that must have been hit for the run to count (generator health).
    pub must_hit: &'static [&'static str],
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("{msg}{loc}")));
    }));
}

/// Run `f`, returning its value or the message of the panic it raised.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC_MSG.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
    })
}

fn exec(run: CaseFn, src: &mut Src) -> Result<(), String> {
    match guarded(|| run(src)) {
        Ok(r) => r,
        Err(p) => Err(format!("unexpected panic: {p}")),
    }
}

fn hash_tape(t: &[u64], index: u64) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    // Systematic cases with an empty tape differ by index only.
    if t.is_empty() {
        index.hash(&mut h);
    }
    h.finish()
}

fn shrink(run: CaseFn, tape: Vec<u64>, index: u64, budget: Duration) -> (Vec<u64>, String) {
    let start = Instant::now();
    let mut evals = 0u32;
    let try_one = |t: &[u64]| -> Option<(Vec<u64>, String)> {
        let mut s = Src::replay(t.to_vec(), index);
        match exec(run, &mut s) {
            Ok(()) => None,
            Err(e) => {
                let mut r = s.rec;
                while r.last() == Some(&0) {
                    r.pop();
                }
                Some((r, e))
            }
        }
    };
    let (mut best, mut msg) = match try_one(&tape) {
        Some(x) => x,
        None => return (tape, "not reproducible from its tape".into()),
    };
    let smaller = |a: &[u64], b: &[u64]| (a.len(), a) < (b.len(), b);
    loop {
        let mut improved = false;
        // Delete spans.
        let mut span = (best.len() / 2).max(1);
        while span >= 1 {
            let mut i = 0;
            while i + span <= best.len() {
                if start.elapsed() > budget || evals > 60_000 {
                    return (best, msg);
                }
                let mut c = best.clone();
                c.drain(i..i + span);
                evals += 1;
                match try_one(&c) {
                    Some((r, e)) if smaller(&r, &best) => {
                        best = r;
                        msg = e;
                        improved = true;
                    }
                    _ => i += span,
                }
            }
            if span == 1 {
                break;
            }
            span /= 2;
        }
        // Lower values.
        let mut i = 0;
        while i < best.len() {
            for cand in [0, best[i] / 2, best[i].saturating_sub(1)] {
                if i >= best.len() || cand >= best[i] {
                    continue;
                }
                if start.elapsed() > budget || evals > 60_000 {
                    return (best, msg);
                }
                let mut c = best.clone();
                c[i] = cand;
                evals += 1;
                if let Some((r, e)) = try_one(&c) {
                    if smaller(&r, &best) {
                        best = r;
                        msg = e;
                        improved = true;
                        break;
                    }
                }
            }
            i += 1;
        }
        if !improved {
            return (best, msg);
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

struct Totals {
    evaluations: u64,
    seen: HashSet<u64>,
    hits: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
    choices: u64,
    max_choices: u64,
}

/// Entry point of a check binary.
///
/// The search itself runs in a child process, so that a change that makes the
/// code under test abort, overflow the stack, exhaust memory or hang is a
/// reported violation as well.
pub fn main(props: &[Prop]) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let find = |id: &str| {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id:?}");
            std::process::exit(2)
        })
    };
    let code = match arg(1) {
        "literals" => {
            print!("{}", crate::lits::listing());
            0
        }
        "list" => {
            props.iter().for_each(|p| println!("{}", p.id));
            0
        }
        "replay" => replay(find, arg(2)),
        "one" => {
            let prop = find(arg(2));
            let _ = std::panic::catch_unwind(crate::lits::load);
            big_stack(move || {
                let mut s = Src::random(base_of(prop.id), arg(3).parse().unwrap());
                i32::from(exec(prop.run, &mut s).is_err())
            })
        }
        "child" => {
            let _ = std::panic::catch_unwind(crate::lits::load);
            check(find(arg(2)))
        }
        id => supervise(find(id)),
    };
    std::process::exit(code);
}

const STUCK: Duration = Duration::from_secs(60);

/// How long a case may take (seconds on the clock) before it is run apart,
/// and how many seconds of processor time it has then. The first few cases
/// of some properties are files of gigabytes and take seconds, all others
/// milliseconds.
fn allowance(index: u64) -> (u64, u64) {
    if index < 4 { (240, 200) } else { (60, 30) }
}

fn big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|scope| {
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(scope, f).unwrap().join().unwrap()
    })
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn base_of(id: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    id.hash(&mut h);
    mix(seed()) ^ h.finish()
}

fn status_path(pid: u32) -> std::path::PathBuf {
    std::env::temp_dir().join(format!("vharness-status-{pid}"))
}

/// A case that ends the process or does not end: it is replayed by its seed.
fn report_unfinished(prop: &Prop, index: u64, what: &str) {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-case-{index}.replay", prop.id);
    let body = format!("property: {}\nindex: {index}\nseed: {}\n\n# {what}\n", prop.id, seed());
    std::fs::write(&path, body).expect("write replay");
    use std::io::Write;
    let _ = writeln!(std::io::stdout(), "{}: {what}\nVIOLATION property={} replay={}", prop.id, prop.id, path);
}

/// Run one case in a process of its own: its exit code, or `Err(what)` if it
/// ended the process or used up its allowance of processor time. The limit is one on
/// processor time , so that a slow or busy machine
/// is never mistaken for code that does not end; no answer at all is `Ok(2)`.
fn one_apart(id: &str, index: u64, seed: u64) -> Result<i32, String> {
    let exe = std::env::current_exe().expect("own path");
    let cpu = allowance(index).1;
    let mut child = std::process::Command::new("bash")
        .args(["-c", "ulimit -St \"$1\"; shift; exec \"$@\"", "case", &cpu.to_string()])
        .arg(exe)
        .args(["one", id, &index.to_string()])
        .env("VERIF_SEED", seed.to_string())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("run a case apart");
    let start = Instant::now();
    loop {
        if let Some(st) = child.try_wait().expect("wait") {
            return match st.code() {
                Some(c) => Ok(c),
                // Somebody else ended it, for example for lack of memory.
                None if st.signal() == Some(9) => Ok(2),
                None => Err(format!("case {index} ended the process or did not end within {cpu} s of processor time ({st})")),
            };
        }
        if start.elapsed() > 8 * STUCK {
            let _ = child.kill();
            let _ = child.wait();
            return Ok(2);
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn supervise(prop: &Prop) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    let mut child = std::process::Command::new(exe).args(["child", prop.id]).spawn().expect("run the search");
    let status = child.wait().expect("wait for the search");
    let file = status_path(child.id());
    let running = std::fs::read(&file).unwrap_or_default();
    let _ = std::fs::remove_file(&file);
    if let Some(c) = status.code() {
        return c;
    }
    let indices: Vec<u64> = running
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .filter(|v| *v != 0)
        .map(|v| v - 1)
        .collect();
    let mut fails = None;
    for index in indices {
        match one_apart(prop.id, index, seed()) {
            Err(what) => {
                report_unfinished(prop, index, &what);
                return 1;
            }
            // The process ended while this failure was being shrunk.
            Ok(1) => fails = fails.or(Some(index)),
            Ok(_) => {}
        }
    }
    if let Some(index) = fails {
        report_unfinished(prop, index, &format!("case {index} fails, and smaller ones end the process"));
        return 1;
    }
    eprintln!("{}: the search ended with {status}, and no case does on its own", prop.id);
    2
}

fn replay<'p>(find: impl Fn(&str) -> &'p Prop, path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let mut id = String::new();
    let mut index = 0;
    let mut tape = Vec::new();
    let mut fresh = None;
    let mut lits = false;
    for line in text.lines() {
        if let Some(r) = line.strip_prefix("property: ") {
            id = r.trim().into();
        } else if let Some(r) = line.strip_prefix("index: ") {
            index = r.trim().parse().unwrap();
        } else if line == "literals: new ones" {
            lits = true;
        } else if let Some(r) = line.strip_prefix("seed: ") {
            fresh = Some(r.trim().parse().unwrap());
        } else if let Some(r) = line.strip_prefix("choices: ") {
            tape = r.split_whitespace().map(|x| x.parse().unwrap()).collect();
        }
    }
    let prop = find(&id);
    let r = if let Some(seed) = fresh {
        match one_apart(&id, index, seed) {
            Ok(2) => {
                println!("replay: no answer");
                return 2;
            }
            Ok(1) => Err(format!("case {index} fails")),
            r => r.map(|_| ()),
        }
    } else {
        crate::lits::switch(lits);
        big_stack(move || {
            let mut s = Src::replay(tape, index);
            s.want_note = true;
            let r = exec(prop.run, &mut s);
            for n in &s.notes {
                println!("case: {n}");
            }
            r
        })
    };
    match r {
        Ok(()) => {
            println!("replay: property {id} holds on this case");
            0
        }
        Err(e) => {
            println!("replay: {e}");
            println!("VIOLATION property={id} replay={path}");
            1
        }
    }
}

fn check(prop: &Prop) -> i32 {
    let seed = seed();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let tier = if thorough { "thorough" } else { "quick" };
    let mut cases = if thorough { prop.thorough } else { prop.quick };
    if let Some(n) = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()) {
        cases = n;
    }
    // A part of the work, for trials of the machinery itself.
    if let Some(k) = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
        cases = (cases as f64 * k) as u64 + 1;
    }
    let start = Instant::now();
    let base = base_of(prop.id);
    let status = std::fs::File::create(status_path(std::process::id())).expect("status file");

    // On a machine much slower than any it was made for, a quick check ends
    // with what it has done by then; the evidence says how much that was.
    let deadline = Duration::from_secs(if thorough { u64::MAX / 4 } else { 300 });
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let failure: Mutex<Option<(u64, Vec<u64>, String)>> = Mutex::new(None);
    let totals = Mutex::new(Totals {
        evaluations: 0,
        seen: HashSet::new(),
        hits: BTreeMap::new(),
        samples: Vec::new(),
        choices: 0,
        max_choices: 0,
    });
    // The smallest failing index among those found decides; workers take
    // indices in order, so the first failure is stable up to scheduling.
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    // What each worker is doing: case index plus one, and since when.
    let slots: Vec<(AtomicU64, AtomicU64)> = (0..workers).map(|_| Default::default()).collect();
    let running = AtomicU64::new(workers as u64);
    std::thread::scope(|scope| {
        scope.spawn(|| {
            let parent = std::os::unix::process::parent_id();
            let mut stalls = 0;
            while running.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                if std::os::unix::process::parent_id() != parent {
                    // Nobody is waiting for the answer any more.
                    let _ = std::fs::remove_file(status_path(std::process::id()));
                    std::process::exit(2);
                }
                let now = start.elapsed().as_millis() as u64;
                for (case, since) in &slots {
                    let (i, t) = (case.load(Ordering::SeqCst), since.load(Ordering::SeqCst));
                    if i != 0 && now.saturating_sub(t) > 1000 * allowance(i - 1).0 {
                        if let Err(what) = one_apart(prop.id, i - 1, seed) {
                            let _ = std::fs::remove_file(status_path(std::process::id()));
                            report_unfinished(prop, i - 1, &what);
                            std::process::exit(1);
                        }
                        // The machine is slow; it ends on its own.
                        if case.load(Ordering::SeqCst) == i {
                            stalls += 1;
                            if stalls > 3 {
                                eprintln!("{}: case {} did not end here, but does on its own", prop.id, i - 1);
                                let _ = std::fs::remove_file(status_path(std::process::id()));
                                std::process::exit(2);
                            }
                            since.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                        }
                    }
                }
            }
        });
        for (w, slot) in slots.iter().enumerate() {
            let (status, running, next, stop, failure, totals) = (&status, &running, &next, &stop, &failure, &totals);
            let (start, cases, deadline) = (&start, cases, deadline);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(scope, move || {
                    let mut t = Totals {
                        evaluations: 0,
                        seen: HashSet::new(),
                        hits: BTreeMap::new(),
                        samples: Vec::new(),
                        choices: 0,
                        max_choices: 0,
                    };
                    'outer: loop {
                        let lo = next.fetch_add(64, Ordering::SeqCst);
                        if lo >= cases || stop.load(Ordering::SeqCst) || start.elapsed() > deadline {
                            break;
                        }
                        for index in lo..(lo + 64).min(cases) {
                            let mut s = Src::random(base, index);
                            // Write out a few cases spread over the run.
                            let sample = index == 3 || index == cases / 3 || index == cases / 2 || index == cases - 1;
                            s.want_note = sample;
                            slot.1.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                            slot.0.store(index + 1, Ordering::SeqCst);
                            let _ = status.write_at(&(index + 1).to_le_bytes(), 8 * w as u64);
                            let r = exec(prop.run, &mut s);
                            slot.0.store(0, Ordering::SeqCst);
                            t.evaluations += 1;
                            t.choices += s.rec.len() as u64;
                            t.max_choices = t.max_choices.max(s.rec.len() as u64);
                            for (k, v) in &s.hits {
                                *t.hits.entry(k).or_insert(0) += v;
                            }
                            if s.nontrivial {
                                t.seen.insert(hash_tape(&s.rec, index));
                            }
                            if sample {
                                t.samples.push((index, s.notes.join(" | ")));
                            }
                            if let Err(e) = r {
                                stop.store(true, Ordering::SeqCst);
                                let mut f = failure.lock().unwrap();
                                if f.as_ref().map_or(true, |x| index < x.0) {
                                    *f = Some((index, s.rec.clone(), e));
                                }
                                break 'outer;
                            }
                        }
                    }
                    running.fetch_sub(1, Ordering::SeqCst);
                    let mut g = totals.lock().unwrap();
                    g.evaluations += t.evaluations;
                    g.choices += t.choices;
                    g.max_choices = g.max_choices.max(t.max_choices);
                    g.seen.extend(t.seen);
                    for (k, v) in t.hits {
                        *g.hits.entry(k).or_insert(0) += v;
                    }
                    g.samples.extend(t.samples);
                })
                .unwrap();
        }
    });
    let mut totals = totals.into_inner().unwrap();
    totals.samples.sort();
    let failure = failure.into_inner().unwrap();

    let mut code = 0;
    let mut violations = 0;
    if let Some((index, tape, first)) = failure {
        violations = 1;
        code = 1;
        // Shrinking needs the big stack as well.
        let run = prop.run;
        let orig_len = tape.len();
        let budget = std::env::var("VERIF_SHRINK_S").ok().and_then(|s| s.parse().ok()).unwrap_or(20);
        let (tx, rx) = std::sync::mpsc::channel();
        let whole = tape.clone();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let (small, msg) = shrink(run, tape, index, Duration::from_secs(budget));
                let mut s = Src::replay(small.clone(), index);
                s.want_note = true;
                let _ = exec(run, &mut s);
                let _ = tx.send((small, msg, s.notes.join("\n        ")));
            })
            .unwrap();
        // A smaller case may hang; then the unshrunk one is reported.
        let (small, msg, notes) =
            rx.recv_timeout(STUCK).unwrap_or_else(|_| (whole, first.clone(), String::new()));
        let dir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{:016x}.replay", prop.id, hash_tape(&small, index));
        let body = format!(
            "property: {}\nindex: {}\n{}choices: {}\n\n# seed {} tier {} ({} choices shrunk to {})\n# first failure: {}\n# shrunk failure: {}\n# case:   {}\n",
            prop.id,
            index,
            if crate::lits::get().on { "literals: new ones\n" } else { "" },
            small.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "),
            seed, tier, orig_len, small.len(),
            first.replace('\n', "\n# "), msg.replace('\n', "\n# "), notes.replace('\n', "\n# "),
        );
        std::fs::write(&path, body).expect("write replay");
        println!("{}: {}", prop.id, msg);
        if !notes.is_empty() {
            println!("  case: {notes}");
        }
        println!("VIOLATION property={} replay={}", prop.id, path);
    } else {
        for l in prop.must_hit {
            if totals.hits.get(l).copied().unwrap_or(0) == 0 {
                eprintln!("{}: generator never reached {l:?}", prop.id);
                code = 2;
            }
        }
    }

    let hits: Vec<String> =
        totals.hits.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let samples: Vec<String> = totals
        .samples
        .iter()
        .map(|(i, s)| json_str(&format!("case {i}: {s}")))
        .collect();
    let assumptions: Vec<String> = prop.assumptions.iter().map(|s| json_str(s)).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"choices_drawn\": {},\n  \"longest_case_choices\": {},\n  \"operations_exercised\": {},\n  \"operation_hits\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(prop.id), json_str(tier), seed,
        totals.evaluations, totals.seen.len(), json_str(prop.rule),
        totals.choices, totals.max_choices, totals.hits.len(), hits.join(", "),
        samples.join(", "), assumptions.join(", "),
        start.elapsed().as_secs_f64(), violations,
    );
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", prop.id), ev).expect("write evidence");
    if code == 0 {
        println!(
            "{}: held on {} cases ({} distinct non-trivial) in {:.1}s",
            prop.id, totals.evaluations, totals.seen.len(), start.elapsed().as_secs_f64()
        );
    }
    code
}
