use crate::src::{hash_words, mix, Src};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::os::unix::io::RawFd;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Fail {
    /// stable identification of the failure class (used by known findings and while shrinking)
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($arg:tt)*) => {
        if !($c) {
            return Err($crate::driver::Fail { sig: $sig.to_string(), msg: format!($($arg)*) });
        }
    };
}

pub struct Ctx {
    pub nontrivial: bool,
    pub labels: BTreeMap<String, u64>,
    pub desc: String,
    pub want_desc: bool,
    pub extra_evals: u64,
    pub thorough: bool,
}
impl Ctx {
    pub fn label(&mut self, s: &str) {
        if let Some(v) = self.labels.get_mut(s) {
            *v += 1;
        } else {
            self.labels.insert(s.to_string(), 1);
        }
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            self.desc = f();
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// cases per child process
    pub chunk: u64,
    /// watchdog for one chunk (inconclusive => error exit)
    pub timeout_s: u64,
    pub run: fn(&mut Src, &mut Ctx) -> R,
    /// hand-written inputs run before the generated ones, and the committed known findings
    pub fixed: &'static [(&'static str, fn(&mut Ctx) -> R)],
    pub assumptions: &'static [&'static str],
}

// ---------------------------------------------------------------- deterministic environment randomness
static ENV: AtomicU64 = AtomicU64::new(0);
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        let s = ENV.fetch_add(0x9E3779B97F4A7C15, Ordering::Relaxed);
        unsafe { *buf.add(i) = (mix(s) >> 17) as u8 };
    }
    len as isize
}
/// The getrandom crate asks through syscall(2) directly.
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut u8, b, c as u32) as libc::c_long;
    }
    let mut r = n;
    std::arch::asm!("syscall", inlateout("rax") r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}
/// Seeds everything in the process that asks the operating system for randomness (thread_rng, hash maps).
pub fn seed_env(v: u64) {
    ENV.store(mix(v ^ 0x5eed), Ordering::Relaxed);
}

static PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);
pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if let Ok(mut p) = PANIC.lock() {
            *p = Some((loc, msg));
        }
    }));
    std::alloc::set_alloc_error_hook(|_| unsafe { libc::_exit(77) });
}
pub fn take_panic() -> (String, String) {
    PANIC.lock().ok().and_then(|mut p| p.take()).unwrap_or_default()
}
/// Run library code; a panic becomes a failure.
pub fn guarded<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = take_panic();
            Err(Fail { sig: format!("panic:{what}"), msg: format!("{what} panicked at {loc}: {msg}") })
        }
    }
}

enum Kind<'a> {
    Seed(u64),
    Choices(&'a [u64]),
    Fixed(usize),
}
struct Outcome {
    res: R,
    rec: Vec<u64>,
    ctx: Ctx,
}

/// processor seconds a case may use (cases need milliseconds); a case that uses them up does not terminate
static CPU_LIMIT: AtomicU64 = AtomicU64::new(30);
fn arm(secs: u64) {
    unsafe {
        let it = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: secs as _, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_PROF, &it, std::ptr::null_mut());
    }
}

fn exec(p: &Prop, k: Kind, want_desc: bool, thorough: bool) -> Outcome {
    arm(CPU_LIMIT.load(Ordering::Relaxed));
    let mut src = match k {
        Kind::Seed(s) => Src::random(s),
        Kind::Choices(c) => Src::replay(c.to_vec()),
        Kind::Fixed(_) => Src::replay(vec![]),
    };
    let mut ctx = Ctx {
        nontrivial: false,
        labels: BTreeMap::new(),
        desc: String::new(),
        want_desc,
        extra_evals: 0,
        thorough,
    };
    // code that draws random numbers or walks hash maps runs in a thread of its own, so that nothing it
    // keeps per thread depends on the cases before it
    let own_thread = p.id.starts_with('P') || p.id == "T05" || p.id == "T06";
    seed_env(if own_thread && !matches!(k, Kind::Fixed(_)) { src.bits(16) } else { 0 });
    let mut go = || {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match k {
            Kind::Fixed(i) => (p.fixed[i].1)(&mut ctx),
            _ => (p.run)(&mut src, &mut ctx),
        }))
    };
    let res = if own_thread {
        std::thread::scope(|sc| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, &mut go).unwrap().join().unwrap())
    } else {
        go()
    };
    arm(0);
    let res = match res {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = take_panic();
            Err(Fail { sig: "panic".into(), msg: format!("panic at {loc}: {msg}") })
        }
    };
    Outcome { res, rec: src.rec, ctx }
}

// ---------------------------------------------------------------- child processes
fn put_u64(v: &mut Vec<u8>, x: u64) {
    v.extend_from_slice(&x.to_le_bytes());
}
fn put_str(v: &mut Vec<u8>, s: &str) {
    put_u64(v, s.len() as u64);
    v.extend_from_slice(s.as_bytes());
}
struct Rd<'a>(&'a [u8], usize);
impl<'a> Rd<'a> {
    fn u64(&mut self) -> Option<u64> {
        let s = self.0.get(self.1..self.1 + 8)?;
        self.1 += 8;
        Some(u64::from_le_bytes(s.try_into().unwrap()))
    }
    fn str(&mut self) -> Option<String> {
        let n = self.u64()? as usize;
        let s = self.0.get(self.1..self.1 + n)?;
        self.1 += n;
        Some(String::from_utf8_lossy(s).into_owned())
    }
}

#[derive(Default)]
struct ChunkRes {
    evals: u64,
    nontrivial: Vec<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    fails: Vec<(u64, Fail, Vec<u64>)>, // case index, failure, choices
}

fn encode(r: &ChunkRes) -> Vec<u8> {
    let mut v = vec![];
    put_u64(&mut v, r.evals);
    put_u64(&mut v, r.nontrivial.len() as u64);
    for &h in &r.nontrivial {
        put_u64(&mut v, h);
    }
    put_u64(&mut v, r.labels.len() as u64);
    for (k, n) in &r.labels {
        put_str(&mut v, k);
        put_u64(&mut v, *n);
    }
    put_u64(&mut v, r.samples.len() as u64);
    for s in &r.samples {
        put_str(&mut v, s);
    }
    put_u64(&mut v, r.fails.len() as u64);
    for (i, f, rec) in &r.fails {
        put_u64(&mut v, *i);
        put_str(&mut v, &f.sig);
        put_str(&mut v, &f.msg);
        put_u64(&mut v, rec.len() as u64);
        for &x in rec {
            put_u64(&mut v, x);
        }
    }
    put_u64(&mut v, 0xC0FFEE);
    v
}
fn decode(b: &[u8]) -> Option<ChunkRes> {
    let mut d = Rd(b, 0);
    let mut r = ChunkRes::default();
    r.evals = d.u64()?;
    for _ in 0..d.u64()? {
        r.nontrivial.push(d.u64()?);
    }
    for _ in 0..d.u64()? {
        let k = d.str()?;
        r.labels.insert(k, d.u64()?);
    }
    for _ in 0..d.u64()? {
        r.samples.push(d.str()?);
    }
    for _ in 0..d.u64()? {
        let i = d.u64()?;
        let sig = d.str()?;
        let msg = d.str()?;
        let n = d.u64()?;
        let mut rec = vec![];
        for _ in 0..n {
            rec.push(d.u64()?);
        }
        r.fails.push((i, Fail { sig, msg }, rec));
    }
    if d.u64()? != 0xC0FFEE {
        return None;
    }
    Some(r)
}

pub struct Child {
    pid: i32,
    fd: RawFd,
    buf: Vec<u8>,
    start: Instant,
}
enum End {
    Ok(Vec<u8>),
    Signal(i32),
    Exit(i32),
    Timeout,
}

fn spawn(f: impl FnOnce() -> Vec<u8>) -> Child {
    unsafe {
        let mut fds = [0i32; 2];
        assert!(libc::pipe(fds.as_mut_ptr()) == 0);
        let _ = std::io::stdout().flush();
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            // keep library output away from the protocol on stdout
            let dn = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            libc::dup2(dn, 1);
            if std::env::var_os("VH_STDERR").is_none() {
                libc::dup2(dn, 2);
            }
            let out = f();
            let mut off = 0;
            while off < out.len() {
                let n = libc::write(fds[1], out[off..].as_ptr() as *const _, out.len() - off);
                if n <= 0 {
                    libc::_exit(78);
                }
                off += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        Child { pid, fd: fds[0], buf: vec![], start: Instant::now() }
    }
}
impl Child {
    /// reads what is available; true at end of file
    fn pump(&mut self) -> bool {
        let mut tmp = vec![0u8; 1 << 16];
        let n = unsafe { libc::read(self.fd, tmp.as_mut_ptr() as *mut _, tmp.len()) };
        if n > 0 {
            self.buf.extend_from_slice(&tmp[..n as usize]);
            false
        } else {
            n == 0
        }
    }
    fn finish(self, killed: bool) -> End {
        unsafe {
            if killed {
                libc::kill(self.pid, libc::SIGKILL);
            }
            let mut st = 0;
            libc::waitpid(self.pid, &mut st, 0);
            libc::close(self.fd);
            if killed {
                End::Timeout
            } else if libc::WIFSIGNALED(st) {
                End::Signal(libc::WTERMSIG(st))
            } else if libc::WEXITSTATUS(st) != 0 {
                End::Exit(libc::WEXITSTATUS(st))
            } else {
                End::Ok(self.buf)
            }
        }
    }
    fn wait(mut self, timeout: Duration) -> End {
        loop {
            let left = timeout.checked_sub(self.start.elapsed());
            let Some(left) = left else { return self.finish(true) };
            let mut pf = libc::pollfd { fd: self.fd, events: libc::POLLIN, revents: 0 };
            unsafe { libc::poll(&mut pf, 1, left.as_millis() as i32 + 1) };
            if pf.revents != 0 && self.pump() {
                return self.finish(false);
            }
        }
    }
}

fn crash_fail(sig: i32) -> Fail {
    if sig == libc::SIGPROF {
        return Fail { sig: "hang".into(), msg: "the case did not end within its processor time (cases take milliseconds)".into() };
    }
    Fail { sig: format!("crash:signal{sig}"), msg: format!("the process was killed by signal {sig} (stack overflow, abort or memory fault)") }
}

fn memory_fail() -> Fail {
    Fail { sig: "memory".into(), msg: "the case asked for more than 3 GB of memory".into() }
}

/// run one case in a child
fn eval_one(p: &Prop, choices: &[u64], want_desc: bool, thorough: bool, timeout: Duration) -> (Option<R>, Vec<u64>, String) {
    let c = spawn(|| {
        let o = exec(p, Kind::Choices(choices), want_desc, thorough);
        let mut r = ChunkRes::default();
        if let Err(f) = o.res {
            r.fails.push((0, f, o.rec));
        } else {
            r.fails.push((1, Fail { sig: String::new(), msg: String::new() }, o.rec));
        }
        r.samples.push(o.ctx.desc);
        encode(&r)
    });
    match c.wait(timeout) {
        End::Ok(b) => match decode(&b) {
            Some(r) => {
                let (ok, f, rec) = r.fails[0].clone();
                (Some(if ok == 1 { Ok(()) } else { Err(f) }), rec, r.samples[0].clone())
            }
            None => (None, vec![], String::new()),
        },
        End::Signal(s) => (Some(Err(crash_fail(s))), choices.to_vec(), String::new()),
        End::Exit(77) => (Some(Err(memory_fail())), choices.to_vec(), String::new()),
        _ => (None, vec![], String::new()),
    }
}

fn shrink(p: &Prop, start: Vec<u64>, f0: &Fail, thorough: bool) -> (Vec<u64>, Fail) {
    let t0 = Instant::now();
    let budget = Duration::from_secs(45);
    let mut best = start;
    let mut bf = f0.clone();
    let case_to = Duration::from_secs(40);
    // probe with little time; what is kept is confirmed with the full allowance at the end
    CPU_LIMIT.store(2, Ordering::Relaxed);
    let original = (best.clone(), bf.clone());
    let mut evals = 0;
    let mut try_it = |cand: &[u64], best: &mut Vec<u64>, bf: &mut Fail| -> bool {
        if t0.elapsed() > budget || evals > 4000 {
            return false;
        }
        evals += 1;
        let (r, rec, _) = eval_one(p, cand, false, thorough, case_to);
        if let Some(Err(f)) = r {
            if f.sig == f0.sig {
                let rec = if rec.len() <= cand.len() { rec } else { cand.to_vec() };
                if rec.len() < best.len() || (rec.len() == best.len() && rec < *best) {
                    *best = rec;
                    *bf = f;
                    return true;
                }
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete blocks
        let mut k = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                c.drain(i..(i + k).min(best.len()));
                if !try_it(&c, &mut best, &mut bf) {
                    i += k;
                }
                if t0.elapsed() > budget {
                    break;
                }
            }
            if k == 1 || t0.elapsed() > budget {
                break;
            }
            k /= 2;
        }
        // delete a block while lowering an earlier count
        // zero blocks
        let mut k = 8.min(best.len().max(1));
        loop {
            let mut i = 0;
            while i < best.len() {
                let e = (i + k).min(best.len());
                if best[i..e].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..e] {
                        *x = 0;
                    }
                    try_it(&c, &mut best, &mut bf);
                }
                i += k;
            }
            if k == 1 || t0.elapsed() > budget {
                break;
            }
            k /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() && t0.elapsed() <= budget {
            let mut lo = 0u64;
            while i < best.len() && best[i] > lo {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !try_it(&c, &mut best, &mut bf) {
                    // also: lower the value and drop the following element (counts)
                    lo = mid + 1;
                }
                if t0.elapsed() > budget {
                    break;
                }
            }
            if i < best.len() && best[i] > 0 && i + 1 < best.len() {
                for d in 1..=4usize {
                    if i + 1 + d <= best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.drain(best.len() - d..);
                        if try_it(&c, &mut best, &mut bf) {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || t0.elapsed() > budget {
            break;
        }
    }
    CPU_LIMIT.store(30, Ordering::Relaxed);
    if f0.sig == "hang" || f0.sig == "memory" {
        match eval_one(p, &best, false, thorough, Duration::from_secs(90)).0 {
            Some(Err(f)) if f.sig == f0.sig => {}
            _ => return original,
        }
    }
    (best, bf)
}

// ---------------------------------------------------------------- reporting
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Known {
    pub property: String,
    pub sig: String,
    pub what: String,
}
fn load_known(root: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{root}/known-findings.txt")) {
        for l in t.lines() {
            // open: property=<id> sig=<signature> -- <what fails>
            if let Some(rest) = l.strip_prefix("open: property=") {
                let mut it = rest.splitn(2, " sig=");
                let property = it.next().unwrap_or("").trim().to_string();
                let tail = it.next().unwrap_or("");
                let mut it = tail.splitn(2, " -- ");
                let sig = it.next().unwrap_or("").trim().to_string();
                let what = it.next().unwrap_or("").trim().to_string();
                v.push(Known { property, sig, what });
            }
        }
    }
    v
}

fn write_replay(root: &str, p: &Prop, choices: Option<&[u64]>, fixed: Option<&str>, f: &Fail, desc: &str) -> String {
    let dir = format!("{root}/replay");
    let _ = std::fs::create_dir_all(&dir);
    let h = choices.map(hash_words).unwrap_or(0);
    let name = match fixed {
        Some(n) => format!("{dir}/{}-fixed-{n}.json", p.id),
        None => format!("{dir}/{}-{h:016x}.json", p.id),
    };
    let mut t = String::from("{\n");
    t.push_str(&format!(" \"property\": {},\n", jstr(p.id)));
    if let Some(n) = fixed {
        t.push_str(&format!(" \"fixed\": {},\n", jstr(n)));
    }
    if let Some(c) = choices {
        t.push_str(&format!(" \"choices\": [{}],\n", c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
    }
    t.push_str(&format!(" \"signature\": {},\n \"message\": {},\n \"case\": {},\n", jstr(&f.sig), jstr(&f.msg), jstr(desc)));
    t.push_str(&format!(" \"replay_cmd\": {}\n}}\n", jstr(&format!("/verif/check.sh {} --replay {}", p.id, name))));
    let _ = std::fs::write(&name, t);
    name
}

pub struct Opts {
    pub root: String,
    pub thorough: bool,
    pub seed: u64,
    pub cases: Option<u64>,
    pub keep_going: bool,
}

/// exit code
pub fn run_prop(p: &Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let total = o.cases.unwrap_or(if o.thorough { p.thorough } else { p.quick });
    let known: Vec<Known> = load_known(&o.root).into_iter().filter(|k| k.property == p.id).collect();
    let pid_hash = hash_words(&p.id.bytes().map(|b| b as u64).collect::<Vec<_>>());
    let case_seed = |i: u64| mix(mix(o.seed ^ pid_hash).wrapping_add(mix(i.wrapping_mul(0x2545F4914F6CDD1D) ^ pid_hash)));
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut evals = 0u64;
    let mut nontriv: BTreeSet<u64> = BTreeSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut fails: Vec<(u64, Fail, Vec<u64>)> = vec![];
    let mut errors: Vec<String> = vec![];
    let to = Duration::from_secs(p.timeout_s);

    // fixed inputs
    let mut fixed_fail: Option<(String, Fail, String)> = None;
    for (i, (name, _)) in p.fixed.iter().enumerate() {
        let c = spawn(|| {
            let out = exec(p, Kind::Fixed(i), true, o.thorough);
            let mut r = ChunkRes::default();
            r.evals = 1 + out.ctx.extra_evals;
            if out.ctx.nontrivial {
                r.nontrivial.push(mix(0xf1f1 ^ i as u64));
            }
            r.labels = out.ctx.labels;
            r.samples.push(out.ctx.desc);
            if let Err(f) = out.res {
                r.fails.push((0, f, vec![]));
            }
            encode(&r)
        });
        let f = match c.wait(to) {
            End::Ok(b) => match decode(&b) {
                Some(r) => {
                    evals += r.evals;
                    nontriv.extend(r.nontrivial);
                    for (k, n) in r.labels {
                        *labels.entry(k).or_insert(0) += n;
                    }
                    r.fails.into_iter().next().map(|x| (x.1, r.samples.into_iter().next().unwrap_or_default()))
                }
                None => {
                    errors.push(format!("fixed case {name}: bad result"));
                    None
                }
            },
            End::Signal(s) => Some((crash_fail(s), String::new())),
            End::Exit(77) => Some((memory_fail(), String::new())),
            End::Exit(c) => {
                errors.push(format!("fixed case {name}: exit {c}"));
                None
            }
            End::Timeout => {
                errors.push(format!("fixed case {name}: no answer in {} s", p.timeout_s));
                None
            }
        };
        if let Some((f, d)) = f {
            let fsig = format!("fixed:{name}:{}", f.sig);
            if known.iter().any(|k| k.sig == fsig || k.sig == f.sig) {
                *known_hit.entry(if known.iter().any(|k| k.sig == fsig) { fsig } else { f.sig.clone() }).or_insert(0) += 1;
            } else if fixed_fail.is_none() {
                fixed_fail = Some((name.to_string(), f, d));
            }
        }
    }

    let workers = std::env::var("VH_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
    });
    // shared progress counters, so that a crashing case can be named
    let shm = unsafe {
        let m = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(m != libc::MAP_FAILED);
        m as *mut u64
    };
    let n_chunks = total.div_ceil(p.chunk);
    // (first case, end, slot)
    let mut next = 0u64;
    let mut requeue: Vec<(u64, u64)> = vec![];
    let mut running: Vec<(Child, u64, u64, usize)> = vec![];
    let mut slots: Vec<usize> = (0..workers.min(256)).rev().collect();
    let mut stop = fixed_fail.is_some();
    let mut done_cases = 0u64;
    let known_sigs: BTreeSet<String> = known.iter().map(|k| k.sig.clone()).collect();
    loop {
        while !stop && !slots.is_empty() && (next < n_chunks || !requeue.is_empty()) {
            let (a, b) = if let Some(r) = requeue.pop() {
                r
            } else {
                let a = next * p.chunk;
                next += 1;
                (a, (a + p.chunk).min(total))
            };
            let slot = slots.pop().unwrap();
            unsafe { shm.add(slot).write_volatile(a) };
            let thorough = o.thorough;
            let ks = &known_sigs;
            let c = spawn(|| {
                let mut r = ChunkRes::default();
                for i in a..b {
                    unsafe { shm.add(slot).write_volatile(i) };
                    let want = i < 4;
                    let out = exec(p, Kind::Seed(case_seed(i)), want, thorough);
                    r.evals += 1 + out.ctx.extra_evals;
                    if out.ctx.nontrivial {
                        r.nontrivial.push(hash_words(&out.rec));
                    }
                    for (k, n) in out.ctx.labels {
                        *r.labels.entry(k).or_insert(0) += n;
                    }
                    if want {
                        r.samples.push(out.ctx.desc);
                    }
                    if let Err(f) = out.res {
                        let is_known = ks.contains(&f.sig);
                        r.fails.push((i, f, out.rec));
                        if !is_known {
                            break;
                        }
                    }
                }
                encode(&r)
            });
            running.push((c, a, b, slot));
        }
        if running.is_empty() {
            break;
        }
        let mut pfs: Vec<libc::pollfd> =
            running.iter().map(|c| libc::pollfd { fd: c.0.fd, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(pfs.as_mut_ptr(), pfs.len() as u64, 1000) };
        let mut i = 0;
        let mut k = 0;
        while i < running.len() {
            let rev = pfs[k].revents;
            k += 1;
            let mut ended = None;
            if rev != 0 && running[i].0.pump() {
                ended = Some(false);
            } else if running[i].0.start.elapsed() > to {
                ended = Some(true);
            }
            if let Some(killed) = ended {
                let (c, a, b, slot) = running.remove(i);
                slots.push(slot);
                match c.finish(killed) {
                    End::Ok(buf) => match decode(&buf) {
                        Some(r) => {
                            evals += r.evals;
                            done_cases += b - a;
                            nontriv.extend(r.nontrivial);
                            for (k, n) in r.labels {
                                *labels.entry(k).or_insert(0) += n;
                            }
                            samples.extend(r.samples);
                            for (i, f, rec) in r.fails {
                                if known_sigs.contains(&f.sig) {
                                    *known_hit.entry(f.sig.clone()).or_insert(0) += 1;
                                } else {
                                    if o.keep_going {
                                        println!("FAIL case={i} sig={} {}", f.sig, f.msg.lines().next().unwrap_or(""));
                                        *labels.entry(format!("FAIL {}", f.sig)).or_insert(0) += 1;
                                        if i + 1 < b {
                                            requeue.push((i + 1, b));
                                        }
                                    } else {
                                        stop = true;
                                    }
                                    fails.push((i, f, rec));
                                }
                            }
                        }
                        None => errors.push(format!("chunk {a}..{b}: bad result")),
                    },
                    end @ (End::Signal(_) | End::Exit(77)) => {
                        let at = unsafe { shm.add(slot).read_volatile() };
                        let s = if let End::Signal(s) = end { s } else { 0 };
                        if s == libc::SIGKILL {
                            errors.push(format!("case {at}: killed (out of memory?)"));
                            stop = true;
                        } else {
                            let f = if s == 0 { memory_fail() } else { crash_fail(s) };
                            if o.keep_going {
                                println!("FAIL case={at} sig={}", f.sig);
                                if at + 1 < b {
                                    requeue.push((at + 1, b));
                                }
                            }
                            if known_sigs.contains(&f.sig) {
                                *known_hit.entry(f.sig.clone()).or_insert(0) += 1;
                            } else {
                                fails.push((at, f, vec![]));
                                if !o.keep_going {
                                    stop = true;
                                }
                            }
                        }
                    }
                    End::Exit(c) => {
                        let at = unsafe { shm.add(slot).read_volatile() };
                        errors.push(format!("case {at}: exit {c}"));
                        stop = true;
                    }
                    End::Timeout => {
                        let at = unsafe { shm.add(slot).read_volatile() };
                        errors.push(format!("case {at}: no answer in {} s", p.timeout_s));
                        if o.keep_going {
                            if at + 1 < b {
                                requeue.push((at + 1, b));
                            }
                        } else {
                            stop = true;
                        }
                    }
                }
            } else {
                i += 1;
            }
        }
    }
    let _ = done_cases;

    for k in &known {
        if known_hit.contains_key(&k.sig) {
            println!("KNOWN-FINDING: property={} {} [{}; {} case(s) this run]", p.id, k.what, k.sig, known_hit[&k.sig]);
        }
    }
    let mut violations = 0;
    let mut code = 0;
    if let Some((name, f, d)) = fixed_fail {
        let path = write_replay(&o.root, p, None, Some(&name), &f, &d);
        println!("violated by the fixed input {name}: {}", f.msg);
        println!("VIOLATION property={} replay={}", p.id, path);
        violations += 1;
        code = 1;
    }
    if let Some((i, f, rec)) = fails.iter().min_by_key(|x| x.0).cloned() {
        if !o.keep_going {
            // crashed cases have no record: regenerate the choices without running the library is not
            // possible, so replay them from the seed by recording in a child that may crash again
            let rec = if rec.is_empty() { record_choices(p, case_seed(i), o.thorough) } else { rec };
            let (small, sf) = shrink(p, rec.clone(), &f, o.thorough);
            let (_, _, desc) = eval_one(p, &small, true, o.thorough, Duration::from_secs(60));
            let path = write_replay(&o.root, p, Some(&small), None, &sf, &desc);
            println!("case {i} (seed {}) failed: {}", o.seed, f.msg);
            println!("shrunk from {} to {} choices: {}", rec.len(), small.len(), sf.msg);
            println!("{desc}");
            println!("VIOLATION property={} replay={}", p.id, path);
        }
        violations += fails.len() as u64;
        code = 1;
    }
    if !errors.is_empty() && code == 0 {
        for e in &errors {
            println!("ERROR {e}");
        }
        code = 2;
    }
    // evidence
    samples.truncate(4);
    let wall = t0.elapsed().as_secs_f64();
    let lab: Vec<String> = labels.iter().map(|(k, n)| format!("{}: {}", jstr(k), n)).collect();
    let kn: Vec<String> = known_hit.iter().map(|(k, n)| format!("{}: {}", jstr(k), n)).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"labels\": {{{}}},\n  \"known_finding_hits\": {{{}}},\n  \"fixed_inputs\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        jstr(p.id),
        jstr(if o.thorough { "thorough" } else { "quick" }),
        o.seed,
        evals,
        nontriv.len(),
        jstr(p.rule),
        samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        lab.join(", "),
        kn.join(", "),
        p.fixed.len(),
        p.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        wall,
        violations
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", o.root));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", o.root, p.id), ev) {
        println!("ERROR cannot write evidence: {e}");
        code = code.max(2);
    }
    println!(
        "{}: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s, exit {}",
        p.id,
        total,
        evals,
        nontriv.len(),
        wall,
        code
    );
    for (k, n) in &labels {
        println!("   {n:>9}  {k}");
    }
    code
}

/// Re-generates a crashing case's choices: the child streams every draw through shared memory.
fn record_choices(p: &Prop, seed: u64, thorough: bool) -> Vec<u64> {
    const CAP: usize = 1 << 22;
    let shm = unsafe {
        let m = libc::mmap(
            std::ptr::null_mut(),
            (CAP + 1) * 8,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        m as *mut u64
    };
    // draw generously: the choice values depend only on (seed, bound), so a crash-prone case is replayed by
    // recording the choices as they are made
    crate::src::set_tap(shm, CAP);
    let c = spawn(|| {
        let _ = exec(p, Kind::Seed(seed), false, thorough);
        vec![]
    });
    let _ = c.wait(Duration::from_secs(120));
    crate::src::set_tap(std::ptr::null_mut(), 0);
    unsafe {
        let n = *shm as usize;
        let v = (0..n).map(|i| *shm.add(1 + i)).collect();
        libc::munmap(shm as *mut _, (CAP + 1) * 8);
        v
    }
}

pub fn replay(p: &Prop, path: &str, o: &Opts) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            println!("ERROR cannot read {path}: {e}");
            return 2;
        }
    };
    if let Some(i) = t.find("\"fixed\": \"") {
        let rest = &t[i + 10..];
        let name = &rest[..rest.find('"').unwrap_or(0)];
        for (j, (n, _)) in p.fixed.iter().enumerate() {
            if *n == name {
                let c = spawn(|| {
                    let out = exec(p, Kind::Fixed(j), true, o.thorough);
                    let mut r = ChunkRes::default();
                    r.samples.push(out.ctx.desc);
                    if let Err(f) = out.res {
                        r.fails.push((0, f, vec![]));
                    }
                    encode(&r)
                });
                return match c.wait(Duration::from_secs(p.timeout_s)) {
                    End::Ok(b) => match decode(&b) {
                        Some(r) if r.fails.is_empty() => {
                            println!("{name}: passes");
                            0
                        }
                        Some(r) => {
                            println!("{}\n{name}: {}", r.samples[0], r.fails[0].1.msg);
                            println!("VIOLATION property={} replay={}", p.id, path);
                            1
                        }
                        None => 2,
                    },
                    End::Signal(_) | End::Exit(77) => {
                        println!("{name}: does not end normally");
                        println!("VIOLATION property={} replay={}", p.id, path);
                        1
                    }
                    _ => 2,
                };
            }
        }
        println!("ERROR no such fixed input");
        return 2;
    }
    let Some(i) = t.find("\"choices\": [") else {
        println!("ERROR no choices in {path}");
        return 2;
    };
    let rest = &t[i + 12..];
    let list = &rest[..rest.find(']').unwrap_or(0)];
    let choices: Vec<u64> = list.split(',').filter_map(|s| s.trim().parse().ok()).collect();
    let (r, _, desc) = eval_one(p, &choices, true, o.thorough, Duration::from_secs(p.timeout_s));
    println!("{desc}");
    match r {
        Some(Ok(())) => {
            println!("the case passes");
            0
        }
        Some(Err(f)) => {
            println!("{}: {}", f.sig, f.msg);
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
        None => {
            println!("ERROR no answer");
            2
        }
    }
}
