//! Interface between harnesses and the symbolic executor.  Under `native` the same calls are
//! answered from a list of concrete values, which is how solver models are replayed.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn rsx_u8() -> u8;
        pub fn rsx_u16() -> u16;
        pub fn rsx_u32() -> u32;
        pub fn rsx_u64() -> u64;
        pub fn rsx_bit() -> bool;
        pub fn rsx_below(n: u64) -> u64;
        pub fn rsx_assume(b: bool);
        pub fn rsx_check(b: bool, p: *const u8, n: usize);
        pub fn rsx_reach(p: *const u8, n: usize);
        pub fn rsx_note(v: u64);
        pub fn rsx_pick(v: u64) -> u64;
        pub fn rsx_spawn(f: extern "C-unwind" fn(usize), a: usize) -> usize;
        pub fn rsx_join(t: usize);
        pub fn rsx_is_engine() -> u64;
        pub fn rsx_tid() -> usize;
        pub fn rsx_budget(v: u64);
        pub fn rsx_preempt(v: u64);
        pub fn rsx_mark(v: u64) -> u64;
        pub fn rsx_mark_get(i: u64) -> u64;
    }
    pub fn round() -> usize { 0 }
}

#[cfg(feature = "native")]
pub mod imp {
    use std::cell::RefCell;
    use std::sync::Mutex;
    pub struct Io { pub inputs: Vec<u64>, pub pos: usize, pub notes: Vec<u64>, pub reach: Vec<String> }
    pub static IO: Mutex<Io> = Mutex::new(Io { inputs: vec![], pos: 0, notes: vec![], reach: vec![] });
    fn next() -> u64 {
        let mut io = IO.lock().unwrap();
        let v = io.inputs.get(io.pos).copied().unwrap_or(0);
        io.pos += 1;
        v
    }
    pub unsafe fn rsx_u8() -> u8 { next() as u8 }
    pub unsafe fn rsx_u16() -> u16 { next() as u16 }
    pub unsafe fn rsx_u32() -> u32 { next() as u32 }
    pub unsafe fn rsx_u64() -> u64 { next() }
    pub unsafe fn rsx_bit() -> bool { next() & 1 == 1 }
    pub unsafe fn rsx_below(n: u64) -> u64 { if n <= 1 { 0 } else { let v = next(); if v >= n { std::process::exit(77) } v } }
    pub unsafe fn rsx_assume(b: bool) { if !b { println!("ASSUME"); std::process::exit(77) } }
    pub unsafe fn rsx_check(b: bool, p: *const u8, n: usize) {
        if !b {
            let l = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned();
            println!("CHECK-FAILED {}", l);
            finish();
            std::process::exit(70);
        }
    }
    pub unsafe fn rsx_reach(p: *const u8, n: usize) {
        let l = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned();
        IO.lock().unwrap().reach.push(l);
    }
    pub unsafe fn rsx_note(v: u64) { IO.lock().unwrap().notes.push(v) }
    pub unsafe fn rsx_pick(v: u64) -> u64 { v }
    thread_local!(static TID: RefCell<usize> = RefCell::new(0));
    static THREADS: Mutex<Vec<Option<std::thread::JoinHandle<()>>>> = Mutex::new(vec![]);
    pub unsafe fn rsx_spawn(f: extern "C-unwind" fn(usize), a: usize) -> usize {
        let mut t = THREADS.lock().unwrap();
        if t.is_empty() { t.push(None) }
        let id = t.len();
        t.push(Some(std::thread::spawn(move || { TID.with(|x| *x.borrow_mut() = id); f(a) })));
        id
    }
    pub unsafe fn rsx_join(t: usize) {
        let h = THREADS.lock().unwrap()[t].take();
        if let Some(h) = h { if h.join().is_err() { println!("PANIC in thread"); finish(); std::process::exit(71) } }
    }
    pub unsafe fn rsx_is_engine() -> u64 { 0 }
    pub unsafe fn rsx_budget(_: u64) {}
    pub unsafe fn rsx_preempt(_: u64) {}
    pub unsafe fn rsx_mark(_: u64) -> u64 { 0 }
    pub unsafe fn rsx_mark_get(_: u64) -> u64 { 0 }
    pub static ROUND: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    pub fn round() -> usize { ROUND.load(std::sync::atomic::Ordering::SeqCst) }
    pub unsafe fn rsx_tid() -> usize { TID.with(|x| *x.borrow()) }
    pub fn begin(vals: &[u64]) {
        let mut io = IO.lock().unwrap();
        *io = Io { inputs: vals.to_vec(), pos: 0, notes: vec![], reach: vec![] };
        THREADS.lock().unwrap().clear();
        unsafe { super::NDRAWS = 0; super::AGAIN = usize::MAX }
    }
    pub fn finish() {
        let io = IO.lock().unwrap_or_else(|p| p.into_inner());
        println!("\nNOTES {}", io.notes.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    }
}

pub fn u8() -> u8 { unsafe { imp::rsx_u8() } }
pub fn u16() -> u16 { unsafe { imp::rsx_u16() } }
pub fn u32() -> u32 { unsafe { imp::rsx_u32() } }
pub fn u64() -> u64 { unsafe { imp::rsx_u64() } }
pub fn bit() -> bool { unsafe { imp::rsx_bit() } }
/// arbitrary value below n
pub fn below(n: usize) -> usize { unsafe { imp::rsx_below(n as u64) as usize } }
/// arbitrary value below n, forked into one path per value
pub fn pick(n: usize) -> usize { unsafe { imp::rsx_pick(imp::rsx_below(n as u64)) as usize } }
pub fn concretize(n: usize) -> usize { unsafe { imp::rsx_pick(n as u64) as usize } }
pub fn assume(b: bool) { unsafe { imp::rsx_assume(b) } }
pub fn check(b: bool, l: &str) { unsafe { imp::rsx_check(b, l.as_ptr(), l.len()) } }
pub fn reach(l: &str) { unsafe { imp::rsx_reach(l.as_ptr(), l.len()) } }
/// as many preemptions as this, whatever the tier
pub fn preempt(n: u64) { unsafe { imp::rsx_preempt(n) } }
/// this harness may take that many instructions on a path before it counts as hanging
pub fn budget(n: u64) { unsafe { imp::rsx_budget(n) } }
pub fn note(v: u64) { unsafe { imp::rsx_note(v) } }
pub fn note_str(s: &str) {
    // order-sensitive digest of a string, so that paths can be compared with the native build
    note(s.len() as u64);
    for c in s.as_bytes().chunks(8) {
        let mut v = 0u64;
        for b in c.iter().rev() { v = v << 8 | *b as u64 }
        note(v);
    }
}
pub fn spawn(f: extern "C-unwind" fn(usize), a: usize) -> usize { unsafe { imp::rsx_spawn(f, a) } }
pub fn join(t: usize) { unsafe { imp::rsx_join(t) } }
pub fn is_engine() -> bool { unsafe { imp::rsx_is_engine() == 1 } }

/// n symbolic bytes that form valid UTF-8 (any code points)
pub fn utf8(n: usize) -> String {
    let b: Vec<u8> = (0..n).map(|_| u8()).collect();
    let ok = std::str::from_utf8(&b).is_ok();
    assume(ok);
    unsafe { String::from_utf8_unchecked(b) }
}
/// n symbolic bytes drawn from an alphabet
pub fn string_of(n: usize, alphabet: &[u8]) -> String {
    let mut s = String::with_capacity(n);
    for _ in 0..n { s.push(alphabet[pick(alphabet.len())] as char) }
    s
}

// ---- random draws -----------------------------------------------------------------------
pub static mut DRAWS: [u32; 64] = [0; 64];
pub static mut NDRAWS: usize = 0;
/// the next earlier draw to be repeated
static mut AGAIN: usize = usize::MAX;
fn draw() -> u32 {
    unsafe {
        if AGAIN < 64 && AGAIN < NDRAWS { AGAIN += 1; return DRAWS[AGAIN - 1] }
    }
    let v = u32();
    unsafe {
        if NDRAWS < 64 { DRAWS[NDRAWS] = v }
        NDRAWS += 1;
    }
    v
}
pub fn symbolic_rng() { rand::rngs::rsx_set_draw(draw); }
/// answer the following draws by those made since the `from`-th; further ones are arbitrary again
pub fn repeat_draws(from: usize) { unsafe { AGAIN = from } }
/// how many draws have been answered since the repetition started at `from`
pub fn repeated(from: usize) -> usize { unsafe { if AGAIN == usize::MAX { 0 } else { AGAIN - from } } }
pub fn ndraws() -> usize { unsafe { NDRAWS } }
pub fn draw_at(i: usize) -> u32 { unsafe { DRAWS[i] } }

/// native stress runs repeat a harness in one process; names made unique per round stay independent
pub fn round() -> usize { imp::round() }

// ---- floats -----------------------------------------------------------------------------
// Printing a float whose value is symbolic writes an opaque marker `@i@` (or `@i:p@` when a
// precision was asked for); `num` turns the text of a number, or a marker, back into its value.
#[no_mangle]
pub fn rsx_fmt_f64(v: &f64, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    let i = unsafe { imp::rsx_mark(v.to_bits()) };
    marker(i, f)
}
#[no_mangle]
pub fn rsx_fmt_f32(v: &f32, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    let i = unsafe { imp::rsx_mark((*v as f64).to_bits()) };
    marker(i, f)
}
fn marker(i: u64, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.write_str("@")?;
    f.write_str(&i.to_string())?;
    if let Some(p) = f.precision() {
        f.write_str(":")?;
        f.write_str(&p.to_string())?;
    }
    f.write_str("@")
}
pub fn num(s: &str) -> Option<f64> {
    let Some(m) = s.strip_prefix('@') else {
        if !s.is_empty() && s.len() < 16 && s.bytes().all(|c| c.is_ascii_digit()) { return Some(s.bytes().fold(0u64, |a, c| a * 10 + (c - b'0') as u64) as f64) }
        return s.parse().ok()
    };
    let m = m.strip_suffix('@')?;
    match m.split_once(':') {
        None => Some(f64::from_bits(unsafe { imp::rsx_mark_get(m.parse().ok()?) })),
        Some((i, p)) => {
            let v = f64::from_bits(unsafe { imp::rsx_mark_get(i.parse().ok()?) });
            let k = 10f64.powi(p.parse::<i32>().ok()?);
            Some((v * k).round() / k)
        }
    }
}
pub fn f64() -> f64 { f64::from_bits(u64()) }
pub fn f32() -> f32 { f32::from_bits(u32()) }
/// an arbitrary finite double of magnitude below 1e100
pub fn finite() -> f64 {
    let v = f64();
    assume(v.abs() < 1e100);
    v
}
/// a small dyadic coordinate k/4, -32 <= k/4 < 32: sums and differences of a few are exact
pub fn coord() -> f64 { (u8() as i8) as f64 / 4.0 }

#[macro_export]
macro_rules! harnesses {
    ($($name:ident => $body:expr;)*) => {
        $( #[no_mangle] pub extern "C-unwind" fn $name() { $body } )*
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name)),*];
    };
}
