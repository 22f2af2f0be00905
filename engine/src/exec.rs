//! Symbolic executor over the parsed IR.

use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::smt::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    E(Id),
    A(Rc<Vec<V>>),
}

#[derive(Clone)]
pub struct Frame {
    f: u32,
    blk: u32,
    ip: u32,
    prev: u32,
    regs: Vec<V>,
    allocas: Vec<u64>,
    dst: Option<u32>,
    normal: u32,
}

#[derive(Clone, PartialEq, Debug)]
enum Status { Run, Futex(u64), Join(usize), Done }

#[derive(Clone)]
struct Thread {
    frames: Vec<Rc<Frame>>,
    status: Status,
    stay: u16,          // > 0: spins through its pauses instead of handing over (the pauses seen so far)
    wake_val: Option<u64>,
}

#[derive(Clone)]
pub struct Input { pub var: Id, pub w: u32 }

#[derive(Clone)]
pub struct State {
    mem: Mem,
    threads: Vec<Thread>,
    cur: usize,
    pc: Vec<Id>,
    model: Rc<Model>,
    dec: Vec<u64>,
    dec_mark: usize,
    pc_mark: usize,
    replay: Vec<u64>,
    rpos: usize,
    seed: Rc<Vec<u128>>,
    inputs: Vec<Input>,
    notes: Vec<V>,
    marks: Vec<V>,
    reach: Vec<u32>,
    tls: Rc<HashMap<(u32, usize), u64>>,
    steps: u64,
    budget: u64,
    preempt: u32,
    sched_ok: bool,
    need_switch: bool,
    visible: u64,
    sched: Vec<u8>,
    depth_sym: u32,
    io: IoState,
}

#[derive(Clone, Default)]
pub struct IoState { pub out: Vec<V>, pub errno: u64 }

#[derive(Debug)]
pub enum Stop {
    Done,
    Infeasible,
    Violation(String, String),
    Err(String),
}

#[derive(Clone)]
pub struct Task { pub h: usize, pub prefix: Vec<u64>, pub seed: Vec<u128> }

#[derive(Clone, Debug)]
pub struct Viol { pub harness: String, pub kind: String, pub label: String, pub inputs: Vec<(u32, u128)>, pub notes: Vec<u64>, pub stack: Vec<String>, pub sched: Vec<u8> }

#[derive(Clone, Debug)]
pub struct Sample { pub harness: String, pub inputs: Vec<(u32, u128)>, pub notes: Vec<u64>, pub threads: usize }

#[derive(Default)]
pub struct HStat {
    pub paths: u64,
    pub infeasible: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub branches: u64,
    pub forks: u64,
    pub max_inputs: usize,
    pub reach: BTreeMap<String, u64>,
    pub time_ms: u64,
    pub schedules: u64,
}

pub struct Cfg {
    pub max_steps: u64,
    pub max_paths: u64,
    pub samples: usize,
    pub seed: u64,
    pub preempt: u32,
    pub deadline: std::time::Instant,
    pub timeout_ms: u32,
    pub trace: bool,
    pub all_violations: bool,
    pub concrete: Option<Vec<u128>>,
}

pub struct Shared {
    pub cfg: Cfg,
    pub m: Arc<Module>,
    pub harnesses: Vec<(String, u32)>,
    pub q: Mutex<VecDeque<Task>>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub workers: usize,
    pub stop: AtomicBool,
    pub viols: Mutex<Vec<Viol>>,
    pub first_viol: Mutex<Option<std::time::Instant>>,
    pub errs: Mutex<Vec<String>>,
    pub stats: Mutex<Vec<HStat>>,
    pub samples: Mutex<Vec<Sample>>,
    pub paths: AtomicU64,
    pub funcs: Mutex<BTreeSet<u32>>,
    pub smt: Mutex<(u64, u64, u64, u64, f64, f64)>,
    pub cache_hits: AtomicU64,
}

impl Shared {
    /// past the time bound, or a while after the first violation
    fn late(&self) -> bool {
        let now = std::time::Instant::now();
        now > self.cfg.deadline || matches!(*self.first_viol.lock().unwrap(), Some(t) if now > t + std::time::Duration::from_secs(15))
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum X {
    None, Nop, Memcpy, Memmove, Memset, Malloc, Calloc, Realloc, Free, PosixMemalign, Memcmp, Strlen,
    UMax, UMin, SMax, SMin, Abs, Ctlz, Cttz, Ctpop, Bswap, BitRev, Fshl, Fshr,
    USubSat, UAddSat, SAddSat, SSubSat, UAddO, USubO, UMulO, SAddO, SSubO, SMulO, UCmp, SCmp, Expect, IsConst,
    Trap, TlsAddr, Pause, Unwind, HashOne, Abort, Syscall, Errno, ZeroRet, GetRandom, Write,
    Fabs, Sqrt, Floor, Ceil, Truncf, Round, RoundEven, CopySign, MinNum, MaxNum, FpToSiSat, FpToUiSat, Minimum, Maximum, Fun(u8),
    RU8, RU16, RU32, RU64, RBit, RBelow, RAssume, RCheck, RReach, RNote, RPick, RSpawn, RJoin, RYield, RTid, RIsEngine, REnd, RFind, RLive, RBudget, RPreempt, RMark, RMarkGet, FmtF64, FmtF32,
    Unsupported,
}

pub struct Worker {
    pub a: Arena,
    pub smt: Smt,
    m: Arc<Module>,
    sh: Arc<Shared>,
    intr: Vec<X>,
    stack: Vec<State>,
    cache: FxMap<Vec<Id>, Option<Rc<Model>>>,
    funcs: Vec<bool>,
    labels: Vec<String>,
    label_ix: HashMap<String, u32>,
    cur_h: usize,
    st: HStat,
    memo: FxMap<Id, u128>,
    memo_model: Option<Rc<Model>>,
    base: Mem,
    pause_fn: bool,
    models: VecDeque<Rc<Model>>,
    sample_n: u64,
}

fn intr_of(n: &str, declared: bool) -> X {
    if n.contains("BuildHasher8hash_one") { return X::HashOne }
    if n.contains("7___rustc17rust_begin_unwind") || n.contains("rust_begin_unwind") { return X::Unwind }
    match n {
        "rsx_u8" => return X::RU8, "rsx_u16" => return X::RU16, "rsx_u32" => return X::RU32, "rsx_u64" => return X::RU64, "rsx_bit" => return X::RBit,
        "rsx_below" => return X::RBelow, "rsx_assume" => return X::RAssume, "rsx_check" => return X::RCheck, "rsx_reach" => return X::RReach,
        "rsx_note" => return X::RNote, "rsx_pick" => return X::RPick, "rsx_spawn" => return X::RSpawn, "rsx_join" => return X::RJoin, "rsx_yield" => return X::RYield,
        "rsx_tid" => return X::RTid, "rsx_is_engine" => return X::RIsEngine, "rsx_end" => return X::REnd, "rsx_find" => return X::RFind, "rsx_live" => return X::RLive,
        "rsx_budget" => return X::RBudget,
        "rsx_preempt" => return X::RPreempt,
        "rsx_mark" => return X::RMark, "rsx_mark_get" => return X::RMarkGet,
        _ => {}
    }
    if !declared { return X::None }
    let s = |p: &str| n.starts_with(p);
    if s("llvm.memcpy.") { return X::Memcpy }
    if s("llvm.memmove.") { return X::Memmove }
    if s("llvm.memset.") { return X::Memset }
    if s("llvm.lifetime") || s("llvm.experimental.noalias") || s("llvm.assume") || s("llvm.dbg") || s("llvm.donothing") || s("llvm.prefetch") || s("llvm.invariant") { return X::Nop }
    if s("llvm.umax.") { return X::UMax }
    if s("llvm.umin.") { return X::UMin }
    if s("llvm.smax.") { return X::SMax }
    if s("llvm.smin.") { return X::SMin }
    if s("llvm.abs.") { return X::Abs }
    if s("llvm.ctlz.") { return X::Ctlz }
    if s("llvm.cttz.") { return X::Cttz }
    if s("llvm.ctpop.") { return X::Ctpop }
    if s("llvm.bswap.") { return X::Bswap }
    if s("llvm.bitreverse.") { return X::BitRev }
    if s("llvm.fshl.") { return X::Fshl }
    if s("llvm.fshr.") { return X::Fshr }
    if s("llvm.usub.sat.") { return X::USubSat }
    if s("llvm.uadd.sat.") { return X::UAddSat }
    if s("llvm.sadd.sat.") { return X::SAddSat }
    if s("llvm.ssub.sat.") { return X::SSubSat }
    if s("llvm.uadd.with.overflow.") { return X::UAddO }
    if s("llvm.usub.with.overflow.") { return X::USubO }
    if s("llvm.umul.with.overflow.") { return X::UMulO }
    if s("llvm.sadd.with.overflow.") { return X::SAddO }
    if s("llvm.ssub.with.overflow.") { return X::SSubO }
    if s("llvm.smul.with.overflow.") { return X::SMulO }
    if s("llvm.ucmp.") { return X::UCmp }
    if s("llvm.scmp.") { return X::SCmp }
    if s("llvm.expect.") { return X::Expect }
    if s("llvm.is.constant") { return X::IsConst }
    if s("llvm.trap") || s("llvm.debugtrap") { return X::Trap }
    if s("llvm.threadlocal.address") { return X::TlsAddr }
    if s("llvm.x86.sse2.pause") { return X::Pause }
    if s("llvm.fabs.") { return X::Fabs }
    if s("llvm.sqrt.") { return X::Sqrt }
    if s("llvm.floor.") { return X::Floor }
    if s("llvm.ceil.") { return X::Ceil }
    if s("llvm.trunc.") { return X::Truncf }
    if s("llvm.round.") { return X::Round }
    if s("llvm.roundeven.") || s("llvm.rint.") || s("llvm.nearbyint.") { return X::RoundEven }
    if s("llvm.copysign.") { return X::CopySign }
    if s("llvm.minnum.") || s("llvm.minimumnum.") { return X::MinNum }
    if s("llvm.maxnum.") || s("llvm.maximumnum.") { return X::MaxNum }
    if s("llvm.minimum.") { return X::Minimum }
    if s("llvm.maximum.") { return X::Maximum }
    if let Some(f) = n.strip_prefix("llvm.") {
        let f = f.split('.').next().unwrap_or("");
        if let Some(k) = fun_of(if f == "fmuladd" { "fma" } else { f }) { return X::Fun(k as u8) }
    }
    if let Some(k) = fun_of(n).or_else(|| fun_of(n.strip_suffix('f').unwrap_or(""))) { return X::Fun(k as u8) }
    if s("llvm.fptosi.sat.") { return X::FpToSiSat }
    if s("llvm.fptoui.sat.") { return X::FpToUiSat }
    match n {
        "memcpy" => X::Memcpy, "memmove" => X::Memmove, "memset" => X::Memset,
        "malloc" => X::Malloc, "calloc" => X::Calloc, "realloc" => X::Realloc, "free" => X::Free, "posix_memalign" => X::PosixMemalign,
        "bcmp" | "memcmp" => X::Memcmp, "strlen" => X::Strlen,
        "abort" => X::Abort, "syscall" => X::Syscall, "__errno_location" => X::Errno,
        "getenv" | "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "sigaction" | "close" | "sched_yield" | "pthread_getspecific" | "isatty" | "ioctl" => X::ZeroRet,
        "getrandom" => X::GetRandom, "write" => X::Write,
        _ => X::Unsupported,
    }
}

macro_rules! merr { ($e:expr) => { match $e { Ok(v) => v, Err(MemErr::Bad(s)) => return Err(Stop::Violation("memory".into(), s)) } } }

type R<T> = Result<T, Stop>;

impl Worker {
    pub fn new(sh: Arc<Shared>, api: Api) -> Worker {
        let m = sh.m.clone();
        let intr = m.funcs.iter().map(|f| match f.pretty.as_str() {
            "<f64 as core::fmt::Display>::fmt" | "<f64 as core::fmt::Debug>::fmt" => X::FmtF64,
            "<f32 as core::fmt::Display>::fmt" | "<f32 as core::fmt::Debug>::fmt" => X::FmtF32,
            _ => intr_of(&f.name, f.declared),
        }).collect();
        let mut base = Mem::new();
        base.reserve(m.first_dyn());
        for (i, g) in m.globals.iter().enumerate() {
            base.put(i as u64 + 1, Obj { data: g.bytes.clone(), sym: vec![], ro: g.constant, heap: false });
        }
        let nf = m.funcs.len();
        let to = sh.cfg.timeout_ms;
        Worker {
            a: Arena::new(), smt: Smt::new(api, to), m, sh, intr, stack: vec![], cache: FxMap::default(), funcs: vec![false; nf],
            labels: vec![], label_ix: HashMap::new(), cur_h: 0, st: HStat::default(), memo: FxMap::default(), memo_model: None, base, pause_fn: false, models: VecDeque::new(), sample_n: 0,
        }
    }

    pub fn run_all(&mut self) {
        loop {
            let task = {
                let mut q = self.sh.q.lock().unwrap();
                loop {
                    if self.sh.stop.load(Ordering::Relaxed) { break None }
                    if let Some(t) = q.pop_front() { break Some(t) }
                    let idle = self.sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
                    if idle == self.sh.workers {
                        self.sh.cv.notify_all();
                        break None;
                    }
                    q = self.sh.cv.wait_timeout(q, std::time::Duration::from_millis(50)).unwrap().0; // `stop` may be set at any time
                    if self.sh.idle.load(Ordering::SeqCst) == self.sh.workers && q.is_empty() { break None }
                    self.sh.idle.fetch_sub(1, Ordering::SeqCst);
                }
            };
            let Some(t) = task else { break };
            self.run_task(t);
        }
        self.flush();
        let mut s = self.sh.smt.lock().unwrap();
        s.0 += self.smt.queries;
        s.1 += self.smt.sat;
        s.2 += self.smt.unsat;
        s.3 += self.smt.unknown;
        s.4 += self.smt.time.as_secs_f64();
        s.5 = s.5.max(self.smt.max_time.as_secs_f64());
        let mut f = self.sh.funcs.lock().unwrap();
        for (i, b) in self.funcs.iter().enumerate() { if *b { f.insert(i as u32); } }
    }

    fn flush(&mut self) {
        let s = std::mem::take(&mut self.st);
        let mut all = self.sh.stats.lock().unwrap();
        let d = &mut all[self.cur_h];
        d.paths += s.paths;
        d.infeasible += s.infeasible;
        d.steps += s.steps;
        d.max_steps = d.max_steps.max(s.max_steps);
        d.branches += s.branches;
        d.forks += s.forks;
        d.schedules += s.schedules;
        d.time_ms += s.time_ms;
        d.max_inputs = d.max_inputs.max(s.max_inputs);
        for (k, v) in s.reach { *d.reach.entry(k).or_insert(0) += v }
    }

    fn init_state(&self, t: &Task) -> State {
        let f = self.sh.harnesses[t.h].1;
        let fr = Frame { f, blk: 0, ip: 0, prev: NOBLK, regs: vec![V::C(0); self.m.funcs[f as usize].nregs as usize], allocas: vec![], dst: None, normal: NOBLK };
        State {
            mem: self.base.clone(),
            threads: vec![Thread { frames: vec![Rc::new(fr)], status: Status::Run, stay: 0, wake_val: None }],
            cur: 0, pc: vec![], model: Rc::new(Model::default()), dec: vec![], dec_mark: 0, pc_mark: 0, replay: t.prefix.clone(), rpos: 0,
            seed: Rc::new(t.seed.clone()), inputs: vec![], notes: vec![], marks: vec![], reach: vec![], tls: Rc::new(HashMap::new()), steps: 0, budget: 0,
            preempt: self.sh.cfg.preempt, sched_ok: false, need_switch: false, visible: 0, sched: vec![], depth_sym: 0, io: IoState::default(),
        }
    }

    fn run_task(&mut self, t: Task) {
        if t.h != self.cur_h { self.flush(); self.cur_h = t.h }
        let t0 = std::time::Instant::now();
        let s = self.init_state(&t);
        self.stack.push(s);
        while let Some(mut s) = self.stack.pop() {
            if self.sh.stop.load(Ordering::Relaxed) { self.stack.clear(); break }
            if self.sh.late() {
                if !self.sh.stop.swap(true, Ordering::SeqCst) { self.sh.errs.lock().unwrap().push("time bound exhausted".into()) }
                self.stack.clear();
                break
            }
            let (s0, d0) = (s.steps, s.dec.len());
            let r = self.run(&mut s);
            self.st.steps += s.steps - s0;
            self.st.branches += s.dec.len().saturating_sub(d0) as u64;
            self.st.max_steps = self.st.max_steps.max(s.steps);
            self.finish(s, r);
            if self.a.nodes.len() > 8_000_000 { self.sh.errs.lock().unwrap().push("expression arena too large".into()); self.sh.stop.store(true, Ordering::Relaxed) }
            self.donate();
        }
        self.st.time_ms += t0.elapsed().as_millis() as u64;
    }

    fn donate(&mut self) {
        while self.stack.len() > 1 && self.sh.idle.load(Ordering::Relaxed) > 0 {
            let mut q = self.sh.q.lock().unwrap();
            if q.len() >= 4 * self.sh.workers { return }
            let s = self.stack.remove(0);
            let mut prefix = s.dec.clone();
            prefix.extend_from_slice(&s.replay[s.rpos..]);
            let seed = s.inputs.iter().map(|i| s.model.get(self.a.n(i.var).k as u32)).collect();
            q.push_back(Task { h: self.cur_h, prefix, seed });
            self.sh.cv.notify_one();
        }
    }

    fn eval(&mut self, s: &State, e: Id) -> u128 {
        if let Some(k) = self.a.is_const(e) { return k }
        let same = matches!(&self.memo_model, Some(m) if Rc::ptr_eq(m, &s.model));
        if !same { self.memo.clear(); self.memo_model = Some(s.model.clone()) }
        self.a.eval(e, &s.model, &mut self.memo)
    }

    fn inputs_of(&mut self, s: &State) -> Vec<(u32, u128)> {
        s.inputs.iter().map(|i| (i.w, s.model.get(self.a.n(i.var).k as u32) & mask(i.w))).collect()
    }
    fn notes_of(&mut self, s: &State) -> Vec<u64> {
        s.notes.iter().map(|v| match v { V::C(c) => *c, V::E(e) => self.eval(s, *e) as u64, _ => 0 }).collect()
    }

    fn stack_of(&self, s: &State) -> Vec<String> {
        s.threads[s.cur].frames.iter().rev().take(12).map(|f| self.m.funcs[f.f as usize].pretty.clone()).collect()
    }

    fn finish(&mut self, s: State, r: Stop) {
        let hname = self.sh.harnesses[self.cur_h].0.clone();
        if self.sh.cfg.trace { eprintln!("[{}] path end {:?} steps {} dec {} pc {}", hname, r, s.steps, s.dec.len(), s.pc.len()); }
        match r {
            Stop::Infeasible => { self.st.infeasible += 1; return }
            Stop::Err(e) => {
                let stk = self.stack_of(&s);
                let inp = self.inputs_of(&s);
                let mut errs = self.sh.errs.lock().unwrap();
                errs.push(format!("{}: {} [at {} | inputs {:?}]", hname, e, stk.join(" < "), inp.iter().map(|x| x.1).collect::<Vec<_>>()));
                // other paths may still hold a violation
                let many = errs.len() >= 12 || self.sh.late();
                drop(errs);
                if many { self.sh.stop.store(true, Ordering::Relaxed) }
                return;
            }
            Stop::Violation(kind, msg) => {
                self.report(&s, &kind, &msg);
                self.st.paths += 1;
                return;
            }
            Stop::Done => {}
        }
        self.st.paths += 1;
        if s.threads.len() > 1 { self.st.schedules += 1 }
        self.st.max_inputs = self.st.max_inputs.max(s.inputs.len());
        for l in &s.reach { *self.st.reach.entry(self.labels[*l as usize].clone()).or_insert(0) += 1 }
        let n = self.sh.paths.fetch_add(1, Ordering::Relaxed) + 1;
        if n >= self.sh.cfg.max_paths {
            self.sh.errs.lock().unwrap().push(format!("{}: path bound {} exhausted", hname, n));
            self.sh.stop.store(true, Ordering::Relaxed);
        }
        // reservoir sampling of completed paths for cross-validation against the native build
        self.sample_n += 1;
        let x = (n.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ self.sh.cfg.seed.wrapping_mul(0xD134_2543_DE82_EF95)).wrapping_mul(0xBF58_476D_1CE4_E5B9) >> 20;
        let cap = self.sh.cfg.samples;
        let sh = self.sh.clone();
        let mut sm = sh.samples.lock().unwrap();
        let mine = sm.iter().filter(|x| x.harness == hname).count();
        if mine < cap {
            drop(sm);
            let smp = Sample { harness: hname, inputs: self.inputs_of(&s), notes: self.notes_of(&s), threads: s.threads.len() };
            self.sh.samples.lock().unwrap().push(smp);
        } else if cap > 0 && x % (n / cap as u64 + 1) == 0 {
            let idxs: Vec<usize> = sm.iter().enumerate().filter(|(_, x)| x.harness == hname).map(|(i, _)| i).collect();
            let i = idxs[(x >> 7) as usize % idxs.len()];
            let smp = Sample { harness: hname, inputs: self.inputs_of(&s), notes: self.notes_of(&s), threads: s.threads.len() };
            sm[i] = smp;
        }
    }

    fn report(&mut self, s: &State, kind: &str, label: &str) {
        let v = Viol {
            harness: self.sh.harnesses[self.cur_h].0.clone(), kind: kind.into(), label: label.into(),
            inputs: self.inputs_of(s), notes: self.notes_of(s), stack: self.stack_of(s), sched: s.sched.clone(),
        };
        let mut vs = self.sh.viols.lock().unwrap();
        let same = vs.iter().filter(|x| x.harness == v.harness && x.kind == v.kind && x.label == v.label).count();
        if vs.is_empty() { *self.sh.first_viol.lock().unwrap() = Some(std::time::Instant::now()) }
        if same < 3 { vs.push(v) }
        if kind == "hang" { self.sh.stop.store(true, Ordering::Relaxed) }
        if vs.len() >= 60 || (!self.sh.cfg.all_violations && vs.len() >= 6) { self.sh.stop.store(true, Ordering::Relaxed) }
    }

    // ---------------------------------------------------------------- solver

    fn slice(&self, pc: &[Id], target: Id) -> Vec<Id> {
        let mut m = self.a.masks[target as usize];
        let mut used = vec![false; pc.len()];
        let mut out = vec![target];
        loop {
            let mut ch = false;
            for (i, &c) in pc.iter().enumerate() {
                if !used[i] && self.a.masks[c as usize] & m != 0 {
                    used[i] = true;
                    ch = true;
                    m |= self.a.masks[c as usize];
                    out.push(c);
                }
            }
            if !ch { break }
        }
        out
    }

    /// Is pc /\ cond satisfiable?  Returns the extended model.
    fn feasible(&mut self, s: &State, cond: Id) -> R<Option<Rc<Model>>> {
        if cond == TRUE { return Ok(Some(s.model.clone())) }
        if cond == FALSE { return Ok(None) }
        let mut cs = self.slice(&s.pc, cond);
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.cache.get(&cs) {
            self.sh.cache_hits.fetch_add(1, Ordering::Relaxed);
            return Ok(r.clone().map(|m| self.merge(s, &cs, &m)));
        }
        // try recent models (a model that satisfies the conjunction is a witness)
        for i in 0..self.models.len().min(8) {
            let m = self.models[i].clone();
            let mut memo = FxMap::default();
            if cs.iter().all(|c| self.a.eval(*c, &m, &mut memo) == 1) {
                let r = self.merge(s, &cs, &m);
                return Ok(Some(r));
            }
        }
        let r = match self.smt.check(&self.a, &cs) {
            Res::Sat(m) => Some(Rc::new(m)),
            Res::Unsat => None,
            Res::Unknown(e) => return Err(Stop::Err(format!("solver returned unknown: {}", e))),
        };
        self.cache.insert(cs.clone(), r.clone());
        if let Some(m) = &r {
            self.models.push_front(m.clone());
            self.models.truncate(16);
        }
        Ok(r.map(|m| self.merge(s, &cs, &m)))
    }

    fn merge(&self, s: &State, cs: &[Id], m: &Model) -> Rc<Model> {
        let mut nm = (*s.model).clone();
        let mut seen = FxMap::default();
        let mut stack: Vec<Id> = cs.to_vec();
        while let Some(i) = stack.pop() {
            if self.a.masks[i as usize] == 0 || seen.insert(i, ()).is_some() { continue }
            let n = self.a.n(i);
            if n.op == Op::Var { nm.set(n.k as u32, m.get(n.k as u32)) }
            for x in [n.a, n.b, n.c] { if x != 0 { stack.push(x) } }
        }
        Rc::new(nm)
    }

    fn add_pc(&mut self, s: &mut State, c: Id) {
        if c == TRUE || s.pc.contains(&c) { return }
        s.pc.push(c);
    }

    fn next_replay(&self, s: &mut State) -> Option<u64> {
        if s.rpos < s.replay.len() { s.rpos += 1; Some(s.replay[s.rpos - 1]) } else { None }
    }

    /// A copy of `s` that re-executes the current instruction and takes `extra` at the present decision.
    fn fork_at(&mut self, s: &State, extra: &[u64], m: Rc<Model>) {
        let mut c = s.clone();
        let mut rp: Vec<u64> = c.dec[c.dec_mark..].to_vec();
        rp.extend_from_slice(extra);
        c.dec.truncate(c.dec_mark);
        c.pc.truncate(c.pc_mark);
        c.replay = rp;
        c.rpos = 0;
        c.model = m;
        self.st.forks += 1;
        self.stack.push(c);
        if self.stack.len() % 8 == 0 { self.donate() }
    }

    fn branch(&mut self, s: &mut State, c: Id) -> R<bool> {
        if c == TRUE { return Ok(true) }
        if c == FALSE { return Ok(false) }
        let nc = self.a.not(c);
        if let Some(d) = self.next_replay(s) {
            s.dec.push(d);
            let k = if d == 1 { c } else { nc };
            self.add_pc(s, k);
            return Ok(d == 1);
        }
        let v = self.eval(s, c) == 1;
        let (k, o) = if v { (c, nc) } else { (nc, c) };
        if s.pc.contains(&k) { s.dec.push(v as u64); return Ok(v) }
        if let Some(m) = self.feasible(s, o)? {
            self.fork_at(s, &[!v as u64], m);
            self.add_pc(s, k);
        }
        s.dec.push(v as u64);
        Ok(v)
    }

    fn concretize(&mut self, s: &mut State, e: Id) -> R<u128> {
        if let Some(k) = self.a.is_const(e) { return Ok(k) }
        let w = self.a.w(e);
        loop {
            let Some(flag) = self.next_replay(s) else { break };
            let v = self.next_replay(s).unwrap() as u128;
            s.dec.push(flag);
            s.dec.push(v as u64);
            let k = self.a.konst(w, v);
            let eq = self.a.bin(Op::Eq, e, k);
            if flag == 1 { self.add_pc(s, eq); return Ok(v) }
            let ne = self.a.not(eq);
            self.add_pc(s, ne);
        }
        let v = self.eval(s, e);
        let k = self.a.konst(w, v);
        let eq = self.a.bin(Op::Eq, e, k);
        let ne = self.a.not(eq);
        if let Some(m) = self.feasible(s, ne)? {
            self.fork_at(s, &[0, v as u64], m);
            self.add_pc(s, eq);
        }
        s.dec.push(1);
        s.dec.push(v as u64);
        Ok(v)
    }

    /// n-way choice without a condition (schedules)
    fn choose(&mut self, s: &mut State, n: u64) -> u64 {
        if n <= 1 { return 0 }
        if let Some(d) = self.next_replay(s) { s.dec.push(d); return d }
        for i in (1..n).rev() { let m = s.model.clone(); self.fork_at(s, &[i], m) }
        s.dec.push(0);
        0
    }

    fn assume(&mut self, s: &mut State, c: Id) -> R<()> {
        if c == TRUE { return Ok(()) }
        if c == FALSE { return Err(Stop::Infeasible) }
        if self.eval(s, c) == 1 { self.add_pc(s, c); return Ok(()) }
        if s.rpos < s.replay.len() { return Err(Stop::Err("replay diverged at an assumption".into())) }
        match self.feasible(s, c)? {
            Some(m) => { s.model = m; self.add_pc(s, c); Ok(()) }
            None => Err(Stop::Infeasible),
        }
    }

    // ---------------------------------------------------------------- values

    #[inline]
    fn mkc(&mut self, w: u32, c: u64) -> Id { self.a.konst(w, c as u128) }
    #[inline]
    fn ex(&mut self, v: &V, w: u32) -> Id {
        match v { V::C(c) => self.a.konst(w, *c as u128), V::E(e) => *e, V::A(_) => panic!("aggregate as scalar") }
    }
    #[inline]
    fn vx(&self, e: Id) -> V {
        let n = self.a.n(e);
        if n.op == Op::Const && n.w <= 64 { V::C(n.k as u64) } else { V::E(e) }
    }
    fn opd_const(&mut self, o: &Opd) -> V {
        match o {
            Opd::C(c) => V::C(*c),
            Opd::W(c, w) => V::E(self.a.konst(*w, *c)),
            Opd::Agg(v) => V::A(Rc::new(v.iter().map(|x| self.opd_const(x)).collect())),
            Opd::Reg(_) => panic!("reg"),
        }
    }
    #[inline]
    fn val(&mut self, fr: &Frame, o: &Opd) -> V {
        match o {
            Opd::Reg(r) => fr.regs[*r as usize].clone(),
            Opd::C(c) => V::C(*c),
            Opd::Agg(v) => V::A(Rc::new(v.iter().map(|x| self.val(fr, x)).collect())),
            o => self.opd_const(o),
        }
    }

    fn addr(&mut self, s: &mut State, v: V) -> R<u64> {
        match v {
            V::C(c) => Ok(c),
            V::E(e) => Ok(self.concretize(s, e)? as u64),
            _ => Err(Stop::Err("aggregate pointer".into())),
        }
    }
    fn int(&mut self, s: &mut State, v: V) -> R<u64> { self.addr(s, v) }

    fn load_val(&mut self, s: &mut State, ty: &Ty, p: V) -> R<V> {
        let addr = match p {
            V::C(c) => c,
            V::E(e) => {
                if let Some(v) = self.sym_load(s, ty, e)? { return Ok(v) }
                self.concretize(s, e)? as u64
            }
            _ => return Err(Stop::Err("aggregate pointer".into())),
        };
        self.load_at(s, ty, addr)
    }

    fn load_at(&mut self, s: &mut State, ty: &Ty, addr: u64) -> R<V> {
        match ty {
            Ty::Int(w) => {
                let n = ty.store_size();
                match merr!(s.mem.load(&mut self.a, addr, n)) {
                    Ok(c) => {
                        let c = c & mask(*w);
                        if *w > 64 { Ok(V::E(self.a.konst(*w, c))) } else { Ok(V::C(c as u64)) }
                    }
                    Err(e) => { let e = self.a.extract(e, 0, *w); Ok(self.vx(e)) }
                }
            }
            Ty::F32 | Ty::F64 | Ty::Ptr => {
                let n = ty.store_size();
                match merr!(s.mem.load(&mut self.a, addr, n)) { Ok(c) => Ok(V::C(c as u64)), Err(e) => Ok(self.vx(e)) }
            }
            Ty::Vec(n, t) => {
                let tb = t.bits();
                if tb % 8 != 0 {
                    let w = (*n * tb + 7) / 8 * 8;
                    let x = self.load_at(s, &Ty::Int(w), addr)?;
                    let e = self.ex(&x, w);
                    let mut v = Vec::with_capacity(*n as usize);
                    for i in 0..*n { let b = self.a.extract(e, i * tb, tb); v.push(self.vx(b)) }
                    return Ok(V::A(Rc::new(v)));
                }
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n as u64 { v.push(self.load_at(s, t, addr + i * tb as u64 / 8)?) }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(..) | Ty::Struct(..) => {
                let n = ty.count();
                let mut v = Vec::with_capacity(n as usize);
                for i in 0..n { v.push(self.load_at(s, ty.elem(i), addr + ty.field_off(i))?) }
                Ok(V::A(Rc::new(v)))
            }
            _ => Err(Stop::Err("load type".into())),
        }
    }

    fn store_at(&mut self, s: &mut State, ty: &Ty, addr: u64, v: V) -> R<()> {
        match ty {
            Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr => {
                let n = ty.store_size();
                match v {
                    V::C(c) => merr!(s.mem.store(addr, n, c as u128)),
                    V::E(e) => match self.a.is_const(e) {
                        Some(k) => merr!(s.mem.store(addr, n, k)),
                        None => merr!(s.mem.store_sym(&mut self.a, addr, n, e)),
                    },
                    _ => return Err(Stop::Err("store aggregate as scalar".into())),
                }
                Ok(())
            }
            Ty::Vec(n, t) => {
                let tb = t.bits() as u64;
                if tb % 8 != 0 {
                    let e = self.flatten(&v, ty);
                    let w = (*n * tb as u32 + 7) / 8 * 8;
                    let e = self.a.zext(e, w);
                    let x = self.vx(e);
                    return self.store_at(s, &Ty::Int(w), addr, x);
                }
                let V::A(vs) = v else { return Err(Stop::Err("store vec".into())) };
                for i in 0..*n as u64 { self.store_at(s, t, addr + i * tb / 8, vs[i as usize].clone())? }
                Ok(())
            }
            Ty::Arr(..) | Ty::Struct(..) => {
                let V::A(vs) = v else { return Err(Stop::Err("store agg".into())) };
                for i in 0..ty.count() { self.store_at(s, ty.elem(i), addr + ty.field_off(i), vs[i as usize].clone())? }
                Ok(())
            }
            _ => Err(Stop::Err("store type".into())),
        }
    }

    /// Load through a symbolic address that stays inside one object: an if-then-else table.
    fn sym_load(&mut self, s: &mut State, ty: &Ty, e: Id) -> R<Option<V>> {
        let n = ty.store_size();
        if !matches!(ty, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) || n > 8 { return Ok(None) }
        if self.a.n(e).op == Op::Ite { return Ok(None) }
        // object id: syntactically when possible, otherwise by forking on its value
        let nn = *self.a.n(e);
        let mut id = u64::MAX;
        if nn.op == Op::Add {
            if let Some(c) = self.a.is_const(nn.b) {
                let um = self.a.umax[nn.a as usize];
                if um < (1 << 32) && um + (c as u64 & 0xffff_ffff) < (1 << 32) { id = c as u64 >> 32 }
            }
        }
        if id == u64::MAX { let ie = self.a.extract(e, 32, 32); id = self.concretize(s, ie)? as u64 }
        let Some(o) = s.mem.get(id).cloned() else { return Err(Stop::Violation("memory".into(), "access to invalid or freed memory".into())) };
        let size = o.data.len() as u64;
        if size < n { return Ok(None) }
        if size > 1024 || (!o.ro && size > 64 && !o.sym.is_empty()) { return Ok(None) }
        let b = self.a.konst(64, (id << 32) as u128);
        let off = self.a.bin(Op::Sub, e, b);
        let lim = self.a.konst(64, (size - n) as u128);
        let inb = self.a.bin(Op::Ule, off, lim);
        if !self.branch(s, inb)? {
            return Err(Stop::Violation("memory".into(), format!("out-of-bounds access of an object of {} bytes", size)));
        }
        let w = n as u32 * 8;
        // distinct offsets (bounded by the range of the expression)
        let hi = self.a.umax[off as usize].min(size - n);
        let stride = self.stride(off);
        let mut acc: Option<Id> = None;
        let mut runs: Vec<(u64, Id)> = vec![]; // (start offset, value)
        let mut k = 0;
        while k <= hi {
            let v = if o.sym.is_empty() {
                let mut c = 0u128;
                for i in (0..n).rev() { c = (c << 8) | o.data[(k + i) as usize] as u128 }
                self.a.konst(w, c)
            } else { Mem::load_sym(&mut self.a, &o, k as usize, n as usize) };
            match runs.last() { Some((_, lv)) if *lv == v => {} _ => runs.push((k, v)) }
            k += stride;
        }
        if runs.len() > 300 { return Ok(None) }
        for (st, v) in runs.iter() {
            acc = Some(match acc {
                None => *v,
                Some(prev) => {
                    // off < st ? prev : v
                    let k = self.a.konst(64, *st as u128);
                    let c = self.a.bin(Op::Ult, off, k);
                    self.a.ite(c, prev, *v)
                }
            });
        }
        let r = acc.unwrap();
        let bits = ty.bits();
        let r = self.a.extract(r, 0, bits);
        Ok(Some(self.vx(r)))
    }

    fn stride(&self, e: Id) -> u64 {
        let n = self.a.n(e);
        match n.op {
            Op::Shl => self.a.is_const(n.b).map(|k| 1u64 << (k as u64).min(12)).unwrap_or(1),
            Op::Mul => self.a.is_const(n.b).map(|k| 1u64 << (k as u64).trailing_zeros().min(12)).unwrap_or(1),
            Op::Add => {
                match self.a.is_const(n.b) {
                    Some(k) => self.stride(n.a).min(if k == 0 { 4096 } else { 1u64 << (k as u64).trailing_zeros().min(12) }),
                    None => self.stride(n.a).min(self.stride(n.b)),
                }
            }
            Op::Concat => { match self.a.is_const(n.b) { Some(0) => 1u64 << self.a.w(n.b).min(12), _ => 1 } }
            Op::ZExt => self.stride(n.a),
            _ => 1,
        }
    }

    // ---------------------------------------------------------------- arithmetic

    fn bin_op(&mut self, s: &mut State, k: BinK, w: u32, fl: bool, a: &V, b: &V) -> R<V> {
        let _ = &s;
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            if fl {
                let r = if w == 64 {
                    let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                    (match k { BinK::FAdd => p + q, BinK::FSub => p - q, BinK::FMul => p * q, BinK::FDiv => p / q, BinK::FRem => p % q, _ => return Err(Stop::Err("fbin".into())) }).to_bits()
                } else {
                    let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    (match k { BinK::FAdd => p + q, BinK::FSub => p - q, BinK::FMul => p * q, BinK::FDiv => p / q, BinK::FRem => p % q, _ => return Err(Stop::Err("fbin".into())) }).to_bits() as u64
                };
                return Ok(V::C(r));
            }
            let m = mask(w) as u64;
            let r = match k {
                BinK::Add => x.wrapping_add(y) & m,
                BinK::Sub => x.wrapping_sub(y) & m,
                BinK::Mul => x.wrapping_mul(y) & m,
                BinK::And => x & y,
                BinK::Or => x | y,
                BinK::Xor => x ^ y,
                BinK::Shl => if y >= w as u64 { 0 } else { (x << y) & m },
                BinK::LShr => if y >= w as u64 { 0 } else { x >> y },
                BinK::UDiv | BinK::URem | BinK::SDiv | BinK::SRem if y == 0 => return Err(Stop::Violation("ub".into(), "division by zero".into())),
                BinK::UDiv => x / y,
                BinK::URem => x % y,
                _ => {
                    let op = match k { BinK::AShr => Op::AShr, BinK::SDiv => Op::SDiv, BinK::SRem => Op::SRem, _ => return Err(Stop::Err("bin".into())) };
                    eval_bin(op, w, x as u128, y as u128) as u64
                }
            };
            return Ok(V::C(r));
        }
        let op = match k {
            BinK::Add => Op::Add, BinK::Sub => Op::Sub, BinK::Mul => Op::Mul, BinK::UDiv => Op::UDiv, BinK::SDiv => Op::SDiv, BinK::URem => Op::URem, BinK::SRem => Op::SRem,
            BinK::And => Op::And, BinK::Or => Op::Or, BinK::Xor => Op::Xor, BinK::Shl => Op::Shl, BinK::LShr => Op::LShr, BinK::AShr => Op::AShr,
            BinK::FAdd => Op::FAdd, BinK::FSub => Op::FSub, BinK::FMul => Op::FMul, BinK::FDiv => Op::FDiv, BinK::FRem => {
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let r = self.a.fun(fun_of("fmod").unwrap(), w, &[x, y]);
                return Ok(self.vx(r));
            }
        };
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) && self.a.is_const(y).is_none() {
            let z = self.a.konst(w, 0);
            let isz = self.a.bin(Op::Eq, y, z);
            if self.branch(s, isz)? { return Err(Stop::Violation("ub".into(), "division by zero".into())) }
        }
        let r = self.a.bin(op, x, y);
        Ok(self.vx(r))
    }

    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let sh = 64 - w;
            let (sx, sy) = (((x << sh) as i64) >> sh, ((y << sh) as i64) >> sh);
            return V::C(match p {
                Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y,
                Pred::Slt => sx < sy, Pred::Sle => sx <= sy, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy,
            } as u64);
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let r = match p {
            Pred::Eq => self.a.bin(Op::Eq, x, y),
            Pred::Ne => { let e = self.a.bin(Op::Eq, x, y); self.a.not(e) }
            Pred::Ult => self.a.bin(Op::Ult, x, y),
            Pred::Ule => self.a.bin(Op::Ule, x, y),
            Pred::Ugt => self.a.bin(Op::Ult, y, x),
            Pred::Uge => self.a.bin(Op::Ule, y, x),
            Pred::Slt => self.a.bin(Op::Slt, x, y),
            Pred::Sle => self.a.bin(Op::Sle, x, y),
            Pred::Sgt => self.a.bin(Op::Slt, y, x),
            Pred::Sge => self.a.bin(Op::Sle, y, x),
        };
        self.vx(r)
    }

    fn isnan(&mut self, x: Id) -> Id { let e = self.a.bin(Op::FEq, x, x); self.a.not(e) }

    fn fcmp(&mut self, p: FPred, w: u32, a: &V, b: &V) -> V {
        use FPred as F;
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let ar = &mut self.a;
        let r = match p {
            F::False => FALSE, F::True => TRUE,
            F::Oeq => ar.bin(Op::FEq, x, y),
            F::Olt => ar.bin(Op::FLt, x, y),
            F::Ole => ar.bin(Op::FLe, x, y),
            F::Ogt => ar.bin(Op::FLt, y, x),
            F::Oge => ar.bin(Op::FLe, y, x),
            F::Une => { let e = ar.bin(Op::FEq, x, y); ar.not(e) }
            F::Ult => { let e = ar.bin(Op::FLe, y, x); ar.not(e) }
            F::Ule => { let e = ar.bin(Op::FLt, y, x); ar.not(e) }
            F::Ugt => { let e = ar.bin(Op::FLe, x, y); ar.not(e) }
            F::Uge => { let e = ar.bin(Op::FLt, x, y); ar.not(e) }
            F::Ord | F::Uno | F::One | F::Ueq => {
                let nx = self.isnan(x);
                let ny = self.isnan(y);
                let u = self.a.bin(Op::Or, nx, ny);
                match p {
                    F::Uno => u,
                    F::Ord => self.a.not(u),
                    F::Ueq => { let e = self.a.bin(Op::FEq, x, y); self.a.bin(Op::Or, u, e) }
                    _ => { let e = self.a.bin(Op::FEq, x, y); let o = self.a.bin(Op::Or, u, e); self.a.not(o) }
                }
            }
        };
        self.vx(r)
    }

    fn select(&mut self, c: Id, a: &V, b: &V, ty: &Ty) -> R<V> {
        match ty {
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let (V::A(x), V::A(y)) = (a, b) else { return Err(Stop::Err("select agg".into())) };
                let mut v = vec![];
                for i in 0..x.len() { v.push(self.select(c, &x[i], &y[i], ty.elem(i as u64))?) }
                Ok(V::A(Rc::new(v)))
            }
            _ => {
                let w = ty.bits();
                let x = self.ex(a, w);
                let y = self.ex(b, w);
                let r = self.a.ite(c, x, y);
                Ok(self.vx(r))
            }
        }
    }

    fn flatten(&mut self, v: &V, ty: &Ty) -> Id {
        match (v, ty) {
            (V::A(vs), Ty::Vec(_, t)) => {
                let w = t.bits();
                let mut acc = self.ex(&vs[0], w);
                for x in vs.iter().skip(1) { let e = self.ex(x, w); acc = self.a.concat(e, acc) }
                acc
            }
            (v, t) => self.ex(v, t.bits()),
        }
    }

    fn cast(&mut self, s: &mut State, k: CastK, from: &Ty, to: &Ty, a: V) -> R<V> {
        if k == CastK::BitCast {
            if !matches!(from, Ty::Vec(..)) && !matches!(to, Ty::Vec(..)) { return Ok(a) }
            // constant fast path
            let e = self.flatten(&a, from);
            return Ok(match to {
                Ty::Vec(n, t) => {
                    let w = t.bits();
                    let mut v = Vec::with_capacity(*n as usize);
                    for i in 0..*n { let x = self.a.extract(e, i * w, w); v.push(self.vx(x)) }
                    V::A(Rc::new(v))
                }
                _ => self.vx(e),
            });
        }
        if let (Ty::Vec(n, f), Ty::Vec(_, t)) = (from, to) {
            let V::A(vs) = a else { return Err(Stop::Err("cast vec".into())) };
            let mut v = vec![];
            for i in 0..*n as usize { v.push(self.cast(s, k, f, t, vs[i].clone())?) }
            return Ok(V::A(Rc::new(v)));
        }
        let (fw, tw) = (from.bits(), to.bits());
        if let V::C(c) = a {
            if fw <= 64 && tw <= 64 {
                return Ok(V::C(match k {
                    CastK::Trunc => c & mask(tw) as u64,
                    CastK::ZExt => c,
                    CastK::SExt => sext(c as u128, fw) as u64 & mask(tw) as u64,
                    CastK::PtrToInt | CastK::IntToPtr => c & mask(tw) as u64,
                    _ => {
                        let op = match k { CastK::FpTrunc => Op::FpTrunc, CastK::FpExt => Op::FpExt, CastK::FpToSi => Op::FpToSi, CastK::FpToUi => Op::FpToUi, CastK::SiToFp => Op::SiToFp, _ => Op::UiToFp };
                        eval_un(op, fw, tw, c as u128, 0) as u64
                    }
                }));
            }
        }
        let e = self.ex(&a, fw);
        let r = match k {
            CastK::Trunc => self.a.extract(e, 0, tw),
            CastK::ZExt => self.a.zext(e, tw),
            CastK::SExt => self.a.sext(e, tw),
            CastK::PtrToInt | CastK::IntToPtr => if tw < fw { self.a.extract(e, 0, tw) } else { self.a.zext(e, tw) },
            CastK::FpTrunc => self.a.un(Op::FpTrunc, e, tw, 0),
            CastK::FpExt => self.a.un(Op::FpExt, e, tw, 0),
            CastK::FpToSi => self.a.un(Op::FpToSi, e, tw, 0),
            CastK::FpToUi => self.a.un(Op::FpToUi, e, tw, 0),
            CastK::SiToFp => self.a.un(Op::SiToFp, e, tw, 0),
            CastK::UiToFp => self.a.un(Op::UiToFp, e, tw, 0),
            CastK::BitCast => e,
        };
        Ok(self.vx(r))
    }

    // ---------------------------------------------------------------- main loop

    pub fn run(&mut self, s: &mut State) -> Stop {
        let m = self.m.clone();
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick >= 65536 {
                tick = 0;
                if self.sh.stop.load(Ordering::Relaxed) { return Stop::Infeasible }
                if self.sh.late() { return Stop::Err("time bound exhausted".into()) }
                self.donate();
            }
            s.steps += 1;
            if s.steps > self.sh.cfg.max_steps.max(s.budget) { return Stop::Violation("hang".into(), format!("still running after {} instructions", s.steps - 1)) }
            match self.step(&m, s) {
                Ok(()) => {}
                Err(e) => return e,
            }
        }
    }

    fn runnable(&self, s: &State) -> Vec<usize> {
        let mut v = vec![];
        for (i, t) in s.threads.iter().enumerate() {
            match &t.status {
                Status::Run => v.push(i),
                Status::Join(j) if s.threads[*j].status == Status::Done => v.push(i),
                _ => {}
            }
        }
        v
    }

    /// Switch away from a thread that cannot run (or yields).
    fn reschedule(&mut self, s: &mut State) -> R<()> {
        let r = self.runnable(s);
        if r.is_empty() {
            if s.threads.iter().all(|t| t.status == Status::Done) { return Err(Stop::Done) }
            let d = s.threads.iter().enumerate().map(|(i, t)| format!("t{}:{:?}", i, match &t.status { Status::Futex(_) => "blocked on a lock".to_string(), x => format!("{:?}", x) })).collect::<Vec<_>>().join(", ");
            return Err(Stop::Violation("deadlock".into(), format!("no thread can run ({})", d)));
        }
        let c = self.choose(s, r.len() as u64);
        s.cur = r[c as usize];
        s.sched.push(s.cur as u8);
        if let Status::Join(_) = s.threads[s.cur].status { s.threads[s.cur].status = Status::Run }
        s.sched_ok = true;
        s.need_switch = false;
        Ok(())
    }

    /// Scheduling point before an atomic write: ends a spin.
    fn effect(&mut self, s: &mut State) -> R<bool> {
        s.threads[s.cur].stay = 0;
        self.visible(s)
    }

    /// Scheduling point before a visible operation.
    fn visible(&mut self, s: &mut State) -> R<bool> {
        if s.threads.len() < 2 { return Ok(true) }
        if s.sched_ok { s.sched_ok = false; s.visible += 1; return Ok(true) }
        if s.preempt == 0 { s.visible += 1; return Ok(true) }
        let r = self.runnable(s);
        if r.len() < 2 { s.visible += 1; return Ok(true) }
        let mut opts = vec![s.cur];
        opts.extend(r.into_iter().filter(|x| *x != s.cur));
        let c = self.choose(s, opts.len() as u64) as usize;
        if c == 0 { s.visible += 1; return Ok(true) }
        s.cur = opts[c];
        s.sched.push(s.cur as u8);
        s.preempt -= 1;
        if let Status::Join(_) = s.threads[s.cur].status { s.threads[s.cur].status = Status::Run }
        s.sched_ok = true;
        Ok(false)
    }

    fn jump(&mut self, s: &mut State, m: &Module, to: u32) -> R<()> {
        let t = &mut s.threads[s.cur];
        let fr = Rc::make_mut(t.frames.last_mut().unwrap());
        let from = fr.blk;
        let f = &m.funcs[fr.f as usize];
        let blk = &f.blocks[to as usize];
        let mut n = 0;
        let mut tmp: Vec<(u32, V)> = vec![];
        for i in &blk.ins {
            if let I::Phi { dst, inc } = i {
                let o = inc.iter().find(|(b, _)| *b == from).map(|x| &x.1).ok_or_else(|| Stop::Err("phi without edge".into()))?;
                let v = match o { Opd::Reg(r) => fr.regs[*r as usize].clone(), Opd::C(c) => V::C(*c), o => self.opd_const(o) };
                tmp.push((*dst, v));
                n += 1;
            } else { break }
        }
        for (d, v) in tmp { fr.regs[d as usize] = v }
        fr.prev = from;
        fr.blk = to;
        fr.ip = n;
        Ok(())
    }

    #[inline]
    fn set(s: &mut State, dst: u32, v: V) {
        let fr = Rc::make_mut(s.threads[s.cur].frames.last_mut().unwrap());
        fr.regs[dst as usize] = v;
        fr.ip += 1;
    }

    fn step(&mut self, m: &Module, s: &mut State) -> R<()> {
        s.dec_mark = s.dec.len();
        s.pc_mark = s.pc.len();
        if s.need_switch { return self.reschedule(s) }
        let fr: *const Frame = &**s.threads[s.cur].frames.last().unwrap();
        // SAFETY: the frame stays alive in s until we mutate it; we only read operands through `fr` before that.
        let fr: &Frame = unsafe { &*fr };
        let f = &m.funcs[fr.f as usize];
        let ins = &f.blocks[fr.blk as usize].ins[fr.ip as usize];
        match ins {
            I::Bin { k, ty, dst, a, b } => {
                let (x, y) = (self.val(fr, a), self.val(fr, b));
                let r = match ty {
                    Ty::Vec(n, t) => {
                        let (V::A(p), V::A(q)) = (&x, &y) else { return Err(Stop::Err("vec bin".into())) };
                        let mut v = Vec::with_capacity(*n as usize);
                        for i in 0..*n as usize { v.push(self.bin_op(s, *k, t.bits(), matches!(**t, Ty::F32 | Ty::F64), &p[i], &q[i])?) }
                        V::A(Rc::new(v))
                    }
                    t => self.bin_op(s, *k, t.bits(), matches!(t, Ty::F32 | Ty::F64), &x, &y)?,
                };
                Self::set(s, *dst, r);
            }
            I::ICmp { p, ty, dst, a, b } => {
                let (x, y) = (self.val(fr, a), self.val(fr, b));
                let r = match ty {
                    Ty::Vec(n, t) => {
                        let (V::A(u), V::A(q)) = (&x, &y) else { return Err(Stop::Err("vec icmp".into())) };
                        let mut v = Vec::with_capacity(*n as usize);
                        for i in 0..*n as usize { v.push(self.icmp(*p, t.bits(), &u[i], &q[i])) }
                        V::A(Rc::new(v))
                    }
                    t => self.icmp(*p, t.bits(), &x, &y),
                };
                Self::set(s, *dst, r);
            }
            I::FCmp { p, ty, dst, a, b } => {
                let (x, y) = (self.val(fr, a), self.val(fr, b));
                let r = match ty {
                    Ty::Vec(n, t) => {
                        let (V::A(u), V::A(q)) = (&x, &y) else { return Err(Stop::Err("vector fcmp".into())) };
                        let mut v = Vec::with_capacity(*n as usize);
                        for i in 0..*n as usize { v.push(self.fcmp(*p, t.bits(), &u[i], &q[i])) }
                        V::A(Rc::new(v))
                    }
                    t => self.fcmp(*p, t.bits(), &x, &y),
                };
                Self::set(s, *dst, r);
            }
            I::FNeg { ty, dst, a } => {
                let x = self.val(fr, a);
                let w = match ty { Ty::Vec(_, t) => t.bits(), t => t.bits() };
                let sb = 1u64 << (w - 1);
                let mut neg = |x: &V| match x { V::C(c) => V::C(c ^ sb), v => { let e = self.ex(v, w); let k = self.mkc(w, sb); let r = self.a.bin(Op::Xor, e, k); self.vx(r) } };
                let r = match &x { V::A(v) => V::A(Rc::new(v.iter().map(&mut neg).collect())), x => neg(x) };
                Self::set(s, *dst, r);
            }
            I::Cast { k, from, to, dst, a } => {
                let x = self.val(fr, a);
                let r = self.cast(s, *k, from, to, x)?;
                Self::set(s, *dst, r);
            }
            I::Select { dst, c, a, b, ty } => {
                let cv = self.val(fr, c);
                let (x, y) = (self.val(fr, a), self.val(fr, b));
                let r = match cv {
                    V::C(c) => if c & 1 == 1 { x } else { y },
                    V::E(c) => self.select(c, &x, &y, ty)?,
                    _ => return Err(Stop::Err("select cond".into())),
                };
                Self::set(s, *dst, r);
            }
            I::Phi { .. } => return Err(Stop::Err("stray phi".into())),
            I::Load { ty, dst, p, atomic } => {
                let x = self.val(fr, p);
                if *atomic && s.threads[s.cur].stay == 0 && !self.visible(s)? { return Ok(()) }
                let r = self.load_val(s, ty, x)?;
                Self::set(s, *dst, r);
            }
            I::Store { ty, v, p, atomic } => {
                let x = self.val(fr, p);
                let v = self.val(fr, v);
                if *atomic && !self.effect(s)? { return Ok(()) }
                let a = self.addr(s, x)?;
                self.store_at(s, ty, a, v)?;
                self.adv(s);
            }
            I::Gep { dst, base, off, idx } => {
                let b = self.val(fr, base);
                let mut c = *off as u64;
                let mut e: Option<Id> = None;
                match b { V::C(x) => c = c.wrapping_add(x), V::E(x) => e = Some(x), _ => return Err(Stop::Err("gep base".into())) }
                for (o, w, sc) in idx {
                    match self.val(fr, o) {
                        V::C(x) => c = c.wrapping_add((sext(x as u128, *w) as u64).wrapping_mul(*sc as u64)),
                        V::E(x) => {
                            let x = self.a.sext(x, 64);
                            let k = self.a.konst(64, *sc as u64 as u128);
                            let t = self.a.bin(Op::Mul, x, k);
                            e = Some(match e { None => t, Some(p) => self.a.bin(Op::Add, p, t) });
                        }
                        _ => return Err(Stop::Err("gep idx".into())),
                    }
                }
                let r = match e { None => V::C(c), Some(e) => { let k = self.a.konst(64, c as u128); let r = self.a.bin(Op::Add, e, k); self.vx(r) } };
                Self::set(s, *dst, r);
            }
            I::Alloca { dst, size, n } => {
                let cnt = match n { None => 1, Some(o) => { let v = self.val(fr, o); self.int(s, v)? } };
                let a = s.mem.alloc((*size * cnt) as usize, false);
                let fr = Rc::make_mut(s.threads[s.cur].frames.last_mut().unwrap());
                fr.allocas.push(a >> 32);
                fr.regs[*dst as usize] = V::C(a);
                fr.ip += 1;
            }
            I::Call { dst, callee, args, ret, normal, .. } => {
                let mut target = match callee {
                    Callee::Fn(f) => *f,
                    Callee::Ind(o) => {
                        let v = self.val(fr, o);
                        let a = self.addr(s, v)?;
                        m.addr_fn(a).ok_or_else(|| Stop::Violation("memory".into(), "call through an invalid function pointer".into()))?
                    }
                    Callee::Asm => { self.adv(s); return Ok(()) }
                };
                let x = self.intr[target as usize];
                if x == X::FmtF64 || x == X::FmtF32 {
                    // printing a symbolic float: print an opaque marker that the harness can resolve again
                    let p = self.val(fr, &args[0].0);
                    let p = self.addr(s, p)?;
                    let (n, alt) = if x == X::FmtF64 { (8, "rsx_fmt_f64") } else { (4, "rsx_fmt_f32") };
                    if merr!(s.mem.load(&mut self.a, p, n)).is_err() {
                        target = *m.fn_by_name.get(alt).ok_or_else(|| Stop::Err("symbolic float formatting".into()))?;
                    }
                } else if x != X::None {
                    let mut av = Vec::with_capacity(args.len());
                    for (o, _) in args { av.push(self.val(fr, o)) }
                    return self.intrinsic(m, s, x, target, &av, args, *dst, ret, *normal);
                }
                let tf = &m.funcs[target as usize];
                if let Some(e) = &tf.err { return Err(Stop::Err(format!("unsupported code in {}: {}", tf.pretty, e))) }
                if tf.params.len() > args.len() { return Err(Stop::Err(format!("argument mismatch calling {}", tf.pretty))) }
                let mut regs = vec![V::C(0); tf.nregs as usize];
                for (i, (o, _)) in args.iter().enumerate().take(tf.params.len()) { regs[i] = self.val(fr, o) }
                self.funcs[target as usize] = true;
                if s.threads[s.cur].frames.len() > 4000 { return Err(Stop::Violation("stack".into(), "unbounded recursion".into())) }
                s.threads[s.cur].frames.push(Rc::new(Frame { f: target, blk: 0, ip: 0, prev: NOBLK, regs, allocas: vec![], dst: *dst, normal: *normal }));
            }
            I::ExtractValue { dst, a, path } => {
                let mut v = self.val(fr, a);
                for i in path { v = match &v { V::A(x) => x[*i as usize].clone(), _ => return Err(Stop::Err("extractvalue".into())) } }
                Self::set(s, *dst, v);
            }
            I::InsertValue { dst, a, v, path } => {
                let agg = self.val(fr, a);
                let v = self.val(fr, v);
                fn ins(a: &V, v: V, p: &[u32]) -> Option<V> {
                    if p.is_empty() { return Some(v) }
                    let V::A(x) = a else { return None };
                    let mut y = (**x).clone();
                    y[p[0] as usize] = ins(&x[p[0] as usize], v, &p[1..])?;
                    Some(V::A(Rc::new(y)))
                }
                let r = ins(&agg, v, path).ok_or_else(|| Stop::Err("insertvalue".into()))?;
                Self::set(s, *dst, r);
            }
            I::ExtractElement { dst, a, i, .. } => {
                let v = self.val(fr, a);
                let i = self.val(fr, i);
                let i = self.int(s, i)?;
                let V::A(x) = v else { return Err(Stop::Err("extractelement".into())) };
                Self::set(s, *dst, x[i as usize].clone());
            }
            I::InsertElement { dst, a, v, i, .. } => {
                let agg = self.val(fr, a);
                let v = self.val(fr, v);
                let i = self.val(fr, i);
                let i = self.int(s, i)?;
                let V::A(x) = agg else { return Err(Stop::Err("insertelement".into())) };
                let mut y = (*x).clone();
                y[i as usize] = v;
                Self::set(s, *dst, V::A(Rc::new(y)));
            }
            I::Shuffle { dst, a, b, mask, n } => {
                let (V::A(x), V::A(y)) = (self.val(fr, a), self.val(fr, b)) else { return Err(Stop::Err("shuffle".into())) };
                let r = mask.iter().map(|i| if *i < 0 { V::C(0) } else if (*i as u32) < *n { x[*i as usize].clone() } else { y[*i as usize - *n as usize].clone() }).collect();
                Self::set(s, *dst, V::A(Rc::new(r)));
            }
            I::Copy { dst, a } => { let v = self.val(fr, a); Self::set(s, *dst, v) }
            I::Rmw { k, ty, dst, p, v } => {
                let p = self.val(fr, p);
                let v = self.val(fr, v);
                if !self.effect(s)? { return Ok(()) }
                let a = self.addr(s, p)?;
                let old = self.load_at(s, ty, a)?;
                let w = ty.bits();
                let nv = match k {
                    RmwK::Xchg => v,
                    RmwK::Add => self.bin_op(s, BinK::Add, w, false, &old, &v)?,
                    RmwK::Sub => self.bin_op(s, BinK::Sub, w, false, &old, &v)?,
                    RmwK::And => self.bin_op(s, BinK::And, w, false, &old, &v)?,
                    RmwK::Or => self.bin_op(s, BinK::Or, w, false, &old, &v)?,
                    RmwK::Xor => self.bin_op(s, BinK::Xor, w, false, &old, &v)?,
                    RmwK::Nand => { let t = self.bin_op(s, BinK::And, w, false, &old, &v)?; self.bin_op(s, BinK::Xor, w, false, &t, &V::C(mask(w) as u64))? }
                    _ => {
                        let p = match k { RmwK::Max => Pred::Sgt, RmwK::Min => Pred::Slt, RmwK::UMax => Pred::Ugt, _ => Pred::Ult };
                        let c = self.icmp(p, w, &old, &v);
                        match c { V::C(c) => if c == 1 { old.clone() } else { v }, V::E(c) => self.select(c, &old, &v, ty)?, _ => unreachable!() }
                    }
                };
                self.store_at(s, ty, a, nv)?;
                Self::set(s, *dst, old);
            }
            I::CmpXchg { ty, dst, p, e, n } => {
                let p = self.val(fr, p);
                let e = self.val(fr, e);
                let n = self.val(fr, n);
                if !self.effect(s)? { return Ok(()) }
                let a = self.addr(s, p)?;
                let old = self.load_at(s, ty, a)?;
                let c = self.icmp(Pred::Eq, ty.bits(), &old, &e);
                let ok = match c { V::C(c) => c == 1, V::E(c) => self.branch(s, c)?, _ => unreachable!() };
                if ok { self.store_at(s, ty, a, n)? }
                Self::set(s, *dst, V::A(Rc::new(vec![old, V::C(ok as u64)])));
            }
            I::Fence => self.adv(s),
            I::LandingPad { .. } | I::Resume { .. } => return Err(Stop::Err("unwinding is not modelled".into())),
            I::Br { b } => self.jump(s, m, *b)?,
            I::CondBr { c, t, f } => {
                let (t, f) = (*t, *f);
                let v = self.val(fr, c);
                let b = match v { V::C(c) => c & 1 == 1, V::E(e) => self.branch(s, e)?, _ => return Err(Stop::Err("br".into())) };
                self.jump(s, m, if b { t } else { f })?;
            }
            I::Switch { ty, v, d, cases } => {
                let v = self.val(fr, v);
                let to = match v {
                    V::C(c) => cases.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(*d),
                    V::E(e) => self.switch(s, ty.bits(), e, *d, cases)?,
                    _ => return Err(Stop::Err("switch".into())),
                };
                self.jump(s, m, to)?;
            }
            I::Ret { v, .. } => {
                let r = v.as_ref().map(|o| self.val(fr, o));
                return self.ret(m, s, r);
            }
            I::Unreachable => return Err(Stop::Violation("ub".into(), "unreachable code reached".into())),
        }
        Ok(())
    }

    fn ret(&mut self, m: &Module, s: &mut State, r: Option<V>) -> R<()> {
        let t = s.cur;
        let fr = s.threads[t].frames.pop().unwrap();
        for a in &fr.allocas { s.mem.free(*a); }
        if s.threads[t].frames.is_empty() {
            s.threads[t].status = Status::Done;
            if t == 0 { return Err(Stop::Done) }
            s.need_switch = true;
            return Ok(());
        }
        let c = Rc::make_mut(s.threads[t].frames.last_mut().unwrap());
        if let (Some(d), Some(v)) = (fr.dst, r) { c.regs[d as usize] = v }
        if fr.normal != NOBLK { self.jump(s, m, fr.normal)? } else { c.ip += 1 }
        Ok(())
    }

    fn switch(&mut self, s: &mut State, w: u32, e: Id, d: u32, cases: &[(u64, u32)]) -> R<u32> {
        // group by target
        let mut groups: Vec<(u32, Id)> = vec![];
        let mut any = FALSE;
        for (c, t) in cases {
            let k = self.a.konst(w, *c as u128);
            let eq = self.a.bin(Op::Eq, e, k);
            any = self.a.bin(Op::Or, any, eq);
            match groups.iter_mut().find(|g| g.0 == *t) {
                Some(g) => g.1 = self.a.bin(Op::Or, g.1, eq),
                None => groups.push((*t, eq)),
            }
        }
        let none = self.a.not(any);
        match groups.iter_mut().find(|g| g.0 == d) { Some(g) => g.1 = self.a.bin(Op::Or, g.1, none), None => groups.push((d, none)) }
        groups.retain(|g| g.1 != FALSE);
        if let Some(i) = self.next_replay(s) {
            s.dec.push(i);
            let (t, c) = groups[i as usize];
            self.add_pc(s, c);
            return Ok(t);
        }
        let mut pick = usize::MAX;
        for (i, g) in groups.iter().enumerate() { if self.eval(s, g.1) == 1 { pick = i; break } }
        if pick == usize::MAX { return Err(Stop::Err("switch without a case".into())) }
        let mut forked = false;
        for (i, g) in groups.clone().iter().enumerate() {
            if i == pick { continue }
            if let Some(m) = self.feasible(s, g.1)? { self.fork_at(s, &[i as u64], m); forked = true }
        }
        if forked { let c = groups[pick].1; self.add_pc(s, c) }
        s.dec.push(pick as u64);
        Ok(groups[pick].0)
    }

    #[inline]
    fn adv(&mut self, s: &mut State) {
        let fr = Rc::make_mut(s.threads[s.cur].frames.last_mut().unwrap());
        fr.ip += 1;
    }

    fn done(&mut self, m: &Module, s: &mut State, dst: Option<u32>, normal: u32, v: V) -> R<()> {
        let c = Rc::make_mut(s.threads[s.cur].frames.last_mut().unwrap());
        if let Some(d) = dst { c.regs[d as usize] = v }
        if normal != NOBLK { self.jump(s, m, normal) } else { c.ip += 1; Ok(()) }
    }

    fn read_str(&mut self, s: &State, p: u64, n: u64) -> String {
        match s.mem.check(p, n, false) {
            Ok(o) => String::from_utf8_lossy(&o.data[(p & 0xffff_ffff) as usize..((p & 0xffff_ffff) + n) as usize]).into_owned(),
            Err(_) => "<bad string>".into(),
        }
    }

    fn label(&mut self, l: &str) -> u32 {
        if let Some(i) = self.label_ix.get(l) { return *i }
        let i = self.labels.len() as u32;
        self.labels.push(l.into());
        self.label_ix.insert(l.into(), i);
        i
    }

    fn fresh(&mut self, s: &mut State, w: u32) -> Id {
        let ord = s.inputs.len() as u32;
        let v = self.a.var(ord, w);
        s.inputs.push(Input { var: v, w });
        let idx = self.a.n(v).k as u32;
        let mut val = s.seed.get(ord as usize).copied().unwrap_or(0);
        if let Some(c) = &self.sh.cfg.concrete { val = c.get(ord as usize).copied().unwrap_or(0) & mask(w); }
        let m = Rc::make_mut(&mut s.model);
        m.set(idx, val & mask(w));
        if self.sh.cfg.concrete.is_some() { return self.a.konst(w, val) }
        v
    }

    fn panic_info(&mut self, s: &State, p: u64) -> String {
        // Look for a core::panic::Location {ptr,len,line,col} reachable from PanicInfo.
        let mut loc = String::from("?");
        if let Ok(o) = s.mem.check(p, 16, false) {
            let o = o.clone();
            let base = (p & 0xffff_ffff) as usize;
            for i in (base..o.data.len().saturating_sub(7)).step_by(8) {
                let q = u64::from_le_bytes(o.data[i..i + 8].try_into().unwrap());
                if let Ok(l) = s.mem.check(q, 24, false) {
                    let lb = (q & 0xffff_ffff) as usize;
                    let g = |k: usize| u64::from_le_bytes(l.data[lb + k..lb + k + 8].try_into().unwrap());
                    let (fp, fl, lc) = (g(0), g(8), g(16));
                    let (line, col) = (lc as u32, lc >> 32);
                    if fl > 0 && fl < 400 && line > 0 && line < 100_000 && col > 0 && col < 1000 {
                        let t = self.read_str(s, fp, fl);
                        if t.contains(".rs") { loc = format!("{}:{}", t.trim_end_matches('\0'), line); break }
                    }
                }
            }
        }
        loc
    }

    #[allow(clippy::too_many_arguments)]
    fn intrinsic(&mut self, m: &Module, s: &mut State, x: X, target: u32, av: &[V], args: &[(Opd, Ty)], dst: Option<u32>, ret: &Ty, normal: u32) -> R<()> {
        if let (Ty::Vec(n, t), X::UMax | X::UMin | X::SMax | X::SMin | X::Abs | X::Ctpop | X::Bswap | X::Fabs | X::Sqrt | X::Floor | X::Ceil | X::Truncf | X::Round | X::RoundEven | X::CopySign
            | X::MinNum | X::MaxNum | X::Minimum | X::Maximum | X::Fun(_) | X::USubSat | X::UAddSat | X::Fshl | X::Fshr) = (ret, x) {
            // elementwise on vectors
            let mut out = Vec::with_capacity(*n as usize);
            for i in 0..*n as usize {
                let one: Vec<V> = av.iter().map(|v| match v { V::A(a) => a[i].clone(), v => v.clone() }).collect();
                let ty: Vec<(Opd, Ty)> = args.iter().map(|(o, t)| (o.clone(), match t { Ty::Vec(_, t) => (**t).clone(), t => t.clone() })).collect();
                out.push(self.intrinsic_value(m, s, x, target, &one, &ty, t, dst, normal)?.ok_or_else(|| Stop::Err("vector intrinsic".into()))?);
            }
            return self.done(m, s, dst, normal, V::A(Rc::new(out)));
        }
        match self.intrinsic_value(m, s, x, target, av, args, ret, dst, normal)? { Some(r) => self.done(m, s, dst, normal, r), None => Ok(()) }
    }

    /// The result of a built-in, or nothing if it is not finished.
    #[allow(clippy::too_many_arguments)]
    fn intrinsic_value(&mut self, m: &Module, s: &mut State, x: X, target: u32, av: &[V], args: &[(Opd, Ty)], ret: &Ty, dst: Option<u32>, normal: u32) -> R<Option<V>> {
        let w = args.first().map(|a| a.1.bits()).unwrap_or(0);
        let r: V = match x {
            X::None => unreachable!(),
            X::Nop => V::C(0),
            X::Memcpy | X::Memmove => {
                let d = self.addr(s, av[0].clone())?;
                let p = self.addr(s, av[1].clone())?;
                let n = self.int(s, av[2].clone())?;
                merr!(s.mem.copy(d, p, n));
                V::C(d)
            }
            X::Memset => {
                let d = self.addr(s, av[0].clone())?;
                let n = self.int(s, av[2].clone())?;
                let (b, e) = match &av[1] { V::C(c) => (*c as u8, 0), V::E(e) => { let e = self.a.extract(*e, 0, 8); (0, e) } _ => (0, 0) };
                merr!(s.mem.set(d, b, e, n));
                V::C(d)
            }
            X::Malloc => { let n = self.int(s, av[0].clone())?; V::C(self.alloc(s, n)?) }
            X::Calloc => { let a = self.int(s, av[0].clone())?; let b = self.int(s, av[1].clone())?; V::C(self.alloc(s, a.wrapping_mul(b))?) }
            X::Realloc => {
                let p = self.addr(s, av[0].clone())?;
                let n = self.int(s, av[1].clone())?;
                let q = self.alloc(s, n)?;
                if p != 0 {
                    let os = match s.mem.get(p >> 32) { Some(o) if p & 0xffff_ffff == 0 => o.data.len() as u64, _ => return Err(Stop::Violation("memory".into(), "realloc of an invalid pointer".into())) };
                    merr!(s.mem.copy(q, p, os.min(n)));
                    s.mem.free(p >> 32);
                }
                V::C(q)
            }
            X::PosixMemalign => {
                let pp = self.addr(s, av[0].clone())?;
                let n = self.int(s, av[2].clone())?;
                let q = self.alloc(s, n)?;
                merr!(s.mem.store(pp, 8, q as u128));
                V::C(0)
            }
            X::Free => {
                let p = self.addr(s, av[0].clone())?;
                if p != 0 {
                    let ok = p & 0xffff_ffff == 0 && matches!(s.mem.get(p >> 32), Some(o) if o.heap) && s.mem.free(p >> 32);
                    if !ok { return Err(Stop::Violation("memory".into(), "free of an invalid pointer".into())) }
                }
                V::C(0)
            }
            X::Memcmp => {
                let p = self.addr(s, av[0].clone())?;
                let q = self.addr(s, av[1].clone())?;
                let n = self.int(s, av[2].clone())?;
                if n == 0 { V::C(0) } else {
                    let o1 = merr!(s.mem.check(p, n, false)).clone();
                    let o2 = merr!(s.mem.check(q, n, false)).clone();
                    let (a, b) = ((p & 0xffff_ffff) as usize, (q & 0xffff_ffff) as usize);
                    let n = n as usize;
                    let rw = ret.bits();
                    let bcmp = m.funcs[target as usize].name == "bcmp";
                    let mut acc: Id = self.a.konst(rw, 0);
                    let mut all = TRUE;
                    for i in (0..n).rev() {
                        let x = Mem::byte(&mut self.a, &o1, a + i);
                        let y = Mem::byte(&mut self.a, &o2, b + i);
                        if x == y { continue }
                        let eq = self.a.bin(Op::Eq, x, y);
                        if bcmp {
                            all = self.a.bin(Op::And, all, eq);
                            if all == FALSE { break }
                        } else {
                            let xw = self.a.zext(x, rw);
                            let yw = self.a.zext(y, rw);
                            let d = self.a.bin(Op::Sub, xw, yw);
                            acc = self.a.ite(eq, acc, d);
                        }
                    }
                    if bcmp { let n = self.a.not(all); let e = self.a.zext(n, rw); self.vx(e) } else { self.vx(acc) }
                }
            }
            X::Strlen => {
                let p = self.addr(s, av[0].clone())?;
                let mut n = 0;
                loop {
                    match merr!(s.mem.load(&mut self.a, p + n, 1)) { 
                        Ok(0) => break,
                        Ok(_) => n += 1,
                        Err(e) => { let z = self.mkc(8, 0); let c = self.a.bin(Op::Eq, e, z); if self.branch(s, c)? { break } n += 1 }
                    }
                }
                V::C(n)
            }
            X::UMax | X::UMin | X::SMax | X::SMin => {
                let p = match x { X::UMax => Pred::Ugt, X::UMin => Pred::Ult, X::SMax => Pred::Sgt, _ => Pred::Slt };
                if matches!(args[0].1, Ty::Vec(..)) { return Err(Stop::Err("vector minmax".into())) }
                let c = self.icmp(p, w, &av[0], &av[1]);
                match c { V::C(c) => if c == 1 { av[0].clone() } else { av[1].clone() }, V::E(c) => self.select(c, &av[0], &av[1], ret)?, _ => unreachable!() }
            }
            X::Abs => {
                let e = self.ex(&av[0], w);
                let z = self.a.konst(w, 0);
                let n = self.a.bin(Op::Sub, z, e);
                let c = self.a.bin(Op::Slt, e, z);
                let r = self.a.ite(c, n, e);
                self.vx(r)
            }
            X::Ctlz | X::Cttz | X::Ctpop => {
                match &av[0] {
                    V::C(c) => V::C(match x { X::Ctlz => (*c).leading_zeros() as u64 - (64 - w as u64), X::Cttz => (c.trailing_zeros() as u64).min(w as u64), _ => c.count_ones() as u64 }),
                    V::E(e) => {
                        let e = *e;
                        let rw = ret.bits();
                        if x == X::Ctpop {
                            let mut acc = self.a.konst(rw, 0);
                            for i in 0..w { let b = self.a.extract(e, i, 1); let b = self.a.zext(b, rw); acc = self.a.bin(Op::Add, acc, b) }
                            self.vx(acc)
                        } else {
                            let mut acc = self.a.konst(rw, w as u128);
                            let order: Vec<u32> = if x == X::Cttz { (0..w).rev().collect() } else { (0..w).collect() };
                            for i in order {
                                let b = self.a.extract(e, i, 1);
                                let k = self.a.konst(rw, if x == X::Cttz { i as u128 } else { (w - 1 - i) as u128 });
                                acc = self.a.ite(b, k, acc);
                            }
                            self.vx(acc)
                        }
                    }
                    _ => return Err(Stop::Err("vector bit count".into())),
                }
            }
            X::Bswap => {
                let e = self.ex(&av[0], w);
                let mut acc = self.a.extract(e, 0, 8);
                for i in 1..w / 8 { let b = self.a.extract(e, 8 * i, 8); acc = self.a.concat(acc, b) }
                self.vx(acc)
            }
            X::BitRev => {
                let e = self.ex(&av[0], w);
                match self.a.is_const(e) {
                    Some(k) => { let mut r = 0u128; for i in 0..w { if k >> i & 1 == 1 { r |= 1 << (w - 1 - i) } } let e = self.a.konst(w, r); self.vx(e) }
                    None => return Err(Stop::Err("symbolic bitreverse".into())),
                }
            }
            X::Fshl | X::Fshr => {
                let sh = self.int(s, av[2].clone())? % w as u64;
                let a = self.ex(&av[0], w);
                let b = self.ex(&av[1], w);
                let c = self.a.concat(a, b);
                let lo = if x == X::Fshl { w - sh as u32 } else { sh as u32 };
                let r = self.a.extract(c, lo, w);
                self.vx(r)
            }
            X::USubSat | X::UAddSat => {
                let a = self.ex(&av[0], w);
                let b = self.ex(&av[1], w);
                let r = if x == X::USubSat {
                    let c = self.a.bin(Op::Ult, a, b);
                    let d = self.a.bin(Op::Sub, a, b);
                    let z = self.a.konst(w, 0);
                    self.a.ite(c, z, d)
                } else {
                    let d = self.a.bin(Op::Add, a, b);
                    let c = self.a.bin(Op::Ult, d, a);
                    let z = self.a.konst(w, mask(w));
                    self.a.ite(c, z, d)
                };
                self.vx(r)
            }
            X::UAddO | X::USubO | X::UMulO | X::SAddO | X::SSubO | X::SMulO => {
                let a = self.ex(&av[0], w);
                let b = self.ex(&av[1], w);
                let (r, o) = match x {
                    X::UAddO => { let r = self.a.bin(Op::Add, a, b); let o = self.a.bin(Op::Ult, r, a); (r, o) }
                    X::USubO => { let r = self.a.bin(Op::Sub, a, b); let o = self.a.bin(Op::Ult, a, b); (r, o) }
                    _ => {
                        if w > 64 { return Err(Stop::Err("wide overflow op".into())) }
                        let signed = x != X::UMulO;
                        let ext = |s: &mut Self, e: Id| if signed { s.a.sext(e, 2 * w) } else { s.a.zext(e, 2 * w) };
                        let aw = ext(self, a);
                        let bw = ext(self, b);
                        let op = match x { X::SAddO => Op::Add, X::SSubO => Op::Sub, _ => Op::Mul };
                        let rw = self.a.bin(op, aw, bw);
                        let r = self.a.extract(rw, 0, w);
                        let back = ext(self, r);
                        let eq = self.a.bin(Op::Eq, rw, back);
                        let o = self.a.not(eq);
                        (r, o)
                    }
                };
                V::A(Rc::new(vec![self.vx(r), self.vx(o)]))
            }
            X::UCmp | X::SCmp => {
                let (lt, gt) = if x == X::UCmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, w, &av[0], &av[1]);
                let g = self.icmp(gt, w, &av[0], &av[1]);
                let l = self.ex(&l, 1);
                let g = self.ex(&g, 1);
                let rw = ret.bits();
                let (m1, p1, z) = (self.a.konst(rw, mask(rw)), self.a.konst(rw, 1), self.a.konst(rw, 0));
                let t = self.a.ite(g, p1, z);
                let r = self.a.ite(l, m1, t);
                self.vx(r)
            }
            X::SAddSat | X::SSubSat => return Err(Stop::Err("signed saturating op".into())),
            X::Expect => av[0].clone(),
            X::IsConst => V::C(0),
            X::Trap | X::Abort => return Err(Stop::Violation("abort".into(), "process abort".into())),
            X::TlsAddr => {
                let g = self.addr(s, av[0].clone())?;
                let gi = (g >> 32) as u32;
                let key = (gi, s.cur);
                let off = g & 0xffff_ffff;
                let base = match s.tls.get(&key) {
                    Some(b) => *b,
                    None => {
                        let bytes = m.globals[gi as usize - 1].bytes.clone();
                        let a = s.mem.alloc(bytes.len(), false);
                        s.mem.get_mut(a >> 32).unwrap().data = bytes;
                        Rc::make_mut(&mut s.tls).insert(key, a);
                        a
                    }
                };
                V::C(base + off)
            }
            X::Pause | X::RYield => {
                if s.threads.len() > 1 {
                    let r = self.runnable(s);
                    if r.len() > 1 {
                        // hand over to any other runnable thread, or spin on until the loop gives up
                        let others: Vec<usize> = r.into_iter().filter(|t| *t != s.cur).collect();
                        let stay = s.threads[s.cur].stay;
                        if x == X::Pause && stay > 0 && stay < 128 {
                            s.threads[s.cur].stay += 1;
                            self.done(m, s, dst, normal, V::C(0))?;
                            return Ok(None);
                        }
                        s.threads[s.cur].stay = 0;
                        let c = self.choose(s, others.len() as u64 + (x == X::Pause && stay == 0) as u64) as usize;
                        if c == others.len() {
                            s.threads[s.cur].stay = 1;
                            self.done(m, s, dst, normal, V::C(0))?;
                            return Ok(None);
                        }
                        self.done(m, s, dst, normal, V::C(0))?;
                        s.cur = others[c];
                        s.sched.push(s.cur as u8);
                        if let Status::Join(_) = s.threads[s.cur].status { s.threads[s.cur].status = Status::Run }
                        s.sched_ok = true;
                        return Ok(None);
                    }
                }
                V::C(0)
            }
            X::Unwind => {
                let p = match &av[0] { V::C(c) => *c, _ => 0 };
                let loc = self.panic_info(s, p);
                return Err(Stop::Violation("panic".into(), loc));
            }
            X::HashOne => V::C(0),
            X::Syscall => {
                let nr = self.int(s, av[0].clone())?;
                match nr {
                    202 => {
                        s.threads[s.cur].stay = 0;
                        // futex(uaddr, op, val, ...)
                        let a = self.addr(s, av[1].clone())?;
                        let op = self.int(s, av[2].clone())? & 0x7f;
                        match op {
                            0 | 9 => {
                                if let Some(v) = s.threads[s.cur].wake_val.take() { V::C(v) } else {
                                    let val = self.int(s, av[3].clone())? as u32;
                                    let cur = match merr!(s.mem.load(&mut self.a, a, 4)) { Ok(c) => c as u32, Err(_) => return Err(Stop::Err("symbolic futex word".into())) };
                                    if cur != val { s.io.errno = 11; V::C(u64::MAX) } else {
                                        s.threads[s.cur].status = Status::Futex(a);
                                        { s.need_switch = true; return Ok(None) }
                                    }
                                }
                            }
                            1 | 10 => {
                                let n = self.int(s, av[3].clone())? as u32;
                                let mut k = 0u32;
                                for t in s.threads.iter_mut() {
                                    if k >= n { break }
                                    if t.status == Status::Futex(a) { t.status = Status::Run; t.wake_val = Some(0); k += 1 }
                                }
                                V::C(k as u64)
                            }
                            o => return Err(Stop::Err(format!("futex op {}", o))),
                        }
                    }
                    318 => { let p = self.addr(s, av[1].clone())?; let n = self.int(s, av[2].clone())?; merr!(s.mem.set(p, 0, 0, n)); V::C(n) }
                    186 => V::C(1000 + s.cur as u64),
                    n => return Err(Stop::Err(format!("syscall {}", n))),
                }
            }
            X::Errno => {
                // one object per state is enough
                let key = (0u32, s.cur);
                let a = match s.tls.get(&key) { Some(a) => *a, None => { let a = s.mem.alloc(4, false); Rc::make_mut(&mut s.tls).insert(key, a); merr!(s.mem.set(a, 0, 0, 4)); a } };
                // a system call of the executor's own has failed
                if s.io.errno != 0 { let e = s.io.errno; s.io.errno = 0; merr!(s.mem.store(a, 4, e as u128)) }
                V::C(a)
            }
            X::ZeroRet => V::C(0),
            X::GetRandom => { let p = self.addr(s, av[0].clone())?; let n = self.int(s, av[1].clone())?; merr!(s.mem.set(p, 0, 0, n)); V::C(n) }
            X::Write => {
                let p = self.addr(s, av[1].clone())?;
                let n = self.int(s, av[2].clone())?;
                let _ = p;
                V::C(n)
            }
            X::Fabs => {
                let k = V::C((mask(w) >> 1) as u64);
                self.bin_op(s, BinK::And, w, false, &av[0], &k)?
            }
            X::CopySign => {
                let sb = V::C(1u64 << (w - 1));
                let mg = V::C((mask(w) >> 1) as u64);
                let a = self.bin_op(s, BinK::And, w, false, &av[0], &mg)?;
                let b = self.bin_op(s, BinK::And, w, false, &av[1], &sb)?;
                self.bin_op(s, BinK::Or, w, false, &a, &b)?
            }
            X::Sqrt => { let e = self.ex(&av[0], w); let r = self.a.un(Op::FSqrt, e, w, 0); self.vx(r) }
            X::Floor | X::Ceil | X::Truncf | X::Round | X::RoundEven => {
                let k = match x { X::Truncf => 0, X::Floor => 1, X::Ceil => 2, X::Round => 3, _ => 4 };
                let e = self.ex(&av[0], w);
                let r = self.a.un(Op::FRound, e, w, k);
                self.vx(r)
            }
            X::MinNum | X::MaxNum | X::Minimum | X::Maximum => {
                let a = self.ex(&av[0], w);
                let b = self.ex(&av[1], w);
                let na = self.isnan(a);
                let nb = self.isnan(b);
                let is_min = matches!(x, X::MinNum | X::Minimum);
                let c = if is_min { self.a.bin(Op::FLt, b, a) } else { self.a.bin(Op::FLt, a, b) };
                let base = self.a.ite(c, b, a);
                let r = if matches!(x, X::MinNum | X::MaxNum) {
                    let t = self.a.ite(nb, a, base);
                    self.a.ite(na, b, t)
                } else {
                    let t = self.a.ite(nb, b, base);
                    self.a.ite(na, a, t)
                };
                self.vx(r)
            }
            X::Fun(k) => {
                let k = k as usize;
                let mut x = vec![];
                for (i, v) in av.iter().enumerate().take(fun_args(k)) { x.push(self.ex(v, args[i].1.bits())) }
                let r = self.a.fun(k, w, &x);
                self.vx(r)
            }
            X::FpToSiSat | X::FpToUiSat => {
                let e = self.ex(&av[0], w);
                let r = self.a.un(if x == X::FpToSiSat { Op::FpToSi } else { Op::FpToUi }, e, ret.bits(), 0);
                self.vx(r)
            }
            X::RU8 => { let e = self.fresh(s, 8); self.vx(e) }
            X::RU16 => { let e = self.fresh(s, 16); self.vx(e) }
            X::RU32 => { let e = self.fresh(s, 32); self.vx(e) }
            X::RU64 => { let e = self.fresh(s, 64); self.vx(e) }
            X::RBit => { let e = self.fresh(s, 1); self.vx(e) }
            X::RBelow => {
                let n = self.int(s, av[0].clone())?;
                if n <= 1 { V::C(0) } else {
                    let bits = 64 - (n - 1).leading_zeros();
                    // decisions before effects: `fresh` has no decision, assume below is satisfied by 0
                    let e = self.fresh(s, bits);
                    if n < 1u64 << bits.min(63) {
                        let k = self.a.konst(bits, n as u128);
                        let c = self.a.bin(Op::Ult, e, k);
                        if self.eval(s, c) != 1 { return Err(Stop::Err("rsx_below seed".into())) }
                        self.add_pc(s, c);
                    }
                    let z = self.a.zext(e, 64);
                    self.vx(z)
                }
            }
            X::RAssume => { let c = self.ex(&av[0], w); let c = if w > 1 { self.a.extract(c, 0, 1) } else { c }; self.assume(s, c)?; V::C(0) }
            X::RCheck => {
                let c = self.ex(&av[0], w);
                let c = if w > 1 { self.a.extract(c, 0, 1) } else { c };
                let p = self.addr(s, av[1].clone())?;
                let n = self.int(s, av[2].clone())?;
                let l = self.read_str(s, p, n);
                if c == FALSE { return Err(Stop::Violation("check".into(), l)) }
                let li = self.label(&format!("check:{}", l));
                if !s.reach.contains(&li) { s.reach.push(li) }
                if c != TRUE {
                    let nc = self.a.not(c);
                    // replayed prefixes have already discharged this assertion
                    if s.rpos >= s.replay.len() {
                        if let Some(md) = self.feasible(s, nc)? {
                            let mut v = s.clone();
                            v.model = md;
                            v.pc.push(nc);
                            self.report(&v, "check", &l);
                        }
                    }
                    self.assume(s, c)?;
                }
                V::C(0)
            }
            X::RReach => {
                let p = self.addr(s, av[0].clone())?;
                let n = self.int(s, av[1].clone())?;
                let l = self.read_str(s, p, n);
                let li = self.label(&l);
                if !s.reach.contains(&li) { s.reach.push(li) }
                V::C(0)
            }
            X::RNote => { s.notes.push(av[0].clone()); V::C(0) }
            X::RPreempt => { s.preempt = self.int(s, av[0].clone())? as u32; V::C(0) }
            X::RBudget => { s.budget = self.int(s, av[0].clone())?; V::C(0) }
            X::RMark => { s.marks.push(av[0].clone()); V::C(s.marks.len() as u64 - 1) }
            X::RMarkGet => { let i = self.int(s, av[0].clone())? as usize; s.marks.get(i).cloned().ok_or_else(|| Stop::Err("unknown marker".into()))? }
            X::FmtF64 | X::FmtF32 => unreachable!(),
            X::RPick => V::C(self.int(s, av[0].clone())?),
            X::RSpawn => {
                let fa = self.addr(s, av[0].clone())?;
                let f = m.addr_fn(fa).ok_or_else(|| Stop::Err("spawn target".into()))?;
                let tf = &m.funcs[f as usize];
                let mut regs = vec![V::C(0); tf.nregs as usize];
                regs[0] = av[1].clone();
                self.funcs[f as usize] = true;
                let id = s.threads.len();
                s.threads.push(Thread { frames: vec![Rc::new(Frame { f, blk: 0, ip: 0, prev: NOBLK, regs, allocas: vec![], dst: None, normal: NOBLK })], status: Status::Run, stay: 0, wake_val: None });
                V::C(id as u64)
            }
            X::RJoin => {
                let t = self.int(s, av[0].clone())? as usize;
                if s.threads[t].status != Status::Done {
                    s.threads[s.cur].status = Status::Join(t);
                    { s.need_switch = true; return Ok(None) }
                }
                V::C(0)
            }
            X::RTid => V::C(s.cur as u64),
            X::RIsEngine => V::C(1),
            X::REnd => return Err(Stop::Done),
            X::RFind => {
                let p = self.addr(s, av[0].clone())?;
                let n = self.int(s, av[1].clone())?;
                let l = self.read_str(s, p, n);
                match m.funcs.iter().position(|f| !f.declared && f.name.contains(&*l)) {
                    Some(f) => V::C(m.fn_addr(f as u32)),
                    None => return Err(Stop::Err(format!("no function {}", l))),
                }
            }
            X::RLive => V::C(s.mem.live as u64),
            X::Unsupported => return Err(Stop::Err(format!("call to unsupported external function {}", m.funcs[target as usize].name))),
        };
        Ok(Some(r))
    }

    fn alloc(&mut self, s: &mut State, n: u64) -> R<u64> {
        if n > 1 << 30 { return Err(Stop::Violation("memory".into(), format!("allocation of {} bytes", n))) }
        Ok(s.mem.alloc(n as usize, true))
    }
}
