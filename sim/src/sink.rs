//! The simulated storage: an append-only device behind `std::io::Write`. It decides, from the
//! plan of the scenario alone, how much of each write it accepts, when it interrupts, when and
//! how it fails, and which bytes are durable.
use crate::rng::{mix_all, Trace};
use crate::scenario::*;
use std::io::{self, ErrorKind, Write};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Default)]
pub struct FaultCounts {
    pub short_writes: u64,
    pub interrupts: u64,
    pub write_errors: u64,
    pub zero_writes: u64,
    pub flush_errors: u64,
    pub sink_panics: u64,
    pub writes: u64,
    pub flushes: u64,
}

/// Panic payloads, so the simulator can tell its own unwinding from the code's.
pub struct SinkPanic;
pub struct WorkBound;

pub struct SinkState {
    plan: SinkPlan,
    left: Vec<i64>,
    pub bytes: Vec<u8>,
    pub durable: usize,
    pub calls: u64,
    flushes: u32,
    burst: u32,
    rested: bool,
    dead: Option<Act>,
    /// A failure (not a transparent interruption) struck since last cleared.
    pub hard: Option<Act>,
    pub call_writes: u64,
    pub call_interrupts: u64,
    pub call_start: usize,
    /// Kept forever once true: any hard failure so far.
    pub ever_hard: bool,
    pub trace: Trace,
    /// The order of calls, results and faults only, without the data.
    pub shape: Trace,
    pub counts: FaultCounts,
    /// Heap bytes taken by the sink itself.
    pub alloc: i64,
}

impl SinkState {
    pub fn new(plan: &SinkPlan) -> SinkState {
        SinkState {
            left: plan.faults.iter().map(|f| if f.times == 0 { i64::MAX } else { f.times as i64 }).collect(),
            plan: plan.clone(),
            bytes: vec![],
            durable: 0,
            calls: 0,
            flushes: 0,
            burst: 0,
            rested: true,
            dead: None,
            hard: None,
            call_writes: 0,
            call_interrupts: 0,
            call_start: 0,
            ever_hard: false,
            trace: Trace::new(),
            shape: Trace::new(),
            counts: FaultCounts::default(),
            alloc: 0,
        }
    }

    pub fn begin_call(&mut self, tag: u64) {
        self.hard = None;
        self.call_writes = 0;
        self.call_interrupts = 0;
        self.call_start = self.bytes.len();
        self.trace.add(0xCA11 ^ (tag << 16));
        self.shape.add(0xCA11 ^ ((tag & 0xff) << 16));
    }

    fn fail(&mut self, act: Act, write: bool) -> io::Error {
        self.hard = Some(act);
        self.ever_hard = true;
        self.trace.add(0xFA11 + act.code());
        self.shape.add(0xFA11 + act.code());
        if write {
            self.counts.write_errors += 1;
        } else {
            self.counts.flush_errors += 1;
        }
        let kind = match act {
            Act::BrokenPipe => ErrorKind::BrokenPipe,
            Act::NoSpace => return io::Error::from_raw_os_error(28),
            Act::WouldBlock => ErrorKind::WouldBlock,
            Act::TimedOut => ErrorKind::TimedOut,
            Act::UnexpectedEof => ErrorKind::UnexpectedEof,
            Act::Interrupted => ErrorKind::Interrupted,
            Act::Kind(k) => KINDS[k as usize % KINDS.len()],
            Act::Os(e) => return io::Error::from_raw_os_error(e),
            _ => ErrorKind::Other,
        };
        io::Error::new(kind, "injected")
    }

    fn strike(&mut self, act: Act) -> io::Result<usize> {
        match act {
            Act::Interrupted => {
                self.counts.interrupts += 1;
                self.call_interrupts += 1;
                self.trace.add(0x1E);
                self.shape.add(0x1E);
                Err(io::Error::from(ErrorKind::Interrupted))
            }
            Act::Zero => {
                self.hard = Some(act);
                self.ever_hard = true;
                self.counts.zero_writes += 1;
                self.trace.add(0x0);
                self.shape.add(0x0);
                Ok(0)
            }
            Act::Panic => {
                self.hard = Some(act);
                self.ever_hard = true;
                self.counts.sink_panics += 1;
                self.trace.add(0xDEAD);
                self.shape.add(0xDEAD);
                Err(io::Error::new(ErrorKind::Other, "panic"))
            }
            a => Err(self.fail(a, true)),
        }
    }

    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        self.call_writes += 1;
        self.counts.writes += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some(a) = self.dead {
            return self.strike(a);
        }
        let pos = self.bytes.len() as u64;
        let mut n = buf.len();
        let mut hit: Option<usize> = None;
        for (i, f) in self.plan.faults.iter().enumerate() {
            if self.left[i] <= 0 {
                continue;
            }
            match f.at {
                Place::Byte(o) if o == pos => hit = Some(i),
                Place::Byte(o) if o > pos && o < pos + n as u64 => n = (o - pos) as usize,
                Place::Call(c) if c == self.calls - 1 => hit = Some(i),
                _ => {}
            }
            if hit.is_some() {
                break;
            }
        }
        if let Some(i) = hit {
            let f = self.plan.faults[i];
            self.left[i] -= 1;
            if f.times == 0 && f.act.is_hard() {
                self.dead = Some(f.act);
            }
            if let (Place::Call(c), true) = (f.at, f.times > 1) {
                // Strike again at the next call.
                self.plan.faults[i].at = Place::Call(c + 1);
            }
            if f.act == Act::Interrupted && f.times == 0 {
                // Never interrupt for ever: one burst.
                self.left[i] = 0;
            }
            return self.strike(f.act);
        }
        if let Some((seed, p, burst)) = self.plan.interrupts {
            if self.burst > 0 {
                self.burst -= 1;
                return self.strike(Act::Interrupted);
            }
            let h = mix_all(&[seed, self.calls, 1]);
            if self.rested && (h & 255) < p as u64 {
                self.burst = ((h >> 8) % (burst.max(1) as u64)) as u32;
                self.rested = false;
                return self.strike(Act::Interrupted);
            }
        }
        self.rested = true;
        let want = match self.plan.accept {
            Accept::Whole => n,
            Accept::AtMost(k) => n.min(k.max(1) as usize),
            Accept::AllButOne => (n - 1).max(1),
            Accept::Random(seed) => {
                let h = mix_all(&[seed, self.calls, 2]);
                match h & 7 {
                    0 => 1,
                    1 => n,
                    2 => (n - 1).max(1),
                    3 => n.min(1 + ((h >> 8) % 4) as usize),
                    _ => 1 + ((h >> 8) % n as u64) as usize,
                }
            }
        };
        n = n.min(want).max(1);
        if n < buf.len() {
            self.counts.short_writes += 1;
            self.shape.add(0x5407);
        }
        self.bytes.extend_from_slice(&buf[..n]);
        self.shape.add(0x3217E);
        self.trace.add(n as u64);
        self.trace.bytes(&buf[..n]);
        if self.plan.writeback > 0 && self.bytes.len() - self.durable >= self.plan.writeback as usize {
            self.durable = self.bytes.len();
        }
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        let k = self.flushes;
        self.flushes += 1;
        self.counts.flushes += 1;
        if let Some(a) = self.dead {
            return Err(self.fail(a, false));
        }
        for i in 0..self.plan.faults.len() {
            let f = self.plan.faults[i];
            if f.at == Place::Flush(k) && self.left[i] > 0 {
                if f.times == 0 {
                    self.dead = Some(f.act);
                } else if f.times > 1 {
                    self.plan.faults[i].at = Place::Flush(k + 1);
                }
                self.left[i] -= 1;
                return Err(self.fail(f.act, false));
            }
        }
        self.durable = self.bytes.len();
        self.trace.add(0xF1);
        self.shape.add(0xF1);
        Ok(())
    }
}

#[derive(Clone)]
pub struct SimSink {
    pub st: Arc<Mutex<SinkState>>,
    /// Called before every sink operation: the scheduler's chance to run somebody else.
    pub yielder: Option<Arc<dyn Fn() + Send + Sync>>,
}

impl SimSink {
    pub fn new(plan: &SinkPlan) -> SimSink {
        SimSink { st: Arc::new(Mutex::new(SinkState::new(plan))), yielder: None }
    }
    pub fn lock(&self) -> std::sync::MutexGuard<'_, SinkState> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
}

impl Write for SimSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let armed = crate::host::disarm();
        crate::host::tick();
        let live0 = crate::host::live();
        if let Some(y) = &self.yielder {
            y();
        }
        let (r, bound, panic) = {
            let mut s = self.lock();
            // Each write call either makes progress, is interrupted, or fails; anything beyond
            // that is unbounded work.
            let progress = (s.bytes.len() - s.call_start) as u64;
            let bound = s.call_writes > progress + s.call_interrupts + 10_000;
            let r = s.write(buf);
            let panic = s.hard == Some(Act::Panic);
            s.alloc += crate::host::live() - live0;
            (r, bound, panic)
        };
        if bound {
            std::panic::panic_any(WorkBound);
        }
        if panic && r.is_err() {
            std::panic::panic_any(SinkPanic);
        }
        crate::host::rearm(armed);
        r
    }
    fn flush(&mut self) -> io::Result<()> {
        let armed = crate::host::disarm();
        if let Some(y) = &self.yielder {
            y();
        }
        crate::host::tick();
        let r = self.lock().flush();
        crate::host::rearm(armed);
        r
    }
}
