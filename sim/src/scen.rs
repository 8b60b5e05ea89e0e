//! Scenarios: what the simulated users do. Plain data, so that a failing one can be stored,
//! shrunk and replayed.

use crate::types::Cfg;

macro_rules! codes {
    ($($name: ident,)*) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum Code { $($name,)* }
        impl Code {
            pub fn name(self) -> &'static str {
                match self { $(Code::$name => stringify!($name),)* }
            }
            pub fn parse(s: &str) -> Option<Code> {
                match s { $(stringify!($name) => Some(Code::$name),)* _ => None }
            }
        }
    };
}

codes! {
    Get, Peek, Contains, Insert, InsertLc, Replace, ReplaceLc, Remove, Retain, Clear,
    Len, Weight, IsEmpty, Capacity, Reserve,
    Gvog, Goi, GvogAsync, GoiAsync, GInsert,
    Sleep, Yield, PinKey,
    GetMut, PeekMut, GoiMut, GuardRef, GuardMut, Iter, Drain, CloneCache,
    Hits, Halt,
}

/// How a load ends.
pub const FIN_INSERT: i64 = 0;
pub const FIN_INSERT_LC: i64 = 1;
/// Guard dropped; the loader returns an error.
pub const FIN_DROP: i64 = 2;
/// Guard dropped by unwinding; the loader panics.
pub const FIN_PANIC: i64 = 3;

/// As a timeout: Duration::MAX.
pub const FOREVER: i64 = i64::MAX;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub code: Code,
    pub k: u32,
    /// Weight of the value this operation stores.
    pub w: u32,
    /// Whether the value is pinned.
    pub pin: bool,
    pub a: i64,
    pub b: i64,
    pub c: i64,
    /// Done while the load is in flight.
    pub sub: Vec<Op>,
}

impl Op {
    pub fn new(code: Code, k: u32) -> Op {
        Op {
            code,
            k,
            w: 1,
            pin: false,
            a: 0,
            b: 0,
            c: 0,
            sub: Vec::new(),
        }
    }

    fn write(&self, out: &mut String) {
        out.push_str(&format!(
            "{} {} {} {} {} {} {}",
            self.code.name(),
            self.k,
            self.w,
            self.pin as u8,
            self.a,
            self.b,
            self.c
        ));
        if !self.sub.is_empty() {
            out.push_str(" [");
            for (i, o) in self.sub.iter().enumerate() {
                if i > 0 {
                    out.push_str(" ,");
                }
                out.push(' ');
                o.write(out);
            }
            out.push_str(" ]");
        }
    }

    fn parse(t: &mut std::iter::Peekable<std::str::SplitWhitespace>) -> Option<Op> {
        let code = Code::parse(t.next()?)?;
        let mut n = || t.next()?.parse::<i64>().ok();
        let (k, w, pin, a, b, c) = (n()?, n()?, n()?, n()?, n()?, n()?);
        let mut sub = Vec::new();
        if t.peek() == Some(&"[") {
            t.next();
            loop {
                sub.push(Op::parse(t)?);
                match t.next()? {
                    "," => continue,
                    "]" => break,
                    _ => return None,
                }
            }
        }
        Some(Op {
            code,
            k: k as u32,
            w: w as u32,
            pin: pin != 0,
            a,
            b,
            c,
            sub,
        })
    }

    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }

    pub fn count(&self) -> usize {
        1 + self.sub.iter().map(Op::count).sum::<usize>()
    }
}

/// Phases run one after the other, with a look at the quiescent cache in between; the tasks of a
/// phase run concurrently.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Scenario {
    pub cfg: Cfg,
    pub phases: Vec<Vec<Vec<Op>>>,
}

impl Scenario {
    pub fn text(&self) -> String {
        let mut s = String::new();
        let d = Cfg::default();
        for ((n, v), (_, dv)) in self.cfg.pairs().iter().zip(d.pairs()) {
            if *v != dv {
                s.push_str(&format!("cfg {n} {v}\n"));
            }
        }
        for p in &self.phases {
            s.push_str("phase\n");
            for t in p {
                s.push_str("task\n");
                for o in t {
                    s.push_str("op ");
                    o.write(&mut s);
                    s.push('\n');
                }
            }
        }
        s
    }

    pub fn parse(text: &str) -> Option<Scenario> {
        let mut s = Scenario::default();
        for line in text.lines() {
            let mut t = line.split_whitespace().peekable();
            match t.next() {
                Some("cfg") => {
                    let n = t.next()?;
                    let v = t.next()?.parse().ok()?;
                    if !s.cfg.set(n, v) {
                        return None;
                    }
                }
                Some("phase") => s.phases.push(Vec::new()),
                Some("task") => s.phases.last_mut()?.push(Vec::new()),
                Some("op") => {
                    let o = Op::parse(&mut t)?;
                    s.phases.last_mut()?.last_mut()?.push(o);
                }
                _ => (),
            }
        }
        Some(s)
    }

    pub fn ops(&self) -> usize {
        self.phases
            .iter()
            .flatten()
            .flatten()
            .map(Op::count)
            .sum()
    }

    pub fn has_pins(&self) -> bool {
        fn any(ops: &[Op]) -> bool {
            ops.iter().any(|o| o.pin || o.code == Code::PinKey || any(&o.sub))
        }
        self.phases.iter().flatten().any(|t| any(t))
    }

    pub fn grows(&self) -> bool {
        self.phases.iter().flatten().flatten().any(|o| {
            o.a >= 0 && matches!(o.code, Code::GetMut | Code::PeekMut | Code::GoiMut | Code::GuardMut)
        })
    }
}
