//! Loads the documents of a case and renders its operations.

use crate::doc;
use crate::expect;
use crate::inject;
use crate::record::{Ev, Recorder, Runaway, SinkFailure};
use kurbo::Affine;
use serde_json::Value as J;
use std::panic::{AssertUnwindSafe, catch_unwind};
use velato::{Composition, Renderer};

pub struct Op {
    pub doc: usize,
    pub f: f64,
    pub t: Affine,
    pub alpha: f64,
}

pub struct Case {
    pub cno: u64,
    pub fam: String,
    pub raw: J,
    pub json: Vec<J>,
    pub reps: Vec<Vec<J>>,
    pub ops: Vec<Op>,
}

/// How a render ended.
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done,
    SinkFailed,
    Runaway,
    Panicked(String),
}

pub fn message(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        (*s).into()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Runs code under test, turning a panic into a message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(message)
}

impl Case {
    pub fn parse(raw: J) -> Case {
        let mut json = Vec::new();
        let mut reps = Vec::new();
        for d in expect::list(&raw["docs"]) {
            let mut r = Vec::new();
            json.push(doc::convert(d, &mut r));
            reps.push(r);
        }
        let ops = expect::list(&raw["ops"])
            .iter()
            .map(|o| Op {
                doc: o["d"].as_u64().unwrap() as usize - 1,
                f: expect::num(&o["f"]),
                t: expect::affine(&o["T"]),
                alpha: expect::num(&o["alpha"]),
            })
            .collect();
        Case {
            cno: raw["cno"].as_u64().unwrap(),
            fam: raw["fam"].as_str().unwrap().into(),
            json,
            reps,
            ops,
            raw,
        }
    }

    pub fn load(&self, d: usize) -> Result<Composition, String> {
        let text = self.json[d].to_string();
        let r = guarded(|| text.parse::<Composition>());
        match r {
            Err(p) => Err(format!("loading document {} panicked: {p}", d + 1)),
            Ok(Err(e)) => Err(format!("document {} was rejected: {e}", d + 1)),
            Ok(Ok(mut c)) => {
                inject::inject(&mut c, &self.reps[d]);
                inject::by_hand(&mut c, &self.raw["docs"][d]);
                Ok(c)
            }
        }
    }

    pub fn load_all(&self) -> Result<Vec<Composition>, String> {
        (0..self.json.len()).map(|d| self.load(d)).collect()
    }
}

pub fn render(r: &mut Renderer, c: &Composition, op: &Op, fail_at: usize) -> (Vec<Ev>, End) {
    let mut sink = Recorder { fail_at, ..Recorder::default() };
    let res = catch_unwind(AssertUnwindSafe(|| r.append(c, op.f, op.t, op.alpha, &mut sink)));
    let end = match res {
        Ok(()) => End::Done,
        Err(e) if e.is::<SinkFailure>() => End::SinkFailed,
        Err(e) if e.is::<Runaway>() => End::Runaway,
        Err(e) => End::Panicked(message(e)),
    };
    (sink.evs, end)
}

/// A complete render with a fresh renderer.
pub fn fresh(c: &Composition, op: &Op) -> Result<Vec<Ev>, String> {
    let (evs, end) = render(&mut Renderer::new(), c, op, 0);
    match end {
        End::Done => Ok(evs),
        End::Panicked(m) => Err(format!("rendering panicked: {m}")),
        e => Err(format!("rendering ended with {e:?} after {} calls", evs.len())),
    }
}
