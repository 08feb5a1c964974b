//! C11: two renderers at work at the same time, following a schedule of module Concur.

use crate::check::{Found, Stats};
use crate::expect;
use crate::record::{Ev, Recorder, Runaway, SinkFailure};
use crate::session::{Case, End, fresh, message};
use kurbo::{Affine, Shape};
use peniko::{BlendMode, Brush};
use serde_json::Value as J;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Condvar, Mutex};
use velato::{Composition, RenderSink, Renderer};

/// A recorder that does something else after each call, before the call returns.
struct Busy<F: FnMut(usize)> {
    rec: Recorder,
    during: F,
}

impl<F: FnMut(usize)> Busy<F> {
    fn then(&mut self) {
        (self.during)(self.rec.evs.len());
    }
}

impl<F: FnMut(usize)> RenderSink for Busy<F> {
    fn push_layer(&mut self, blend: impl Into<BlendMode>, alpha: f32, transform: Affine, shape: &impl Shape) {
        self.rec.push_layer(blend, alpha, transform, shape);
        self.then();
    }
    fn push_clip_layer(&mut self, transform: Affine, shape: &impl Shape) {
        self.rec.push_clip_layer(transform, shape);
        self.then();
    }
    fn pop_layer(&mut self) {
        self.rec.pop_layer();
        self.then();
    }
    fn draw(&mut self, stroke: Option<&kurbo::Stroke>, transform: Affine, brush: &Brush, shape: &impl Shape) {
        self.rec.draw(stroke, transform, brush, shape);
        self.then();
    }
    fn begin_layer_group(&mut self, name: &str, index: usize) {
        self.rec.begin_layer_group(name, index);
        self.then();
    }
    fn end_layer_group(&mut self) {
        self.rec.end_layer_group();
        self.then();
    }
}

/// A composition that the players share. Only the player in control touches it.
struct Shared<'a>(&'a Composition);
unsafe impl Send for Shared<'_> {}
unsafe impl Sync for Shared<'_> {}

/// Loads (unless the composition is shared) and renders operation `p`.
fn play(case: &Case, p: usize, shared: Option<&Composition>, cut: usize, during: impl FnMut(usize)) -> Result<(Vec<Ev>, End), String> {
    let own;
    let op = &case.ops[p];
    let c = match shared {
        Some(c) => c,
        None => {
            own = case.load(op.doc)?;
            &own
        }
    };
    let mut sink = Busy { rec: Recorder { fail_at: cut, ..Recorder::default() }, during };
    let res = catch_unwind(AssertUnwindSafe(|| Renderer::new().append(c, op.f, op.t, op.alpha, &mut sink)));
    let end = match res {
        Ok(()) => End::Done,
        Err(e) if e.is::<SinkFailure>() => End::SinkFailed,
        Err(e) if e.is::<Runaway>() => End::Runaway,
        Err(e) => End::Panicked(message(e)),
    };
    Ok((sink.rec.evs, end))
}

/// Who is in control.
struct Baton {
    state: Mutex<(usize, Vec<(usize, usize)>, [bool; 2])>, // player, switches to come, done
    moved: Condvar,
}

impl Baton {
    fn wait(&self, p: usize) {
        let mut s = self.state.lock().unwrap();
        while s.0 != p {
            s = self.moved.wait(s).unwrap();
        }
    }
    /// Player `p` is inside its call number `n`.
    fn during(&self, p: usize, n: usize) {
        let mut s = self.state.lock().unwrap();
        if s.1.first() == Some(&(p, n)) {
            s.1.remove(0);
            if !s.2[1 - p] {
                s.0 = 1 - p;
                self.moved.notify_all();
                drop(s);
                self.wait(p);
            }
        }
    }
    fn end(&self, p: usize) {
        let mut s = self.state.lock().unwrap();
        s.1.retain(|x| x.0 != p);
        s.2[p] = true;
        if !s.2[1 - p] {
            s.0 = 1 - p;
        }
        self.moved.notify_all();
    }
}

type Outcome = Result<(Vec<Ev>, End), String>;

/// Each player on a thread of its own, taking turns.
fn threads(case: &Case, shared: Option<&Composition>, switches: &[(usize, usize)], cuts: &[usize]) -> [Outcome; 2] {
    let baton = Baton { state: Mutex::new((0, switches.to_vec(), [false; 2])), moved: Condvar::new() };
    let shared = shared.map(Shared);
    std::thread::scope(|s| {
        let run = |p: usize| {
            let (baton, shared) = (&baton, &shared);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    baton.wait(p);
                    let c = shared.as_ref().map(|c| c.0);
                    let r = catch_unwind(AssertUnwindSafe(|| play(case, p, c, cuts[p], |n| baton.during(p, n))));
                    baton.end(p);
                    r.unwrap_or_else(|e| Err(message(e)))
                })
                .unwrap()
        };
        let (a, b) = (run(0), run(1));
        [a.join().unwrap(), b.join().unwrap()]
    })
}

/// The second player inside call `n` of the first, on the same thread.
fn nested(case: &Case, shared: Option<&Composition>, n: usize, cuts: &[usize]) -> [Outcome; 2] {
    let mut inner: Option<Outcome> = None;
    let outer = play(case, 0, shared, cuts[0], |k| {
        if k == n {
            inner = Some(play(case, 1, shared, cuts[1], |_| {}));
        }
    });
    [outer, inner.unwrap_or_else(|| play(case, 1, shared, cuts[1], |_| {}))]
}

fn differs(have: &Outcome, alone: &[Ev], cut: usize) -> Option<String> {
    let (evs, end) = match have {
        Ok(r) => r,
        Err(e) => return Some(e.clone()),
    };
    let cut_short = cut > 0 && cut <= alone.len();
    let (want, how) = if cut_short { (&alone[..cut - 1], End::SinkFailed) } else { (alone, End::Done) };
    if *end != how {
        return Some(format!("the render ended with {end:?} after {} calls", evs.len()));
    }
    if evs != want && format!("{evs:?}") != format!("{want:?}") {
        let n = evs.iter().zip(want).take_while(|(a, b)| a == b).count();
        return Some(format!("call {n} is {:?}, alone it is {:?} ({} and {} calls)", evs.get(n), want.get(n), evs.len(), want.len()));
    }
    None
}

pub fn check(case: &Case, variants: &[J], st: &mut Stats) -> Vec<Found> {
    let fail = |op: usize, what: String| vec![Found { what, op }];
    let comps = match case.load_all() {
        Ok(c) => c,
        Err(what) => return fail(0, what),
    };
    let mut alone = Vec::new();
    for (i, op) in case.ops.iter().enumerate() {
        match fresh(&comps[op.doc], op) {
            Ok(evs) => alone.push(evs),
            Err(what) => return fail(i + 1, what),
        }
    }
    let before: Vec<String> = comps.iter().map(|c| format!("{c:?}")).collect();
    let shared = case.raw["shared"].as_bool().unwrap().then_some(&comps[0]);
    for v in variants {
        let cuts: Vec<usize> = expect::list(&v["cuts"]).iter().map(|c| c.as_u64().unwrap() as usize).collect();
        let switches: Vec<(usize, usize)> = expect::list(&v["sched"])
            .iter()
            .map(|x| (x[0].as_u64().unwrap() as usize - 1, x[1].as_u64().unwrap() as usize))
            .collect();
        let mut judge = |how: &str, rs: [Outcome; 2]| {
            for p in 0..2 {
                st.renders += 1;
                st.calls += rs[p].as_ref().map_or(0, |r| r.0.len()) as u64;
                st.failures += (cuts[p] > 0) as u64;
                if let Some(e) = differs(&rs[p], &alone[p], cuts[p]) {
                    let at: Vec<String> = switches.iter().map(|(p, n)| format!("{} at its call {n}", ["first", "second"][*p])).collect();
                    return Some(Found { what: format!("{how}, failing at {cuts:?}, switched from {at:?}: {} render: {e}", ["first", "second"][p]), op: p + 1 });
                }
            }
            None
        };
        if let Some(f) = judge("on two threads", threads(case, shared, &switches, &cuts)) {
            return vec![f];
        }
        if let [(0, n)] = switches[..] {
            if let Some(f) = judge("one inside a call of the other", nested(case, shared, n, &cuts)) {
                return vec![f];
            }
        }
    }
    // truly at the same time, with compositions of their own
    let rs = std::thread::scope(|s| {
        let run = |p: usize| {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || catch_unwind(AssertUnwindSafe(|| (0..4).map(|_| play(case, p, None, 0, |_| {})).collect::<Vec<_>>())))
                .unwrap()
        };
        let hs: Vec<_> = (0..4).map(|k| run(k % 2)).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
    });
    for (k, r) in rs.into_iter().enumerate() {
        match r {
            Err(e) => return fail(k % 2 + 1, message(e)),
            Ok(list) => {
                for o in list {
                    st.renders += 1;
                    if let Some(e) = differs(&o, &alone[k % 2], 0) {
                        return fail(k % 2 + 1, format!("four threads at once: {e}"));
                    }
                }
            }
        }
    }
    for (c, b) in comps.iter().zip(&before) {
        if format!("{c:?}") != *b {
            return fail(0, "rendering changed the composition".into());
        }
    }
    Vec::new()
}
