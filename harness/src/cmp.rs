//! Comparison of recorded sink calls with those of the specification.

use crate::expect::{X, XBrush, XStroke};
use crate::geom;
use crate::record::{Ev, StrokeRec};
use kurbo::Affine;
use peniko::{Brush, GradientKind};

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
const F64: f64 = 5e-6;
const F32: f64 = 2e-5;

pub fn affine_differs(a: Affine, b: Affine) -> Option<String> {
    let (x, y) = (a.as_coeffs(), b.as_coeffs());
    let scale = y[..4].iter().fold(0.0_f64, |m, v| m.max(v.abs()));
    let ok = (0..6).all(|i| (x[i] - y[i]).abs() <= F64 * (1.0 + scale + y[i].abs() + if i > 3 { y[4].abs().max(y[5].abs()) } else { 0.0 }));
    (!ok).then(|| format!("transform {x:?}, expected {y:?}"))
}

/// Which parts of a call a property talks about.
#[derive(Clone, Copy, Default)]
pub struct Aspects {
    pub t: bool,
    pub path: bool,
    pub color: bool,
    pub alpha: bool,
    pub stroke: bool,
    pub mode: bool,
    /// Clips: transform and outline.
    pub clip_t: bool,
    pub clip_path: bool,
    pub names: bool,
}
pub const EVERYTHING: Aspects = Aspects {
    t: true, path: true, color: true, alpha: true, stroke: true, mode: true, clip_t: true, clip_path: true, names: true,
};

fn color(a: [f32; 4], b: [f64; 3]) -> bool {
    (0..3).all(|i| close(a[i] as f64, b[i], F32))
}

fn brush_differs(a: &Brush, b: &XBrush) -> Option<String> {
    match (a, b) {
        (Brush::Solid(c), XBrush::Solid(x)) => (!color(c.components, *x)).then(|| format!("colour {:?}, expected {x:?}", c.components)),
        (Brush::Gradient(g), XBrush::Gradient { radial, s, e, stops }) => {
            let pts_ok = |p: kurbo::Point, q: kurbo::Point| close(p.x, q.x, F64) && close(p.y, q.y, F64);
            let ok = match g.kind {
                GradientKind::Linear(p) => !radial && pts_ok(p.start, *s) && pts_ok(p.end, *e),
                GradientKind::Radial(p) => {
                    *radial
                        && pts_ok(p.start_center, *s)
                        && pts_ok(p.end_center, *s)
                        && p.start_radius == 0.0
                        && close(p.end_radius as f64, s.distance(*e), F32)
                }
                _ => false,
            };
            if !ok {
                return Some(format!("gradient {:?}, expected radial: {radial} {s:?} {e:?}", g.kind));
            }
            let have: Vec<(f64, [f32; 4])> = g.stops.iter().map(|s| (s.offset as f64, s.color.components)).collect();
            let same = have.len() == stops.len()
                && have.iter().zip(stops).all(|(a, b)| close(a.0, b.0, F32) && color(a.1, b.1));
            (!same).then(|| format!("stops {have:?}, expected {stops:?}"))
        }
        _ => Some(format!("brush {a:?}, expected {b:?}")),
    }
}

fn alpha_differs(a: &Brush, b: &XBrush, want: f64) -> Option<String> {
    let have: Vec<(f64, f64)> = match (a, b) {
        (Brush::Solid(c), _) => vec![(c.components[3] as f64, want)],
        (Brush::Gradient(g), XBrush::Gradient { stops, .. }) => g.stops.iter().zip(stops).map(|(s, x)| (s.color.components[3] as f64, want * x.2)).collect(),
        _ => vec![],
    };
    // more than opaque may be passed on or saturate
    let ok = |x: f64, want: f64| close(x, want, F32) || want > 1.0 && x >= 1.0 - F32;
    have.iter().find(|x| !ok(x.0, x.1)).map(|x| format!("alpha {}, expected {}", x.0, x.1))
}

fn stroke_differs(a: &Option<StrokeRec>, b: &Option<XStroke>) -> Option<String> {
    let ok = match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => {
            close(a.w, b.w, F64) && a.cap == b.cap && a.end_cap == b.cap && a.join == b.join
                && close(a.ml, b.ml, F64) && a.dashes.is_empty()
        }
        _ => false,
    };
    (!ok).then(|| format!("stroke {a:?}, expected {b:?}"))
}

/// Differences of one call in the chosen aspects; `None` also when the kinds
/// agree and nothing chosen differs.
pub fn call_differs(a: &Ev, b: &X, k: Aspects) -> Option<String> {
    match (a, b) {
        (Ev::Clip { t, path }, X::Clip { t: xt, path: xp }) => {
            let d = if k.clip_t { affine_differs(*t, *xt) } else { None };
            d.or_else(|| if k.clip_path { geom::differs(path, xp) } else { None }).map(|e| format!("clip: {e}"))
        }
        (Ev::Push { mode, alpha, t, path, .. }, X::Push { mode: xm, t: xt, path: xp }) => {
            if !k.mode {
                return None;
            }
            if mode != xm {
                return Some(format!("layer pushed with {mode}, expected {xm}"));
            }
            if *alpha != 1.0 {
                return Some(format!("layer pushed with alpha {alpha}"));
            }
            affine_differs(*t, *xt).or_else(|| geom::differs(path, xp)).map(|e| format!("push: {e}"))
        }
        (Ev::Pop, X::Pop) | (Ev::End, X::End) => None,
        (Ev::Begin { name, ix }, X::Begin { name: xn, ix: xi }) => {
            (k.names && (name != xn || ix != xi)).then(|| format!("layer group {name:?} #{ix}, expected {xn:?} #{xi}"))
        }
        (Ev::Draw { stroke, t, brush, path }, X::Draw { stroke: xs, t: xt, brush: xb, alpha, path: xp }) => {
            let d = if k.stroke { stroke_differs(stroke, xs) } else { None };
            let d = d.or_else(|| if k.t { affine_differs(*t, *xt) } else { None });
            let d = d.or_else(|| if k.alpha { alpha_differs(brush, xb, *alpha) } else { None });
            let d = d.or_else(|| if k.color { brush_differs(brush, xb) } else { None });
            d.or_else(|| if k.path { geom::differs(path, xp) } else { None }).map(|e| format!("draw: {e}"))
        }
        _ => Some(format!("{} where {} was expected", kind(a), xkind(b))),
    }
}

pub fn kind(a: &Ev) -> &'static str {
    match a {
        Ev::Clip { .. } => "clip",
        Ev::Push { .. } => "push",
        Ev::Pop => "pop",
        Ev::Begin { .. } => "begin",
        Ev::End => "end",
        Ev::Draw { .. } => "draw",
    }
}
pub fn xkind(a: &X) -> &'static str {
    match a {
        X::Clip { .. } => "clip",
        X::Push { .. } => "push",
        X::Pop => "pop",
        X::Begin { .. } => "begin",
        X::End => "end",
        X::Draw { .. } => "draw",
    }
}

/// Calls that a property's view keeps, as indices; pops are kept with what
/// they close and runs of draws count once when `draws` is `Once`.
#[derive(Clone, Copy, PartialEq)]
pub enum Draws {
    Each,
    Once,
}
#[derive(Clone, Copy)]
pub struct View {
    pub clips: bool,
    pub pushes: bool,
    pub groups: bool,
    pub draws: Draws,
}

fn select(kinds: &[&'static str], v: View) -> Vec<usize> {
    let mut stack: Vec<bool> = Vec::new();
    let mut out: Vec<usize> = Vec::new();
    for (i, k) in kinds.iter().enumerate() {
        let keep = match *k {
            "clip" => {
                stack.push(v.clips);
                v.clips
            }
            "push" => {
                stack.push(v.pushes);
                v.pushes
            }
            "pop" => stack.pop().unwrap_or(true),
            "begin" | "end" => v.groups,
            _ => v.draws == Draws::Each || out.last().is_none_or(|j| kinds[*j] != "draw"),
        };
        if keep {
            out.push(i);
        }
    }
    out
}

pub fn visible(act: &[Ev]) -> Vec<Ev> {
    act.iter().filter(|e| !matches!(e, Ev::Draw { path, .. } if geom::is_empty(path))).cloned().collect()
}
pub fn wanted(exp: &[X]) -> Vec<X> {
    exp.iter().filter(|e| !matches!(e, X::Draw { path, .. } if geom::wants_nothing(path))).cloned().collect()
}

/// Outlines are drawn as one when their transforms are equal. Where two
/// transforms are equal but for rounding (a full turn, say), the draws may
/// stay apart; they are put together where the specification has one draw.
fn rejoined(act: Vec<Ev>, exp: &[X]) -> Vec<Ev> {
    if act.len() <= exp.len() {
        return act;
    }
    let mut out: Vec<Ev> = Vec::new();
    let mut rest = act.into_iter().peekable();
    while let Some(mut e) = rest.next() {
        if let (Ev::Draw { stroke, t, brush, path }, Some(X::Draw { path: want, .. })) = (&mut e, exp.get(out.len()))
            && geom::differs(path, want).is_some()
        {
            while let Some(Ev::Draw { stroke: s, t: u, brush: b, path: q }) = rest.peek() {
                if s != stroke || u == t || affine_differs(*u, *t).is_some() || same_brush(brush, b).is_some() {
                    break;
                }
                path.extend(q.iter().copied());
                rest.next();
                if geom::differs(path, want).is_none() {
                    break;
                }
            }
        }
        out.push(e);
    }
    out
}

/// Compares a recorded render with the expected one through a view.
/// `structural`: a difference in the sequence of calls itself counts;
/// otherwise it only counts when some recorded call is unlike every expected
/// call of its kind.
pub fn compare(act: &[Ev], exp: &[X], v: View, k: Aspects, structural: bool) -> Option<String> {
    let exp = wanted(exp);
    let act = rejoined(visible(act), &exp);
    let ak: Vec<_> = act.iter().map(kind).collect();
    let xk: Vec<_> = exp.iter().map(xkind).collect();
    let ai = select(&ak, v);
    let xi = select(&xk, v);
    let aligned = ai.len() == xi.len() && ai.iter().zip(&xi).all(|(a, x)| ak[*a] == xk[*x]);
    if aligned || structural {
        for (n, (a, x)) in ai.iter().zip(&xi).enumerate() {
            let asp = if v.draws == Draws::Once && ak[*a] == "draw" { Aspects::default() } else { k };
            if let Some(e) = call_differs(&act[*a], &exp[*x], asp) {
                return Some(format!("call {n}: {e}"));
            }
        }
        if ai.len() != xi.len() {
            let n = ai.len().min(xi.len());
            return Some(format!("{} calls, expected {}; after call {n}: {:?} / {:?}", ai.len(), xi.len(),
                ai.get(n).map(|a| ak[*a]), xi.get(n).map(|x| xk[*x])));
        }
        return None;
    }
    for a in &ai {
        if !matches!(ak[*a], "draw" | "clip") {
            continue;
        }
        let mut first = None;
        let found = xi.iter().filter(|x| xk[**x] == ak[*a]).any(|x| {
            let d = call_differs(&act[*a], &exp[*x], k);
            let none = d.is_none();
            first = first.take().or(d);
            none
        });
        if !found && let Some(e) = first {
            return Some(format!("a call unlike every expected one: {e}"));
        }
    }
    None
}

/// Two recorded renders, equal up to rounding.
pub fn same_render(a: &[Ev], b: &[Ev]) -> Option<String> {
    let (a, b) = (visible(a), visible(b));
    if a.len() != b.len() {
        return Some(format!("{} and {} calls", a.len(), b.len()));
    }
    a.iter().zip(&b).enumerate().find_map(|(i, (x, y))| same_call(x, y).map(|e| format!("call {i}: {e}")))
}
pub fn same_call(x: &Ev, y: &Ev) -> Option<String> {
    match (x, y) {
        (Ev::Clip { t, path }, Ev::Clip { t: u, path: q }) => affine_differs(*t, *u).or_else(|| geom::same_recorded(path, q)),
        (Ev::Push { mode, alpha, t, path, .. }, Ev::Push { mode: m, alpha: al, t: u, path: q, .. }) => {
            if mode != m || alpha != al {
                return Some(format!("push {mode} {alpha} and {m} {al}"));
            }
            affine_differs(*t, *u).or_else(|| geom::same_recorded(path, q))
        }
        (Ev::Draw { stroke, t, brush, path }, Ev::Draw { stroke: s, t: u, brush: b, path: q }) => {
            let st = match (stroke, s) {
                (None, None) => None,
                (Some(a), Some(b)) => {
                    let same = close(a.w, b.w, F64) && close(a.ml, b.ml, F64) && a.cap == b.cap && a.end_cap == b.end_cap && a.join == b.join && a.dashes == b.dashes;
                    (!same).then(|| format!("strokes {a:?} and {b:?}"))
                }
                _ => Some("stroke and fill".into()),
            };
            st.or_else(|| affine_differs(*t, *u)).or_else(|| same_brush(brush, b)).or_else(|| geom::same_recorded(path, q))
        }
        (x, y) => (x != y).then(|| format!("{x:?} and {y:?}")),
    }
}
pub fn same_brush(a: &Brush, b: &Brush) -> Option<String> {
    let col = |x: [f32; 4], y: [f32; 4]| (0..4).all(|i| close(x[i] as f64, y[i] as f64, F32));
    let ok = match (a, b) {
        (Brush::Solid(x), Brush::Solid(y)) => col(x.components, y.components),
        (Brush::Gradient(x), Brush::Gradient(y)) => {
            let p = |p: kurbo::Point, q: kurbo::Point| close(p.x, q.x, F64) && close(p.y, q.y, F64);
            let kinds = match (x.kind, y.kind) {
                (GradientKind::Linear(a), GradientKind::Linear(b)) => p(a.start, b.start) && p(a.end, b.end),
                (GradientKind::Radial(a), GradientKind::Radial(b)) => {
                    p(a.start_center, b.start_center) && p(a.end_center, b.end_center)
                        && close(a.start_radius as f64, b.start_radius as f64, F32)
                        && close(a.end_radius as f64, b.end_radius as f64, F32)
                }
                _ => false,
            };
            kinds
                && x.stops.len() == y.stops.len()
                && x.stops.iter().zip(y.stops.iter()).all(|(s, t)| close(s.offset as f64, t.offset as f64, F32) && col(s.color.components, t.color.components))
        }
        _ => false,
    };
    (!ok).then(|| format!("brushes {a:?} and {b:?}"))
}

/// Everything handed to the sink is finite.
pub fn infinite(e: &Ev) -> Option<String> {
    let t_ok = |t: &Affine| t.as_coeffs().iter().all(|x| x.is_finite());
    let p_ok = |p: &[kurbo::PathEl]| p.iter().all(|e| e.is_finite());
    let bad = match e {
        Ev::Clip { t, path } => !t_ok(t) || !p_ok(path),
        Ev::Push { alpha, t, path, .. } => !alpha.is_finite() || !t_ok(t) || !p_ok(path),
        Ev::Draw { stroke, t, brush, path } => {
            let b = match brush {
                Brush::Solid(c) => c.components.iter().all(|x| x.is_finite()),
                Brush::Gradient(g) => {
                    let k = match g.kind {
                        GradientKind::Linear(p) => p.start.is_finite() && p.end.is_finite(),
                        GradientKind::Radial(p) => p.start_center.is_finite() && p.end_center.is_finite() && p.end_radius.is_finite() && p.start_radius.is_finite(),
                        _ => true,
                    };
                    k && g.stops.iter().all(|s| s.offset.is_finite() && s.color.components.iter().all(|x| x.is_finite()))
                }
                Brush::Image(_) => true,
            };
            !b || !t_ok(t) || !p_ok(path) || stroke.as_ref().is_some_and(|s| !s.w.is_finite() || !s.ml.is_finite())
        }
        _ => false,
    };
    bad.then(|| format!("not finite: {e:?}"))
}
