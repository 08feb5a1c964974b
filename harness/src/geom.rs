//! Comparison of recorded paths with the outlines of the specification.

use crate::expect::Part;
use kurbo::{CubicBez, Line, ParamCurve, PathEl, PathSeg, Point, Shape};

/// A sub-path in canonical form: no zero-length segments, the closing line
/// of a closed sub-path spelled out.
#[derive(Clone, Debug)]
pub struct Sub {
    pub segs: Vec<PathSeg>,
    pub closed: bool,
}

const TINY: f64 = 1e-6;

fn near(a: Point, b: Point, tol: f64) -> bool {
    (a.x - b.x).abs() <= tol && (a.y - b.y).abs() <= tol
}

fn canonical(seg: PathSeg) -> Option<PathSeg> {
    match seg {
        PathSeg::Line(l) => (!near(l.p0, l.p1, TINY)).then_some(seg),
        PathSeg::Quad(q) => canonical(PathSeg::Cubic(q.raise())),
        PathSeg::Cubic(c) => {
            let all = near(c.p0, c.p1, TINY) && near(c.p0, c.p2, TINY) && near(c.p0, c.p3, TINY);
            if all {
                None
            } else if near(c.p0, c.p1, TINY) && near(c.p2, c.p3, TINY) {
                Some(PathSeg::Line(Line::new(c.p0, c.p3)))
            } else {
                Some(seg)
            }
        }
    }
}

fn finish(mut segs: Vec<PathSeg>, start: Point, end: Point, closed: bool, out: &mut Vec<Sub>) {
    if closed && !near(start, end, TINY) {
        segs.push(PathSeg::Line(Line::new(end, start)));
    }
    if !segs.is_empty() {
        out.push(Sub { segs, closed });
    }
}

pub fn subpaths(els: &[PathEl]) -> Result<Vec<Sub>, String> {
    let mut out = Vec::new();
    let mut cur: Option<(Point, Point, Vec<PathSeg>)> = None;
    for el in els {
        let mut add = |p3: Point, mk: &dyn Fn(Point) -> PathSeg| -> Result<(), String> {
            let (_, at, segs) = cur.as_mut().ok_or("path does not start with a move")?;
            if let Some(s) = canonical(mk(*at)) {
                segs.push(s);
            }
            *at = p3;
            Ok(())
        };
        match *el {
            PathEl::MoveTo(p) => {
                if let Some((start, end, segs)) = cur.take() {
                    finish(segs, start, end, false, &mut out);
                }
                cur = Some((p, p, Vec::new()));
            }
            PathEl::LineTo(p) => add(p, &|a| PathSeg::Line(Line::new(a, p)))?,
            PathEl::QuadTo(p1, p) => add(p, &|a| PathSeg::Quad(kurbo::QuadBez::new(a, p1, p)))?,
            PathEl::CurveTo(p1, p2, p) => add(p, &|a| PathSeg::Cubic(CubicBez::new(a, p1, p2, p)))?,
            PathEl::ClosePath => {
                let (start, end, segs) = cur.take().ok_or("close without a move")?;
                finish(segs, start, end, true, &mut out);
                cur = Some((start, start, Vec::new()));
            }
        }
    }
    if let Some((start, end, segs)) = cur {
        finish(segs, start, end, false, &mut out);
    }
    Ok(out)
}

/// A polyline with cumulative lengths.
pub struct Poly {
    pts: Vec<Point>,
    at: Vec<f64>,
}
impl Poly {
    fn new(pts: Vec<Point>) -> Self {
        let mut at = vec![0.0];
        for w in pts.windows(2) {
            at.push(at[at.len() - 1] + w[0].distance(w[1]));
        }
        Poly { pts, at }
    }
    fn of(sub: &Sub) -> Self {
        let mut pts = vec![sub.segs[0].start()];
        for s in &sub.segs {
            let n = if matches!(s, PathSeg::Line(_)) { 1 } else { 96 };
            for i in 1..=n {
                pts.push(s.eval(i as f64 / n as f64));
            }
        }
        Poly::new(pts)
    }
    fn len(&self) -> f64 {
        *self.at.last().unwrap()
    }
    fn eval(&self, s: f64) -> Point {
        let i = self.at.partition_point(|x| *x < s).clamp(1, self.at.len() - 1);
        let d = self.at[i] - self.at[i - 1];
        let t = if d > 0.0 { ((s - self.at[i - 1]) / d).clamp(0.0, 1.0) } else { 0.0 };
        self.pts[i - 1].lerp(self.pts[i], t)
    }
    fn stretch(&self, lo: f64, hi: f64) -> Poly {
        let mut pts = vec![self.eval(lo)];
        for (p, a) in self.pts.iter().zip(&self.at) {
            if *a > lo && *a < hi {
                pts.push(*p);
            }
        }
        pts.push(self.eval(hi));
        Poly::new(pts)
    }
    fn size(&self) -> f64 {
        let f = |g: fn(&Point) -> f64| {
            let (mut lo, mut hi) = (f64::MAX, f64::MIN);
            for p in &self.pts {
                lo = lo.min(g(p));
                hi = hi.max(g(p));
            }
            hi - lo
        };
        f(|p| p.x).max(f(|p| p.y))
    }
    fn differs(&self, other: &Poly, tol: f64) -> Option<String> {
        for i in 0..=40 {
            let q = i as f64 / 40.0;
            let (a, b) = (self.eval(q * self.len()), other.eval(q * other.len()));
            if a.distance(b) > tol {
                return Some(format!("at {q:.3} of its length the outline is at {a:?}, expected {b:?}"));
            }
        }
        None
    }
}

/// What one recorded sub-path has to look like.
pub enum Ideal {
    Exact(Sub),
    Rect { c: Point, s: Point, r: f64 },
    Ellipse { c: Point, r: Point },
    /// A trimmed stretch, and whether its length is known exactly.
    Piece(Poly, bool),
}

fn from_els(els: impl IntoIterator<Item = PathEl>) -> Vec<Sub> {
    subpaths(&els.into_iter().collect::<Vec<_>>()).unwrap()
}

fn star(c: Point, step: f64, vs: &[(f64, f64, f64)]) -> Vec<Sub> {
    let v: Vec<(Point, Point, Point)> = vs
        .iter()
        .map(|&(deg, r, q)| {
            let a = deg.to_radians();
            let p = Point::new(c.x + r * a.cos(), c.y + r * a.sin());
            let l = if q == 0.0 { 0.0 } else { r * (step.to_radians() / 2.0).tan() * q * 4.0 / 3.0 };
            let d = kurbo::Vec2::new(-a.sin(), a.cos()) * l;
            (p - d, p, p + d)
        })
        .collect();
    let mut els = vec![PathEl::MoveTo(v[0].1)];
    for i in 1..=v.len() {
        let (a, b) = (v[i - 1], v[i % v.len()]);
        els.push(PathEl::CurveTo(a.2, b.0, b.1));
    }
    els.push(PathEl::ClosePath);
    from_els(els)
}

/// The outline itself, as the shapes the player is built on draw it.
fn drawn(part: &Part) -> Vec<Sub> {
    match part {
        Part::Path { mv, segs, closed } => {
            let mut els = vec![PathEl::MoveTo(*mv)];
            for s in segs {
                els.push(if s.len() == 1 { PathEl::LineTo(s[0]) } else { PathEl::CurveTo(s[0], s[1], s[2]) });
            }
            if *closed {
                els.push(PathEl::ClosePath);
            }
            from_els(els)
        }
        Part::Rect { c, s, r } => {
            let (w, h) = (s.x / 2.0, s.y / 2.0);
            from_els(kurbo::RoundedRect::new(c.x - w, c.y - h, c.x + w, c.y + h, *r).path_elements(0.1))
        }
        Part::Ellipse { c, r } => from_els(kurbo::Ellipse::new(*c, (r.x, r.y), 0.0).path_elements(0.1)),
        Part::Star { c, step, vs } => star(*c, *step, vs),
        Part::Cut { of, r } => {
            // only needed for a cut of a cut: polylines
            pieces(of, r)
                .into_iter()
                .map(|p| Sub {
                    segs: p.pts.windows(2).map(|w| PathSeg::Line(Line::new(w[0], w[1]))).filter_map(canonical).collect(),
                    closed: false,
                })
                .filter(|s| !s.segs.is_empty())
                .collect()
        }
    }
}

const SHORT: f64 = 1e-3;
/// Lengths of curves are only known this well to the player.
const ROUGH: f64 = 0.5;

/// Only straight segments.
fn straight(of: &[Part]) -> bool {
    of.iter().all(|p| match p {
        Part::Cut { of, .. } => straight(of),
        p => drawn(p).iter().all(|s| s.segs.iter().all(|g| matches!(g, PathSeg::Line(_)))),
    })
}

fn pieces(of: &[Part], ranges: &[(f64, f64)]) -> Vec<Poly> {
    let polys: Vec<Poly> = of.iter().flat_map(drawn).map(|s| Poly::of(&s)).collect();
    let total: f64 = polys.iter().map(Poly::len).sum();
    let mut out = Vec::new();
    for &(lo, hi) in ranges {
        let mut at = 0.0;
        for p in &polys {
            let (a, b) = ((lo * total - at).max(0.0), (hi * total - at).min(p.len()));
            if b - a > SHORT {
                out.push(p.stretch(a, b));
            }
            at += p.len();
        }
    }
    out
}

pub fn ideal(parts: &[Part]) -> Vec<Ideal> {
    let mut out = Vec::new();
    for p in parts {
        match p {
            Part::Rect { c, s, r } if s.x != 0.0 || s.y != 0.0 => out.push(Ideal::Rect { c: *c, s: *s, r: *r }),
            Part::Ellipse { c, r } if r.x != 0.0 || r.y != 0.0 => out.push(Ideal::Ellipse { c: *c, r: *r }),
            Part::Rect { .. } | Part::Ellipse { .. } => {}
            Part::Cut { of, r } => {
                let exact = straight(of);
                out.extend(pieces(of, r).into_iter().map(|p| Ideal::Piece(p, exact)));
            }
            p => out.extend(drawn(p).into_iter().map(Ideal::Exact)),
        }
    }
    out
}

fn same_seg(a: &PathSeg, b: &PathSeg, tol: f64) -> bool {
    match (a, b) {
        (PathSeg::Line(a), PathSeg::Line(b)) => near(a.p0, b.p0, tol) && near(a.p1, b.p1, tol),
        (PathSeg::Cubic(a), PathSeg::Cubic(b)) => {
            near(a.p0, b.p0, tol) && near(a.p1, b.p1, tol) && near(a.p2, b.p2, tol) && near(a.p3, b.p3, tol)
        }
        _ => false,
    }
}

fn tolerance(size: f64) -> f64 {
    2e-5 * (1.0 + size)
}

fn extent(s: &Sub) -> f64 {
    s.segs.iter().flat_map(|s| [s.start(), s.end()]).map(|p| p.x.abs().max(p.y.abs())).fold(0.0, f64::max)
}

fn bbox_ok(sub: &Sub, c: Point, w: f64, h: f64, tol: f64) -> Option<String> {
    let b = sub.segs.iter().map(|s| s.bounding_box()).reduce(|a, b| a.union(b)).unwrap();
    let e = kurbo::Rect::new(c.x - w, c.y - h, c.x + w, c.y + h);
    let d = (b.x0 - e.x0).abs().max((b.x1 - e.x1).abs()).max((b.y0 - e.y0).abs()).max((b.y1 - e.y1).abs());
    (d > tol).then(|| format!("outline covers {b:?}, expected {e:?}"))
}

fn check(act: &Sub, want: &Ideal) -> Option<String> {
    match want {
        Ideal::Exact(e) => {
            let tol = tolerance(extent(e));
            if act.closed != e.closed {
                return Some(format!("outline closed: {}, expected {}", act.closed, e.closed));
            }
            if act.segs.len() == e.segs.len() && act.segs.iter().zip(&e.segs).all(|(a, b)| same_seg(a, b, tol)) {
                return None;
            }
            let (a, b) = (Poly::of(act), Poly::of(e));
            if (a.len() - b.len()).abs() > 1e-3 * (1.0 + b.len()) {
                return Some(format!("outline {:?} differs from {:?}", act.segs, e.segs));
            }
            a.differs(&b, 10.0 * tol)
        }
        Ideal::Piece(p, exact) => {
            if act.closed {
                return Some("a trimmed piece is closed".into());
            }
            let a = Poly::of(act);
            let tol = if *exact { 1e-3 + 1e-4 * p.size() } else { 0.2 + 0.005 * p.size().max(p.len() * 0.5) };
            if (a.len() - p.len()).abs() > 2.0 * tol {
                return Some(format!("trimmed piece has length {}, expected {}", a.len(), p.len()));
            }
            a.differs(p, tol)
        }
        // what a negative radius (overshooting easing) means is left open
        Ideal::Rect { c, s, r } if *r < 0.0 => {
            check(act, &Ideal::Rect { c: *c, s: *s, r: 0.0 }).and_then(|_| check(act, &Ideal::Rect { c: *c, s: *s, r: -r }))
        }
        Ideal::Rect { c, s, r } => {
            let (w, h) = (s.x.abs() / 2.0, s.y.abs() / 2.0);
            let r = r.clamp(0.0, w.min(h));
            if !act.closed {
                return Some("rectangle is not closed".into());
            }
            if let Some(e) = bbox_ok(act, *c, w, h, 1e-4 + tolerance(w.max(h))) {
                return Some(e);
            }
            let a = Poly::of(act);
            for i in 0..=160 {
                let p = a.eval(a.len() * i as f64 / 160.0);
                let q = ((p.x - c.x).abs() - w + r, (p.y - c.y).abs() - h + r);
                let d = q.0.max(q.1).min(0.0) + q.0.max(0.0).hypot(q.1.max(0.0)) - r;
                let tol = if r == 0.0 { 1e-4 } else { 0.11 };
                if d.abs() > tol * (1.0 + 1e-3 * w.max(h)) {
                    return Some(format!("{p:?} is {d} off the rectangle at {c:?}, half size {w} x {h}, radius {r}"));
                }
            }
            let per = 4.0 * (w + h) - 8.0 * r + std::f64::consts::TAU * r;
            ((a.len() - per).abs() > 0.01 * per + 0.01).then(|| format!("perimeter {}, expected {per}", a.len()))
        }
        Ideal::Ellipse { c, r } => {
            let (w, h) = (r.x.abs(), r.y.abs());
            if !near(act.segs[0].start(), act.segs.last().unwrap().end(), 1e-4) {
                return Some("ellipse is not closed".into());
            }
            if let Some(e) = bbox_ok(act, *c, w, h, 0.11) {
                return Some(e);
            }
            let dense: Vec<Point> = (0..=720)
                .map(|i| {
                    let t = i as f64 * std::f64::consts::TAU / 720.0;
                    Point::new(c.x + w * t.cos(), c.y + h * t.sin())
                })
                .collect();
            let e = Poly::new(dense);
            let a = Poly::of(act);
            for i in 0..48 {
                let p = a.eval(a.len() * i as f64 / 48.0);
                let d = e.pts.windows(2).map(|s| seg_dist(p, s[0], s[1])).fold(f64::MAX, f64::min);
                if d > 0.11 + 1e-4 * w.max(h) {
                    return Some(format!("{p:?} is {d} off the ellipse at {c:?}, radii {w} x {h}"));
                }
            }
            ((a.len() - e.len()).abs() > 0.01 * e.len() + 0.01).then(|| format!("perimeter {}, expected {}", a.len(), e.len()))
        }
    }
}

fn seg_dist(p: Point, a: Point, b: Point) -> f64 {
    let d = b - a;
    let l = d.hypot2();
    let t = if l > 0.0 { ((p - a).dot(d) / l).clamp(0.0, 1.0) } else { 0.0 };
    p.distance(a + d * t)
}

/// `None` when the recorded path is the outline the specification wants.
pub fn differs(act: &[PathEl], want: &[Part]) -> Option<String> {
    let trimmed = want.iter().any(|p| matches!(p, Part::Cut { .. }));
    let subs = match subpaths(act) {
        Ok(s) => s,
        Err(e) => return Some(e),
    };
    let subs: Vec<Sub> = if trimmed { subs.into_iter().filter(|s| Poly::of(s).len() > SHORT).collect() } else { subs };
    let mut want = ideal(want);
    let mut subs = subs;
    if subs.len() != want.len() {
        // stretches left by trims that touch may be one or two sub-paths
        let ends: Vec<(Point, f64)> = want.iter().flat_map(|w| match w {
            Ideal::Piece(p, exact) => [p.pts.first(), p.pts.last()].into_iter().flatten().map(|e| (*e, if *exact { SHORT } else { ROUGH })).collect(),
            Ideal::Exact(s) => [s.segs.first().map(|s| s.start()), s.segs.last().map(|s| s.end())].into_iter().flatten().map(|e| (e, SHORT)).collect(),
            _ => vec![],
        }).collect();
        let mut joined: Vec<Sub> = Vec::new();
        for s in subs {
            match joined.last_mut() {
                Some(p) if !p.closed && !s.closed && near(p.segs.last().unwrap().end(), s.segs[0].start(), 1e-6)
                    && ends.iter().any(|(e, tol)| near(*e, s.segs[0].start(), *tol)) => p.segs.extend(s.segs),
                _ => joined.push(s),
            }
        }
        subs = joined;
        let mut joined: Vec<Ideal> = Vec::new();
        for w in want {
            match (joined.last_mut(), w) {
                (Some(Ideal::Piece(p, e)), Ideal::Piece(q, f)) if near(*p.pts.last().unwrap(), q.pts[0], 1e-6) => {
                    *e &= f;
                    *p = Poly::new(p.pts.iter().chain(&q.pts).copied().collect());
                }
                (Some(Ideal::Exact(p)), Ideal::Exact(q))
                    if !p.closed && !q.closed && near(p.segs.last().unwrap().end(), q.segs[0].start(), 1e-6) =>
                {
                    p.segs.extend(q.segs);
                }
                (_, w) => joined.push(w),
            }
        }
        want = joined;
    }
    if trimmed && subs.len() != want.len() {
        // stretches of curves too short to be placed reliably
        let rough = want.iter().any(|w| matches!(w, Ideal::Piece(_, false)));
        if rough {
            subs.retain(|s| Poly::of(s).len() > ROUGH);
            want.retain(|w| !matches!(w, Ideal::Piece(p, false) if p.len() <= ROUGH));
        }
    }
    if subs.len() != want.len() {
        return Some(format!("{} outlines, expected {}", subs.len(), want.len()));
    }
    subs.iter().zip(&want).find_map(|(a, b)| check(a, b))
}

pub fn is_empty(act: &[PathEl]) -> bool {
    matches!(subpaths(act), Ok(s) if s.is_empty())
}
pub fn wants_nothing(parts: &[Part]) -> bool {
    ideal(parts).is_empty()
}

/// Same outline up to rounding, for two recorded paths.
pub fn same_recorded(a: &[PathEl], b: &[PathEl]) -> Option<String> {
    let (a, b) = match (subpaths(a), subpaths(b)) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return Some(format!("{:?} {:?}", a.err(), b.err())),
    };
    if a.len() != b.len() {
        return Some(format!("{} and {} outlines", a.len(), b.len()));
    }
    a.iter().zip(&b).find_map(|(x, y)| check(x, &Ideal::Exact(y.clone())))
}
