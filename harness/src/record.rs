//! A render sink that records what it receives and can fail at a chosen call.

use kurbo::{Affine, BezPath, PathEl, Shape};
use peniko::{BlendMode, Brush, Compose, Mix};
use velato::RenderSink;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Clip { t: Affine, path: Vec<PathEl> },
    Push { mode: String, blend: BlendMode, alpha: f32, t: Affine, path: Vec<PathEl> },
    Pop,
    Begin { name: String, ix: usize },
    End,
    Draw { stroke: Option<StrokeRec>, t: Affine, brush: Brush, path: Vec<PathEl> },
}

#[derive(Clone, Debug, PartialEq)]
pub struct StrokeRec {
    pub w: f64,
    pub cap: String,
    pub end_cap: String,
    pub join: String,
    pub ml: f64,
    pub dashes: Vec<f64>,
    /// The stroke itself, for replaying it.
    pub raw: kurbo::Stroke,
}

/// Payload of the panic of a failing sink.
pub struct SinkFailure;
/// Payload of the panic of a sink that received an absurd number of calls.
pub struct Runaway;

#[derive(Default)]
pub struct Recorder {
    pub evs: Vec<Ev>,
    /// Fail at this call (1-based); 0 never.
    pub fail_at: usize,
}

pub const MAX_CALLS: usize = 400_000;

impl Recorder {
    fn add(&mut self, e: impl FnOnce() -> Ev) {
        if self.fail_at == self.evs.len() + 1 {
            std::panic::panic_any(SinkFailure);
        }
        if self.evs.len() >= MAX_CALLS {
            std::panic::panic_any(Runaway);
        }
        let e = e();
        self.evs.push(e);
    }
}

fn elements(shape: &impl Shape) -> Vec<PathEl> {
    let mut p = BezPath::new();
    p.extend(shape.path_elements(0.1));
    p.elements().to_vec()
}

pub fn mode_name(b: BlendMode) -> String {
    match (b.mix, b.compose) {
        (Mix::Normal, Compose::SrcOver) => "Normal".into(),
        (Mix::Normal, Compose::SrcIn) => "SrcIn".into(),
        (Mix::Normal, Compose::SrcOut) => "SrcOut".into(),
        _ => format!("{b:?}"),
    }
}

impl RenderSink for Recorder {
    fn push_layer(&mut self, blend: impl Into<BlendMode>, alpha: f32, transform: Affine, shape: &impl Shape) {
        let b = blend.into();
        self.add(|| Ev::Push { mode: mode_name(b), blend: b, alpha, t: transform, path: elements(shape) });
    }
    fn push_clip_layer(&mut self, transform: Affine, shape: &impl Shape) {
        self.add(|| Ev::Clip { t: transform, path: elements(shape) });
    }
    fn pop_layer(&mut self) {
        self.add(|| Ev::Pop);
    }
    fn draw(&mut self, stroke: Option<&kurbo::Stroke>, transform: Affine, brush: &Brush, shape: &impl Shape) {
        self.add(|| Ev::Draw {
            stroke: stroke.map(|s| StrokeRec {
                w: s.width,
                cap: format!("{:?}", s.start_cap),
                end_cap: format!("{:?}", s.end_cap),
                join: format!("{:?}", s.join),
                ml: s.miter_limit,
                dashes: s.dash_pattern.to_vec(),
                raw: s.clone(),
            }),
            t: transform,
            brush: brush.clone(),
            path: elements(shape),
        });
    }
    fn begin_layer_group(&mut self, name: &str, index: usize) {
        self.add(|| Ev::Begin { name: name.into(), ix: index });
    }
    fn end_layer_group(&mut self) {
        self.add(|| Ev::End);
    }
}
