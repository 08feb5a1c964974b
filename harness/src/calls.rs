//! C18: any sequence of sink calls on a Vello scene, against what module Calls does to a scene.

use crate::check::{Found, Stats};
use crate::expect::{affine, list, num};
use crate::scene;
use crate::session::guarded;
use kurbo::{Affine, BezPath, Cap, Circle, Join, Line, Point, Rect, Shape, Stroke};
use peniko::{BlendMode, Brush, Color, Compose, Extend, Fill, Gradient, Mix};
use serde_json::Value as J;
use velato::RenderSink;
use velato::vello::Scene;

/// Hands over a shape as the type it has.
macro_rules! with_shape {
    ($name:expr, $s:ident => $e:expr) => {
        match $name {
            "rect" => { let $s = &Rect::new(0., 0., 10., 6.); $e }
            "circle" => { let $s = &Circle::new((3., 4.), 5.); $e }
            "line" => { let $s = &Line::new((1., 1.), (9., 2.)); $e }
            "empty" => { let $s = &BezPath::new(); $e }
            "move" => { let p = path("M 3 3"); let $s = &p.elements(); $e }
            "dot" => { let p = path("M 3 3 L 3 3"); let $s = &p; $e }
            "open" => { let p = path("M 0 0 L 8 0 L 8 4"); let $s = &p.elements(); $e }
            "closed" => { let p = path("M 0 0 L 8 0 L 8 4 Z"); let $s = &p; $e }
            "two" => { let p = path("M 0 0 L 8 0 L 8 4 Z M 20 0 L 30 0 L 30 9"); let $s = &p.elements(); $e }
            "curve" => { let p = path("M 0 0 C 1 9 7 -3 8 4 Q 9 9 2 1"); let $s = &p; $e }
            x => panic!("shape {x}"),
        }
    };
}

fn path(svg: &str) -> BezPath {
    BezPath::from_svg(svg).unwrap()
}

fn mix(s: &str) -> Mix {
    use Mix::*;
    match s {
        "Normal" => Normal, "Multiply" => Multiply, "Screen" => Screen, "Overlay" => Overlay, "Darken" => Darken,
        "Lighten" => Lighten, "ColorDodge" => ColorDodge, "ColorBurn" => ColorBurn, "HardLight" => HardLight,
        "SoftLight" => SoftLight, "Difference" => Difference, "Exclusion" => Exclusion, "Hue" => Hue,
        "Saturation" => Saturation, "Color" => Color, "Luminosity" => Luminosity,
        x => panic!("mix {x}"),
    }
}

fn compose(s: &str) -> Compose {
    use Compose::*;
    match s {
        "Clear" => Clear, "Copy" => Copy, "Dest" => Dest, "SrcOver" => SrcOver, "DestOver" => DestOver, "SrcIn" => SrcIn,
        "DestIn" => DestIn, "SrcOut" => SrcOut, "DestOut" => DestOut, "SrcAtop" => SrcAtop, "DestAtop" => DestAtop,
        "Xor" => Xor, "Plus" => Plus, "PlusLighter" => PlusLighter,
        x => panic!("compose {x}"),
    }
}

fn brush(s: &str) -> Brush {
    let (a, b) = (Point::new(1., 2.), Point::new(9., 4.));
    let c = [Color::from_rgb8(200, 20, 0), Color::from_rgba8(0, 20, 90, 100), Color::WHITE];
    match s {
        "red" => Color::from_rgb8(255, 0, 0).into(),
        "faint" => Color::from_rgba8(20, 100, 0, 60).into(),
        "clear" => Color::TRANSPARENT.into(),
        "linear0" => Gradient::new_linear(a, b).into(),
        "linear1" => Gradient::new_linear(a, b).with_stops(&c[..1]).into(),
        "linear2" => Gradient::new_linear(a, b).with_stops(&c[..2]).into(),
        "linear3" => Gradient::new_linear(b, a).with_stops(&c[..]).into(),
        "point" => Gradient::new_linear(a, a).with_stops(&c[..2]).into(),
        "radial2" => Gradient::new_radial(a, 5.).with_stops(&c[1..]).into(),
        "sweep" => Gradient::new_sweep(a, 0.5, 3.).with_stops(&c[..]).into(),
        "repeat" => {
            let mut g = Gradient::new_linear(a, b).with_stops(&c[..2]);
            g.extend = Extend::Repeat;
            g.into()
        }
        x => panic!("brush {x}"),
    }
}

fn stroke(c: &J) -> Stroke {
    let cap = |s: &J| match s.as_str().unwrap() {
        "Butt" => Cap::Butt,
        "Round" => Cap::Round,
        _ => Cap::Square,
    };
    let join = match c["join"].as_str().unwrap() {
        "Miter" => Join::Miter,
        "Round" => Join::Round,
        _ => Join::Bevel,
    };
    Stroke::new(num(&c["w"]))
        .with_start_cap(cap(&c["cap"]))
        .with_end_cap(cap(&c["cap2"]))
        .with_join(join)
        .with_miter_limit(num(&c["ml"]))
        .with_dashes(1.0, list(&c["dash"]).iter().map(num).collect::<Vec<f64>>())
}

fn t(c: &J) -> Affine {
    affine(&c["T"])
}

fn name(c: &J, k: &str) -> String {
    c[k].as_str().unwrap().into()
}

/// Makes one call.
fn call(c: &J, s: &mut Scene) {
    match c["c"].as_str().unwrap() {
        "push" => {
            let (m, o, a) = (mix(&name(c, "mix")), compose(&name(c, "compose")), num(&c["alpha"]) as f32);
            with_shape!(c["shape"].as_str().unwrap(), sh => match c["way"].as_str().unwrap() {
                "mix" => RenderSink::push_layer(s, m, a, t(c), sh),
                "compose" => RenderSink::push_layer(s, o, a, t(c), sh),
                _ => RenderSink::push_layer(s, BlendMode::new(m, o), a, t(c), sh),
            })
        }
        "clip" => with_shape!(c["shape"].as_str().unwrap(), sh => RenderSink::push_clip_layer(s, t(c), sh)),
        "pop" => RenderSink::pop_layer(s),
        "begin" => RenderSink::begin_layer_group(s, "name", 3),
        "end" => RenderSink::end_layer_group(s),
        "fill" => with_shape!(c["shape"].as_str().unwrap(), sh => RenderSink::draw(s, None, t(c), &brush(&name(c, "brush")), sh)),
        "stroke" => with_shape!(c["shape"].as_str().unwrap(), sh => RenderSink::draw(s, Some(&stroke(c)), t(c), &brush(&name(c, "brush")), sh)),
        x => panic!("call {x}"),
    }
}

fn rule(c: &J) -> Fill {
    match c["rule"].as_str().unwrap() {
        "NonZero" => Fill::NonZero,
        _ => Fill::EvenOdd,
    }
}

/// Does one thing to a scene.
fn perform(c: &J, s: &mut Scene) {
    match c["do"].as_str().unwrap() {
        "layer" => {
            let b = BlendMode::new(mix(&name(c, "mix")), compose(&name(c, "compose")));
            with_shape!(c["shape"].as_str().unwrap(), sh => s.push_layer(rule(c), b, num(&c["alpha"]) as f32, t(c), sh))
        }
        "clip" => with_shape!(c["shape"].as_str().unwrap(), sh => s.push_clip_layer(rule(c), t(c), sh)),
        "pop" => s.pop_layer(),
        "fill" => with_shape!(c["shape"].as_str().unwrap(), sh => s.fill(rule(c), t(c), &brush(&name(c, "brush")), None, sh)),
        "stroke" => with_shape!(c["shape"].as_str().unwrap(), sh => s.stroke(&stroke(c), t(c), &brush(&name(c, "brush")), None, sh)),
        x => panic!("scene operation {x}"),
    }
}

pub fn check(raw: &J, st: &mut Stats) -> Vec<Found> {
    let (mut have, mut want) = (Scene::new(), Scene::new());
    for (n, (c, ops)) in list(&raw["calls"]).iter().zip(list(&raw["scene"])).enumerate() {
        let b = guarded(|| list(ops).iter().for_each(|o| perform(o, &mut want)));
        let a = guarded(|| call(c, &mut have));
        st.calls += 1;
        let what = match (a, b) {
            // the scene does not take these values
            (Err(_), Err(_)) => return Vec::new(),
            (Err(e), Ok(())) => Some(format!("panics: {e}")),
            (Ok(()), Err(e)) => Some(format!("does not panic, the scene does: {e}")),
            (Ok(()), Ok(())) => scene::differ(&have, &want),
        };
        if let Some(what) = what {
            return vec![Found { what: format!("call {n}, {c}: {what}"), op: 0 }];
        }
    }
    let open = want.encoding().n_open_clips as u64;
    if Some(open) != raw["open"].as_u64() {
        return vec![Found { what: format!("{open} layers are open, expected {}", raw["open"]), op: 0 }];
    }
    Vec::new()
}
