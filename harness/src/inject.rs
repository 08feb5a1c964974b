//! Puts repeaters and references made by hand, which only the model API can
//! express, into a composition.

use serde_json::Value as J;
use velato::model::{self, Animated, Easing, EasingHandle, Shape, Time, Tween, Value, animated};

use crate::doc::MARK;

fn times(ks: &[J]) -> Vec<Time> {
    let handle = |kf: &J, key: &str, none: EasingHandle| {
        let part = |x: &J| match x {
            J::Array(a) => a.first().and_then(J::as_f64),
            _ => x.as_f64(),
        };
        kf.get(key).map(|h| match (part(&h["x"]), part(&h["y"])) {
            (Some(x), Some(y)) => EasingHandle { x, y },
            _ => none,
        })
    };
    ks.iter()
        .map(|kf| Time {
            frame: kf["t"].as_f64().unwrap(),
            in_tangent: handle(kf, "i", Easing::LERP.i),
            out_tangent: handle(kf, "o", Easing::LERP.o),
            hold: kf.get("h").and_then(J::as_i64) == Some(1),
        })
        .collect()
}

fn value<T: Tween>(p: &J, scalar: bool, make: impl Fn(&[f64]) -> T) -> Value<T> {
    let nums = |x: &J| -> Vec<f64> {
        match x {
            J::Array(a) => a.iter().map(|y| y.as_f64().unwrap()).collect(),
            _ => vec![x.as_f64().unwrap()],
        }
    };
    let _ = scalar;
    if p["a"].as_i64() == Some(1) {
        let ks = p["k"].as_array().unwrap();
        Value::Animated(Animated {
            times: times(ks),
            values: ks.iter().map(|kf| make(&nums(&kf["s"]))).collect(),
        })
    } else {
        Value::Fixed(make(&nums(&p["k"])))
    }
}

fn repeater(r: &J) -> model::Repeater {
    let tr = &r["tr"];
    let num = |p: &J| value(p, true, |v| v[0]);
    let pt = |p: &J| value(p, false, |v| kurbo::Point::new(v[0], v[1]));
    let vec = |p: &J| value(p, false, |v| kurbo::Vec2::new(v[0], v[1]));
    animated::Repeater {
        copies: num(&r["c"]),
        offset: num(&r["o"]),
        anchor_point: pt(&tr["a"]),
        position: pt(&tr["p"]),
        rotation: num(&tr["r"]),
        scale: vec(&tr["s"]),
        start_opacity: num(&tr["so"]),
        end_opacity: num(&tr["eo"]),
    }
    .into_model()
}

fn walk(shapes: &mut [Shape], reps: &[J]) {
    for s in shapes {
        match s {
            Shape::Group(inner, _) => walk(inner, reps),
            Shape::Trim(t) => {
                let start = t.evaluate(0.0).as_ref().start;
                if start >= MARK {
                    *s = Shape::Repeater(repeater(&reps[(start - MARK) as usize]));
                }
            }
            _ => {}
        }
    }
}

/// References of layers to parents (`hp`) and mattes (`hm`), 1-based and
/// possibly beyond the list.
pub fn by_hand(comp: &mut velato::Composition, doc: &J) {
    let set = |list: &mut [model::Layer], src: &J| {
        let src = src.as_array().map(Vec::as_slice).unwrap_or(&[]);
        for (layer, l) in list.iter_mut().zip(src) {
            let to = |k: &str| l.get(k).and_then(J::as_u64).map(|x| x as usize - 1);
            if let Some(p) = to("hp") {
                layer.parent = Some(p);
            }
            if let Some(m) = to("hm") {
                let mode = if matches!(l["tt"].as_u64(), Some(1 | 3)) { peniko::Compose::SrcIn } else { peniko::Compose::SrcOut };
                layer.mask_layer = Some((mode.into(), m));
            }
        }
    };
    set(&mut comp.layers, &doc["layers"]);
    for a in doc["assets"].as_array().map(Vec::as_slice).unwrap_or(&[]) {
        if let Some(list) = a["id"].as_str().and_then(|id| comp.assets.get_mut(id)) {
            set(list, &a["layers"]);
        }
    }
}

pub fn inject(comp: &mut velato::Composition, reps: &[J]) {
    if reps.is_empty() {
        return;
    }
    let lists = comp.assets.values_mut().chain(std::iter::once(&mut comp.layers));
    for list in lists {
        for layer in list.iter_mut() {
            if let model::Content::Shape(shapes) = &mut layer.content {
                walk(shapes, reps);
            }
        }
    }
}
