//! The Vello back end: encodings, their replay and their abstract content.

use crate::expect::{X, XBrush, XStroke};
use crate::record::Ev;
use kurbo::{Affine, BezPath};
use peniko::Fill;
use velato::vello::Scene;

/// Performs recorded calls directly on a scene.
pub fn replay(evs: &[Ev], s: &mut Scene) {
    let bez = |p: &[kurbo::PathEl]| BezPath::from_vec(p.to_vec());
    for e in evs {
        match e {
            Ev::Clip { t, path } => s.push_clip_layer(Fill::NonZero, *t, &bez(path)),
            Ev::Push { blend, alpha, t, path, .. } => s.push_layer(Fill::NonZero, *blend, *alpha, *t, &bez(path)),
            Ev::Pop => s.pop_layer(),
            Ev::Begin { .. } | Ev::End => {}
            Ev::Draw { stroke: Some(st), t, brush, path } => s.stroke(&st.raw, *t, brush, None, &bez(path)),
            Ev::Draw { stroke: None, t, brush, path } => s.fill(Fill::NonZero, *t, brush, None, &bez(path)),
        }
    }
}

fn first_difference<T: PartialEq>(a: &[T], b: &[T]) -> Option<usize> {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    (n < a.len() || n < b.len()).then_some(n)
}

/// Bitwise difference of two encodings.
pub fn differ(a: &Scene, b: &Scene) -> Option<String> {
    let (a, b) = (a.encoding(), b.encoding());
    let streams = [
        ("path tags", first_difference(&a.path_tags.iter().map(|t| t.0).collect::<Vec<_>>(), &b.path_tags.iter().map(|t| t.0).collect::<Vec<_>>())),
        ("path data", first_difference(&a.path_data, &b.path_data)),
        ("draw tags", first_difference(&a.draw_tags.iter().map(|t| t.0).collect::<Vec<_>>(), &b.draw_tags.iter().map(|t| t.0).collect::<Vec<_>>())),
        ("draw data", first_difference(&a.draw_data, &b.draw_data)),
        ("transforms", first_difference(&a.transforms.iter().map(|t| (t.matrix.map(f32::to_bits), t.translation.map(f32::to_bits))).collect::<Vec<_>>(),
            &b.transforms.iter().map(|t| (t.matrix.map(f32::to_bits), t.translation.map(f32::to_bits))).collect::<Vec<_>>())),
        ("styles", first_difference(
            &a.styles.iter().map(|s| (s.flags_and_miter_limit, s.line_width.to_bits())).collect::<Vec<_>>(),
            &b.styles.iter().map(|s| (s.flags_and_miter_limit, s.line_width.to_bits())).collect::<Vec<_>>(),
        )),
        ("colour stops", first_difference(
            &a.resources.color_stops.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>(),
            &b.resources.color_stops.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>(),
        )),
    ];
    for (what, at) in streams {
        if let Some(n) = at {
            return Some(format!("{what} differ at {n}"));
        }
    }
    let na = [a.n_paths, a.n_path_segments, a.n_clips, a.n_open_clips, a.resources.patches.len() as u32];
    let nb = [b.n_paths, b.n_path_segments, b.n_clips, b.n_open_clips, b.resources.patches.len() as u32];
    (na != nb).then(|| format!("counts {na:?} and {nb:?}"))
}

/// Whether `whole` starts with everything in `part`.
pub fn starts_with(whole: &Scene, part: &Scene) -> bool {
    let (w, p) = (whole.encoding(), part.encoding());
    w.path_tags.len() >= p.path_tags.len()
        && w.path_tags.iter().zip(&p.path_tags).all(|(a, b)| a.0 == b.0)
        && w.path_data.starts_with(&p.path_data)
        && w.draw_tags.len() >= p.draw_tags.len()
        && w.draw_tags.iter().zip(&p.draw_tags).all(|(a, b)| a.0 == b.0)
        && w.draw_data.starts_with(&p.draw_data)
        && w.transforms.len() >= p.transforms.len()
        && w.transforms.iter().zip(&p.transforms).all(|(a, b)| a.matrix == b.matrix && a.translation == b.translation)
        && w.styles.len() >= p.styles.len()
        && w.styles.iter().zip(&p.styles).all(|(a, b)| a.flags_and_miter_limit == b.flags_and_miter_limit && a.line_width.to_bits() == b.line_width.to_bits())
}

/// One object of a scene.
#[derive(Debug, Clone, PartialEq)]
pub enum Obj {
    Begin { blend: u32, alpha: f32, t: [f32; 6] },
    End,
    /// kind: 0 colour, 1 linear, 2 radial; `None` style is a fill.
    Paint { kind: u8, t: [f32; 6], stroke: Option<(f32, u32)> },
    Other(u32),
}

const TRANSFORM: u8 = 0x20;
const PATH: u8 = 0x10;
const STYLE: u8 = 0x40;

/// Recovers the objects of an encoding.
pub fn objects(s: &Scene) -> Result<Vec<Obj>, String> {
    let e = s.encoding();
    let (mut ti, mut si) = (0_usize, 0_usize);
    let mut per_path = Vec::new();
    for t in &e.path_tags {
        if t.0 == TRANSFORM {
            ti += 1;
        } else if t.0 == STYLE {
            si += 1;
        } else if t.0 == PATH {
            per_path.push((ti, si));
        }
    }
    if per_path.len() != e.draw_tags.len() {
        return Err(format!("{} paths and {} objects", per_path.len(), e.draw_tags.len()));
    }
    let mut at = 0;
    let mut out = Vec::new();
    for (tag, (ti, si)) in e.draw_tags.iter().zip(per_path) {
        let t = match ti.checked_sub(1).and_then(|i| e.transforms.get(i)) {
            Some(t) => [t.matrix[0], t.matrix[1], t.matrix[2], t.matrix[3], t.translation[0], t.translation[1]],
            None => [1., 0., 0., 1., 0., 0.],
        };
        let st = si.checked_sub(1).and_then(|i| e.styles.get(i));
        let stroke = st.and_then(|s| (s.flags_and_miter_limit & 0x8000_0000 != 0).then_some((s.line_width, s.flags_and_miter_limit)));
        if tag.0 != 0x21 && st.is_some_and(|s| s.flags_and_miter_limit & 0x8000_0000 == 0 && s.flags_and_miter_limit & 0x4000_0000 != 0) {
            return Err("even-odd fill".into());
        }
        let words = ((tag.0 >> 2) & 7) as usize;
        let data = e.draw_data.get(at..at + words).ok_or("draw data too short")?;
        at += words;
        out.push(match tag.0 {
            0x44 => Obj::Paint { kind: 0, t, stroke },
            0x114 => Obj::Paint { kind: 1, t, stroke },
            0x29c => Obj::Paint { kind: 2, t, stroke },
            0x49 => Obj::Begin { blend: data[0], alpha: f32::from_bits(data[1]), t },
            0x21 => Obj::End,
            x => Obj::Other(x),
        });
    }
    Ok(out)
}

/// Compares the objects of an encoding with the specification's scene.
pub fn objects_differ(have: &[Obj], want: &[X]) -> Option<String> {
    // objects nothing can be seen of need not be encoded
    let want: Vec<&X> = want
        .iter()
        .filter(|x| !matches!(x, X::Begin { .. } | X::End))
        .filter(|x| !matches!(x, X::Draw { stroke: Some(XStroke { w, .. }), .. } if *w == 0.0))
        .collect();
    if have.len() != want.len() {
        return Some(format!("{} objects in the scene, expected {}", have.len(), want.len()));
    }
    let near = |t: &[f32; 6], a: &Affine| {
        let c = a.as_coeffs();
        (0..6).all(|i| (t[i] as f64 - c[i]).abs() <= 1e-4 * (1.0 + c[i].abs()))
    };
    for (n, (h, w)) in have.iter().zip(want).enumerate() {
        let ok = match (h, w) {
            (Obj::End, X::Pop) => true,
            (Obj::Begin { blend, t, .. }, X::Clip { t: xt, .. }) => *blend == 0x8003 && near(t, xt),
            (Obj::Begin { blend, alpha, t }, X::Push { mode, t: xt, .. }) => {
                let compose = match mode.as_str() {
                    "SrcIn" => 5,
                    "SrcOut" => 7,
                    _ => 3,
                };
                *blend == compose && *alpha == 1.0 && near(t, xt)
            }
            (Obj::Paint { kind, t, stroke }, X::Draw { stroke: xs, t: xt, brush, .. }) => {
                let kind_ok = match brush {
                    XBrush::Solid(_) => *kind == 0,
                    // a gradient without or with a single stop is a colour
                    XBrush::Gradient { stops, .. } if stops.len() < 2 => *kind == 0,
                    XBrush::Gradient { radial, s, e, .. } => *kind == if *radial { 2 } else { 1 } || s == e,
                };
                let stroke_ok = match (stroke, xs) {
                    (None, None) => true,
                    (Some((w, flags)), Some(x)) => {
                        let join = match x.join.as_str() {
                            "Bevel" => 0,
                            "Miter" => 0x1000_0000,
                            _ => 0x2000_0000,
                        };
                        let cap = match x.cap.as_str() {
                            "Butt" => 0,
                            "Square" => 0x0500_0000,
                            _ => 0x0a00_0000,
                        };
                        (*w as f64 - x.w).abs() <= 1e-4 * (1.0 + x.w) && flags & 0x3000_0000 == join && flags & 0x0f00_0000 == cap
                    }
                    _ => false,
                };
                kind_ok && stroke_ok && near(t, xt)
            }
            _ => false,
        };
        if !ok {
            return Some(format!("object {n} is {h:?}, expected {w:?}"));
        }
    }
    None
}
