//! What each property compares.

use crate::concur;
use crate::calls;
use crate::cmp::{self, Aspects, Draws, EVERYTHING, View};
use crate::expect::{self, X};
use crate::load;
use crate::record::{Ev, Recorder};
use crate::scene;
use crate::session::{Case, End, fresh, guarded, render};
use kurbo::{Affine, PathEl};
use serde_json::Value as J;
use std::collections::BTreeMap;
use velato::model::{self, Content, Shape};
use velato::{Composition, Renderer, vello::Scene};

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub renders: u64,
    pub calls: u64,
    pub draws: u64,
    pub failures: u64,
    pub families: BTreeMap<String, u64>,
}

pub struct Found {
    pub what: String,
    pub op: usize,
}

const FULL: View = View { clips: true, pushes: true, groups: true, draws: Draws::Each };
const NONE: Aspects = Aspects { t: false, path: false, color: false, alpha: false, stroke: false, mode: false, clip_t: false, clip_path: false, names: false };

/// View, aspects and whether the sequence of calls itself counts even in
/// documents that mix all features.
fn scope(prop: &str) -> Option<(View, Aspects, bool)> {
    let no_clips = View { clips: false, ..FULL };
    let plain = View { clips: false, pushes: false, ..FULL };
    Some(match prop {
        "C02" => (View { draws: Draws::Once, ..plain }, Aspects { names: true, ..NONE }, true),
        "C03" => (FULL, Aspects { t: true, clip_t: true, ..NONE }, false),
        "C04" => (plain, Aspects { alpha: true, ..NONE }, false),
        "C05" => (View { draws: Draws::Once, ..no_clips }, Aspects { mode: true, names: true, ..NONE }, true),
        "C06" => (View { draws: Draws::Once, pushes: false, ..FULL }, Aspects { clip_t: true, clip_path: true, ..NONE }, true),
        "C07" => (FULL, Aspects { color: false, stroke: false, ..EVERYTHING }, true),
        "C08" => (plain, Aspects { t: true, path: true, color: true, stroke: true, ..NONE }, true),
        "C09" => (FULL, EVERYTHING, false),
        "C10" => (plain, Aspects { t: true, path: true, ..NONE }, true),
        "C13" => (View { draws: Draws::Once, ..no_clips }, Aspects { names: true, ..NONE }, true),
        "C16" => (plain, Aspects { path: true, ..NONE }, false),
        "C17" => (plain, EVERYTHING, true),
        "C19" => (plain, Aspects { stroke: true, color: true, alpha: true, ..NONE }, false),
        _ => return None,
    })
}

pub fn check(prop: &str, case: &Case, variants: &[J], st: &mut Stats, trace: &mut Vec<String>) -> Vec<Found> {
    st.cases += 1;
    *st.families.entry(case.fam.clone()).or_default() += 1;
    if case.fam == "calls" {
        return calls::check(&case.raw, st);
    }
    if case.fam == "concur" {
        return concur::check(case, variants, st);
    }
    let comps = match case.load_all() {
        Ok(c) => c,
        Err(what) => return vec![Found { what, op: 0 }],
    };
    if prop == "C20" {
        return imported(case, &comps);
    }
    if prop == "C14" {
        return match load::session(case) {
            Ok(n) => {
                st.renders += n;
                vec![]
            }
            Err(what) => vec![Found { what, op: 0 }],
        };
    }
    let mut renders = Vec::new();
    for (i, op) in case.ops.iter().enumerate() {
        match fresh(&comps[op.doc], op) {
            Ok(evs) => {
                st.renders += 1;
                st.calls += evs.len() as u64;
                st.draws += evs.iter().filter(|e| matches!(e, Ev::Draw { .. })).count() as u64;
                renders.push(evs);
            }
            Err(what) => return vec![Found { what, op: i + 1 }],
        }
    }
    let wants: Vec<Vec<X>> = expect::list(&case.raw["out"]).iter().map(expect::events).collect();
    let mut found = Vec::new();
    let mut note = |op: usize, e: Option<String>| {
        if let Some(what) = e {
            found.push(Found { what, op: op + 1 });
        }
    };
    if let Some((view, aspects, structural)) = scope(prop) {
        let structural = structural || case.fam != "random";
        for (i, (have, want)) in renders.iter().zip(&wants).enumerate() {
            if prop == "C13" {
                note(i, have.iter().find_map(cmp::infinite));
            }
            note(i, cmp::compare(have, want, view, aspects, structural));
        }
    }
    match prop {
        "C01" => {
            for (i, have) in renders.iter().enumerate() {
                tokens(trace, &format!("{}/{}", case.cno, i + 1), have, &comps[case.ops[i].doc], case.ops[i].t);
            }
        }
        "C11" => found = history(case, variants, &comps, &renders, st),
        "C15" => {
            note(1, cmp::same_render(&renders[0], &renders[1]));
            if let Some(e) = same_models(&comps[0], &comps[1], case.ops[0].f) {
                note(1, Some(e));
            }
        }
        "C18" => {
            for (i, have) in renders.iter().enumerate() {
                note(i, encodings(case, &comps, i, have, &wants[i], renders.get((i + 1) % renders.len())));
            }
        }
        _ => {}
    }
    found
}

/// Records a render as a sequence of tokens for the trace specification.
pub fn tokens(trace: &mut Vec<String>, id: &str, evs: &[Ev], comp: &Composition, t: Affine) {
    trace.push(format!("{{\"e\":\"render\",\"id\":\"{id}\"}}"));
    let (w, h) = (comp.width as f64, comp.height as f64);
    let corners = [(0.0, 0.0), (w, 0.0), (w, h), (0.0, h)];
    for e in evs {
        let k = cmp::kind(e);
        let line = match e {
            Ev::Clip { t: ct, path } => {
                let pts: Vec<(f64, f64)> = path
                    .iter()
                    .filter_map(|p| match p {
                        PathEl::MoveTo(p) | PathEl::LineTo(p) => Some((p.x, p.y)),
                        _ => None,
                    })
                    .collect();
                let straight = path.iter().all(|p| !matches!(p, PathEl::QuadTo(..) | PathEl::CurveTo(..)));
                let vp = cmp::affine_differs(*ct, t).is_none() && straight
                    && pts.iter().all(|p| corners.contains(p)) && corners.iter().all(|c| pts.contains(c));
                format!("{{\"e\":\"{k}\",\"vp\":{vp}}}")
            }
            _ => format!("{{\"e\":\"{k}\"}}"),
        };
        trace.push(line);
    }
    trace.push("{\"e\":\"done\"}".into());
}

/// C11: one renderer for a whole session, renders possibly cut short.
fn history(case: &Case, variants: &[J], comps: &[Composition], alone: &[Vec<Ev>], st: &mut Stats) -> Vec<Found> {
    let before: Vec<String> = comps.iter().map(|c| format!("{c:?}")).collect();
    for v in variants {
        let cuts: Vec<usize> = expect::list(v).iter().map(|c| c.as_u64().unwrap() as usize).collect();
        let mut r = Renderer::new();
        for (i, op) in case.ops.iter().enumerate() {
            let cut = cuts.get(i).copied().unwrap_or(0);
            let (evs, end) = render(&mut r, &comps[op.doc], op, cut);
            st.renders += 1;
            st.calls += evs.len() as u64;
            let whole = &alone[i];
            let want = if cut > 0 && cut <= whole.len() {
                st.failures += 1;
                if end != End::SinkFailed {
                    return vec![Found { what: format!("cuts {cuts:?}: render ended with {end:?}"), op: i + 1 }];
                }
                &whole[..cut - 1]
            } else {
                if end != End::Done {
                    return vec![Found { what: format!("cuts {cuts:?}: render ended with {end:?}"), op: i + 1 }];
                }
                &whole[..]
            };
            if evs != want && format!("{evs:?}") != format!("{want:?}") {
                let n = evs.iter().zip(want).take_while(|(a, b)| a == b).count();
                return vec![Found {
                    what: format!("cuts {cuts:?}: call {n} is {:?}, alone it is {:?} ({} and {} calls)", evs.get(n), want.get(n), evs.len(), want.len()),
                    op: i + 1,
                }];
            }
        }
    }
    // the compositions take turns in the same place in memory
    let mut slot = Box::new(comps[0].clone());
    let mut r = Renderer::new();
    for round in 0..2 {
        for (i, op) in case.ops.iter().enumerate() {
            *slot = comps[op.doc].clone();
            let (evs, end) = render(&mut r, &slot, op, 0);
            st.renders += 1;
            st.calls += evs.len() as u64;
            if end != End::Done || evs != alone[i] && format!("{evs:?}") != format!("{:?}", alone[i]) {
                return vec![Found { what: format!("round {round} in one place: the render ended with {end:?} after {} calls and is not the render alone ({} calls)", evs.len(), alone[i].len()), op: i + 1 }];
            }
        }
    }
    // a process that renders nothing else
    for (i, whole) in alone.iter().enumerate() {
        match alone_in_process(case, i) {
            Ok(text) if text == format!("{whole:?}") => st.renders += 1,
            Ok(_) => return vec![Found { what: "a process of its own renders something else".into(), op: i + 1 }],
            Err(e) => return vec![Found { what: format!("in a process of its own: {e}"), op: i + 1 }],
        }
    }
    for (c, b) in comps.iter().zip(&before) {
        if format!("{c:?}") != *b {
            return vec![Found { what: "rendering changed the composition".into(), op: 0 }];
        }
    }
    Vec::new()
}

/// Renders one operation of a case in a new process.
fn alone_in_process(case: &Case, i: usize) -> Result<String, String> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new(exe).args(["alone", &i.to_string()]).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
    child.stdin.take().unwrap().write_all(case.raw.to_string().as_bytes()).unwrap();
    let o = child.wait_with_output().unwrap();
    if !o.status.success() {
        return Err(format!("{}", o.status));
    }
    Ok(String::from_utf8_lossy(&o.stdout).into_owned())
}

/// C18: encodings of the Vello back end.
fn encodings(case: &Case, comps: &[Composition], i: usize, have: &[Ev], want: &[X], other: Option<&Vec<Ev>>) -> Option<String> {
    let op = &case.ops[i];
    let c = &comps[op.doc];
    let r = guarded(|| {
        let mut appended = Scene::new();
        Renderer::new().append(c, op.f, op.t, op.alpha, &mut appended);
        let mut replayed = Scene::new();
        scene::replay(have, &mut replayed);
        if let Some(e) = scene::differ(&appended, &replayed) {
            return Some(format!("appending to a scene against performing the calls: {e}"));
        }
        let new = Renderer::new().render_to_vello_scene(c, op.f, op.t, op.alpha);
        if let Some(e) = scene::differ(&new, &replayed) {
            return Some(format!("render_to_vello_scene against performing the calls: {e}"));
        }
        // a scene that already has content: other calls and an open layer
        let mut used = Scene::new();
        if let Some(o) = other {
            scene::replay(o, &mut used);
        }
        used.push_layer(peniko::Fill::EvenOdd, peniko::Mix::Multiply, 0.5, Affine::translate((3.0, 1.0)), &kurbo::Rect::new(0., 0., 9., 9.));
        used.stroke(&kurbo::Stroke::new(1.5), Affine::IDENTITY, peniko::Color::WHITE, None, &kurbo::Circle::new((1., 2.), 3.));
        let mut twin = used.clone();
        let before = used.clone();
        Renderer::new().append(c, op.f, op.t, op.alpha, &mut used);
        scene::replay(have, &mut twin);
        if !scene::starts_with(&used, &before) {
            return Some("appending changed what the scene contained".into());
        }
        if let Some(e) = scene::differ(&used, &twin) {
            return Some(format!("appending to a used scene: {e}"));
        }
        // a renderer that was used with another sink
        let mut r = Renderer::new();
        r.append(c, op.f, op.t, op.alpha, &mut Recorder::default());
        let again = r.render_to_vello_scene(c, op.f, op.t, op.alpha);
        if let Some(e) = scene::differ(&again, &replayed) {
            return Some(format!("a used renderer: {e}"));
        }
        let shown = cmp::visible(have);
        let mut s = Scene::new();
        scene::replay(&shown, &mut s);
        match scene::objects(&s) {
            Err(e) => Some(format!("encoding: {e}")),
            Ok(objs) => scene::objects_differ(&objs, &cmp::wanted(want)),
        }
    });
    match r {
        Ok(e) => e,
        Err(e) => Some(format!("rendering to a scene panicked: {e}")),
    }
}

/// C20: the loaded composition against the specification's import.
fn imported(case: &Case, comps: &[Composition]) -> Vec<Found> {
    let mut out = Vec::new();
    for (d, c) in comps.iter().enumerate() {
        let want = &case.raw["imported"][d];
        let mut bad = Vec::new();
        let num = |k: &str| expect::num(&want[k]);
        if c.frames != (num("ip")..num("op")) {
            bad.push(format!("frames {:?}", c.frames));
        }
        if !cmp::close(c.frame_rate, num("fr"), 1e-9) {
            bad.push(format!("frame rate {}", c.frame_rate));
        }
        if c.width as f64 != num("w") || c.height as f64 != num("h") {
            bad.push(format!("size {} x {}", c.width, c.height));
        }
        list_differs("main list", &c.layers, &want["layers"], &mut bad);
        let assets = expect::list(&want["assets"]);
        if assets.len() != c.assets.len() {
            bad.push(format!("{} assets, expected {}", c.assets.len(), assets.len()));
        }
        for a in assets {
            let id = a["id"].as_str().unwrap();
            match c.assets.get(id) {
                None => bad.push(format!("no asset {id}")),
                Some(l) => list_differs(&format!("asset {id}"), l, &a["layers"], &mut bad),
            }
        }
        out.extend(bad.into_iter().map(|b| Found { what: format!("document {}: {b}", d + 1), op: 0 }));
    }
    out
}

fn list_differs(which: &str, have: &[model::Layer], want: &J, bad: &mut Vec<String>) {
    let want = expect::list(want);
    if have.len() != want.len() {
        bad.push(format!("{which} has {} layers, expected {}", have.len(), want.len()));
        return;
    }
    for (j, (l, w)) in have.iter().zip(want).enumerate() {
        let num = |k: &str| expect::num(&w[k]);
        let ix = |k: &str| (w[k].as_u64().unwrap() as usize).checked_sub(1);
        let content = match &l.content {
            Content::None => ("none", ""),
            Content::Instance { name, .. } => ("instance", name.as_str()),
            Content::Shape(_) => ("shapes", ""),
        };
        let mode = l.mask_layer.map_or(String::new(), |m| crate::record::mode_name(m.0));
        let have = format!("{:?}", (&l.name, l.frames.start, l.frames.end, l.stretch, l.start_frame, l.parent, l.mask_layer.map(|m| m.1), mode, l.is_mask, l.masks.len(), content));
        let want = format!("{:?}", (
            w["nm"].as_str().unwrap(), num("ip"), num("op"), num("sr"), num("st"), ix("parent"), ix("matte"),
            w["mode"].as_str().unwrap().to_string(), w["src"].as_bool().unwrap(), w["nmasks"].as_u64().unwrap() as usize,
            (w["content"].as_str().unwrap(), w["ref"].as_str().unwrap()),
        ));
        if have != want {
            bad.push(format!("{which}, layer {}: {have}, expected {want} (name, in, out, stretch, start, parent, matte, mode, matte source, masks, content)", j + 1));
        }
        // The rest of what the model keeps of a layer.
        let ends = |v: &model::Value<f64>| vec![v.evaluate(-9e6), v.evaluate(9e6)];
        let nums = |v: &J| expect::list(v).iter().map(expect::num).collect::<Vec<f64>>();
        let remap = match &l.content {
            Content::Instance { time_remap: Some(v), .. } => ends(v),
            _ => vec![],
        };
        let blend = l.blend_mode.map_or(String::new(), |b| if b.compose == peniko::Compose::SrcOver { format!("{:?}", b.mix) } else { format!("{b:?}") });
        let have = (vec![l.width, l.height], blend, ends(&l.opacity), l.masks.iter().map(|m| ends(&m.opacity)).collect::<Vec<_>>(), remap);
        let want = (nums(&w["size"]), w["blend"].as_str().unwrap().to_string(), nums(&w["opac"]), expect::list(&w["mopac"]).iter().map(nums).collect::<Vec<_>>(), nums(&w["remap"]));
        let flat = |x: &(Vec<f64>, String, Vec<f64>, Vec<Vec<f64>>, Vec<f64>)| [x.0.clone(), x.2.clone(), x.3.concat(), x.4.clone()].concat();
        let (a, b) = (flat(&have), flat(&want));
        if have.1 != want.1 || have.4.len() != want.4.len() || a.len() != b.len() || a.iter().zip(&b).any(|(x, y)| !cmp::close(*x, *y, 1e-9)) {
            bad.push(format!("{which}, layer {}: {have:?}, expected {want:?} (size, blend mode, opacity, mask opacities and time remapping before and after all keyframes)", j + 1));
        }
    }
}

/// C15: evaluating the public model types of a document and of its twin with
/// constant keyframes.
fn same_models(a: &Composition, b: &Composition, f: f64) -> Option<String> {
    let mut lists = vec![(&a.layers, &b.layers)];
    for (id, l) in &a.assets {
        match b.assets.get(id) {
            Some(m) => lists.push((l, m)),
            None => return Some(format!("asset {id} is missing")),
        }
    }
    for (l, m) in lists {
        if l.len() != m.len() {
            return Some("layer counts differ".into());
        }
        for (x, y) in l.iter().zip(m) {
            if let Some(e) = same_layer(x, y, f) {
                return Some(format!("layer {:?} at frame {f}: {e}", x.name));
            }
        }
    }
    None
}
fn same_layer(a: &model::Layer, b: &model::Layer, f: f64) -> Option<String> {
    let t = cmp::affine_differs(*a.transform.evaluate(f).as_ref(), *b.transform.evaluate(f).as_ref());
    if t.is_some() {
        return t;
    }
    let (o, p) = (a.opacity.evaluate(f), b.opacity.evaluate(f));
    if !cmp::close(o, p, 1e-6) {
        return Some(format!("opacity {o} and {p}"));
    }
    if a.masks.len() != b.masks.len() {
        return Some("mask counts differ".into());
    }
    for (m, n) in a.masks.iter().zip(&b.masks) {
        let e = same_geometry(&m.geometry, &n.geometry, f);
        if e.is_some() {
            return e;
        }
        let (o, p) = (m.opacity.evaluate(f), n.opacity.evaluate(f));
        if !cmp::close(o, p, 1e-6) {
            return Some(format!("mask opacity {o} and {p}"));
        }
    }
    match (&a.content, &b.content) {
        (Content::Shape(s), Content::Shape(t)) => same_shapes(s, t, f),
        (Content::None, Content::None) => None,
        (Content::Instance { name: n, .. }, Content::Instance { name: m, .. }) if n == m => None,
        _ => Some("contents differ".into()),
    }
}
/// An outline is fixed when every one of its parameters is.
fn misjudged(g: &model::Geometry) -> Option<String> {
    let (says, is) = match g {
        model::Geometry::Rect(r) => (r.is_fixed(), [r.position.is_fixed(), r.size.is_fixed(), r.corner_radius.is_fixed()].iter().all(|x| *x)),
        model::Geometry::Ellipse(e) => (e.is_fixed(), e.position.is_fixed() && e.size.is_fixed()),
        model::Geometry::Star(s) => (
            s.is_fixed(),
            [&s.inner_radius, &s.inner_roundness, &s.outer_radius, &s.outer_roundness, &s.rotation, &s.points].iter().all(|v| v.is_fixed()) && s.position.is_fixed(),
        ),
        _ => return None,
    };
    (says != is).then(|| format!("an outline says fixed = {says} but is {is}"))
}
fn same_geometry(a: &model::Geometry, b: &model::Geometry, f: f64) -> Option<String> {
    let (mut p, mut q) = (Vec::new(), Vec::new());
    a.evaluate(f, &mut p);
    b.evaluate(f, &mut q);
    if let Some(e) = misjudged(a).or_else(|| misjudged(b)) {
        return Some(e);
    }
    crate::geom::same_recorded(&p, &q)
}
fn same_shapes(a: &[Shape], b: &[Shape], f: f64) -> Option<String> {
    if a.len() != b.len() {
        return Some("shape counts differ".into());
    }
    let near = |x: f64, y: f64| cmp::close(x, y, 1e-6);
    a.iter().zip(b).find_map(|(x, y)| match (x, y) {
        (Shape::Group(s, g), Shape::Group(t, h)) => {
            let tr = match (g, h) {
                (Some(g), Some(h)) => {
                    let (o, p) = (g.opacity.evaluate(f), h.opacity.evaluate(f));
                    if near(o, p) {
                        cmp::affine_differs(*g.transform.evaluate(f).as_ref(), *h.transform.evaluate(f).as_ref())
                    } else {
                        Some(format!("group opacity {o} and {p}"))
                    }
                }
                (None, None) => None,
                _ => Some("group transforms differ".into()),
            };
            tr.or_else(|| same_shapes(s, t, f))
        }
        (Shape::Geometry(g), Shape::Geometry(h)) => same_geometry(g, h, f),
        (Shape::Draw(d), Shape::Draw(e)) => {
            let (o, p) = (d.opacity.evaluate(f), e.opacity.evaluate(f));
            if !near(o, p) {
                return Some(format!("draw opacity {o} and {p}"));
            }
            for alpha in [1.0, 0.5, 0.0] {
                let e = cmp::same_brush(d.brush.evaluate(alpha, f).as_ref(), e.brush.evaluate(alpha, f).as_ref());
                if let Some(e) = e {
                    return Some(format!("alpha {alpha}: {e}"));
                }
            }
            match (&d.stroke, &e.stroke) {
                (Some(s), Some(t)) => {
                    let (s, t) = (s.evaluate(f).into_owned(), t.evaluate(f).into_owned());
                    let same = near(s.width, t.width) && s.join == t.join && s.start_cap == t.start_cap && s.end_cap == t.end_cap
                        && near(s.miter_limit, t.miter_limit) && s.dash_pattern == t.dash_pattern;
                    (!same).then(|| format!("strokes {s:?} and {t:?}"))
                }
                (None, None) => None,
                _ => Some("stroke and fill".into()),
            }
        }
        (Shape::Trim(t), Shape::Trim(u)) => {
            let (t, u) = (t.evaluate(f).into_owned(), u.evaluate(f).into_owned());
            let same = near(t.start, u.start) && near(t.end, u.end) && near(t.offset, u.offset);
            (!same).then(|| format!("trims {t:?} and {u:?}"))
        }
        (Shape::Repeater(r), Shape::Repeater(s)) => {
            let (r, s) = (r.evaluate(f).into_owned(), s.evaluate(f).into_owned());
            let same = r.copies == s.copies && near(r.offset, s.offset) && near(r.rotation, s.rotation) && near(r.position.x, s.position.x)
                && near(r.position.y, s.position.y) && near(r.anchor_point.x, s.anchor_point.x) && near(r.anchor_point.y, s.anchor_point.y)
                && near(r.scale.x, s.scale.x) && near(r.scale.y, s.scale.y) && near(r.start_opacity, s.start_opacity) && near(r.end_opacity, s.end_opacity);
            (!same).then(|| format!("repeaters {r:?} and {s:?}"))
        }
        _ => Some("kinds of shapes differ".into()),
    })
}
