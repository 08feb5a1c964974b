//! The sink calls the specification expects, read from its JSON output.

use crate::doc::number;
use kurbo::{Affine, Point};
use serde_json::Value as J;

#[derive(Clone, Debug)]
pub enum Part {
    Path { mv: Point, segs: Vec<Vec<Point>>, closed: bool },
    Ellipse { c: Point, r: Point },
    Rect { c: Point, s: Point, r: f64 },
    Star { c: Point, step: f64, vs: Vec<(f64, f64, f64)> },
    Cut { of: Vec<Part>, r: Vec<(f64, f64)> },
}

#[derive(Clone, Debug)]
pub enum XBrush {
    Solid([f64; 3]),
    Gradient { radial: bool, s: Point, e: Point, stops: Vec<(f64, [f64; 3], f64)> },
}

#[derive(Clone, Debug)]
pub struct XStroke {
    pub w: f64,
    pub cap: String,
    pub join: String,
    pub ml: f64,
}

#[derive(Clone, Debug)]
pub enum X {
    Clip { t: Affine, path: Vec<Part> },
    Push { mode: String, t: Affine, path: Vec<Part> },
    Pop,
    Begin { name: String, ix: usize },
    End,
    Draw { stroke: Option<XStroke>, t: Affine, brush: XBrush, alpha: f64, path: Vec<Part> },
}

pub fn num(v: &J) -> f64 {
    number(v).unwrap_or_else(|| panic!("number expected: {v}"))
}
pub fn pt(v: &J) -> Point {
    Point::new(num(&v[0]), num(&v[1]))
}
pub fn affine(v: &J) -> Affine {
    let a = v.as_array().unwrap();
    Affine::new(std::array::from_fn(|i| num(&a[i])))
}
pub fn list(v: &J) -> &[J] {
    v.as_array().map(Vec::as_slice).unwrap_or(&[])
}
fn part(v: &J) -> Part {
    match v["k"].as_str().unwrap() {
        "path" => Part::Path {
            mv: pt(&v["mv"]),
            segs: list(&v["segs"]).iter().map(|s| list(s).iter().map(pt).collect()).collect(),
            closed: v["closed"].as_bool().unwrap(),
        },
        "el" => Part::Ellipse { c: pt(&v["c"]), r: pt(&v["r"]) },
        "rc" => Part::Rect { c: pt(&v["c"]), s: pt(&v["s"]), r: num(&v["r"]) },
        "sr" => Part::Star {
            c: pt(&v["c"]),
            step: num(&v["step"]),
            vs: list(&v["vs"]).iter().map(|x| (num(&x["deg"]), num(&x["r"]), num(&x["q"]))).collect(),
        },
        "cut" => Part::Cut {
            of: parts(&v["of"]),
            r: list(&v["r"]).iter().map(|x| (num(&x[0]), num(&x[1]))).collect(),
        },
        k => panic!("part {k}"),
    }
}
pub fn parts(v: &J) -> Vec<Part> {
    list(v).iter().map(part).collect()
}
fn brush(v: &J) -> XBrush {
    let col = |c: &J| [num(&c[0]), num(&c[1]), num(&c[2])];
    match v["t"].as_str().unwrap() {
        "solid" => XBrush::Solid(col(&v["c"])),
        t => XBrush::Gradient {
            radial: t == "radial",
            s: pt(&v["s"]),
            e: pt(&v["e"]),
            stops: list(&v["stops"]).iter().map(|s| (num(&s["o"]), col(&s["c"]), num(&s["a"]))).collect(),
        },
    }
}
pub fn events(v: &J) -> Vec<X> {
    list(v)
        .iter()
        .map(|e| match e["op"].as_str().unwrap() {
            "clip" => X::Clip { t: affine(&e["T"]), path: parts(&e["path"]) },
            "push" => X::Push { mode: e["mode"].as_str().unwrap().into(), t: affine(&e["T"]), path: parts(&e["path"]) },
            "pop" => X::Pop,
            "begin" => X::Begin { name: e["nm"].as_str().unwrap().into(), ix: e["ix"].as_u64().unwrap() as usize },
            "end" => X::End,
            "draw" => {
                let s = &e["stroke"];
                X::Draw {
                    stroke: s.get("cap").map(|_| XStroke {
                        w: num(&s["w"]),
                        cap: s["cap"].as_str().unwrap().into(),
                        join: s["join"].as_str().unwrap().into(),
                        ml: num(&s["ml"]),
                    }),
                    t: affine(&e["T"]),
                    brush: brush(&e["brush"]),
                    alpha: num(&e["alpha"]),
                    path: parts(&e["path"]),
                }
            }
            op => panic!("op {op}"),
        })
        .collect()
}
