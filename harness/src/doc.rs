//! Turns documents written by the specification into Lottie JSON.

use serde_json::{Map, Number, Value};

/// Numerator and denominator of a specification number.
pub fn rational(v: &Value) -> Option<f64> {
    let o = v.as_object()?;
    if o.len() == 2 {
        let n = o.get("n")?.as_i64()?;
        let d = o.get("d")?.as_i64()?;
        return Some(n as f64 / d as f64);
    }
    None
}

/// A number or a Pythagorean angle in degrees.
pub fn number(v: &Value) -> Option<f64> {
    if let Some(x) = v.as_f64() {
        return Some(x);
    }
    if let Some(x) = rational(v) {
        return Some(x);
    }
    let py = v.as_object()?.get("py")?.as_array()?;
    let (c, s) = (py[0].as_f64()?, py[1].as_f64()?);
    Some(s.atan2(c).to_degrees())
}

pub fn jnum(x: f64) -> Value {
    if x.fract() == 0.0 && x.abs() < 1e15 {
        Value::Number(Number::from(x as i64))
    } else {
        Value::Number(Number::from_f64(x).unwrap())
    }
}

fn handle(o: &Map<String, Value>) -> Option<Value> {
    let x = number(o.get("x")?)?;
    let y = number(o.get("y")?)?;
    let arr = o.get("arr").and_then(Value::as_i64).unwrap_or(0);
    let many = |v: f64, n: usize| Value::Array(vec![jnum(v); n]);
    let (x, y) = match arr {
        0 => (jnum(x), jnum(y)),
        1 => (many(x, 1), many(y, 1)),
        2 => (many(x, 2), many(y, 2)),
        3 => (jnum(x), many(y, 1)),
        4 => (many(x, 1), jnum(y)),
        5 => (many(x, 3), many(y, 3)),
        _ => (Value::Array(vec![]), Value::Array(vec![])),
    };
    let mut m = Map::new();
    m.insert("x".into(), x);
    m.insert("y".into(), y);
    Some(Value::Object(m))
}

/// Marker value that identifies a repeater after loading.
pub const MARK: f64 = 1_000_000.0;

/// Converts a specification value. Repeaters, which the file format import
/// does not support, become trims with a marker and are collected.
pub fn convert(v: &Value, reps: &mut Vec<Value>) -> Value {
    if let Some(x) = rational(v) {
        return jnum(x);
    }
    match v {
        Value::Array(a) => Value::Array(a.iter().map(|x| convert(x, reps)).collect()),
        Value::Object(o) => {
            if o.contains_key("py") {
                return jnum(number(v).unwrap());
            }
            if o.get("ty").and_then(Value::as_str) == Some("rp!") {
                let n = reps.len();
                let mut m = Map::new();
                for (k, x) in o {
                    m.insert(k.clone(), convert(x, reps));
                }
                reps.push(Value::Object(m));
                let prop = |x: f64| serde_json::json!({"a": 0, "k": x});
                return serde_json::json!({"ty": "tm", "s": prop(MARK + n as f64),
                    "e": prop(0.0), "o": prop(0.0)});
            }
            let keyframe = o.contains_key("t") && (o.contains_key("s") || o.contains_key("e") || o.contains_key("o"))
                || o.contains_key("t") && o.contains_key("i") || o.contains_key("t") && o.contains_key("h");
            let mut m = Map::new();
            for (k, x) in o.iter().filter(|(k, _)| *k != "hp" && *k != "hm") {
                let c = match x {
                    Value::Object(h) if keyframe && (k == "i" || k == "o") => handle(h),
                    _ => None,
                };
                m.insert(k.clone(), c.unwrap_or_else(|| convert(x, reps)));
            }
            Value::Object(m)
        }
        _ => v.clone(),
    }
}
