//! Loads the documents of the grammar specification (module Load) and
//! compares verdicts, loading routes and what survives serialisation.

use crate::cmp;
use crate::expect::list;
use crate::inject;
use crate::record::{Ev, Recorder};
use crate::session::{Case, guarded};
use kurbo::Affine;
use serde_json::{Map, Value as J};
use std::fmt::Write;
use velato::schema::Animation;
use velato::{Composition, Renderer};

/// The JSON text of a tagged value; object keys in or against their order.
pub fn text(v: &J, out: &mut String) {
    match v["j"].as_str().unwrap() {
        "z" => out.push_str("null"),
        "b" => out.push_str(if v["v"].as_bool().unwrap() { "true" } else { "false" }),
        "n" => {
            let (n, d) = (v["v"]["n"].as_i64().unwrap(), v["v"]["d"].as_i64().unwrap());
            if d == 1 { write!(out, "{n}").unwrap() } else { write!(out, "{}", n as f64 / d as f64).unwrap() }
        }
        "x" => out.push_str(v["v"].as_str().unwrap()),
        "s" => write!(out, "{}", v["v"]).unwrap(),
        "a" => {
            out.push('[');
            for (i, x) in list(&v["v"]).iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                text(x, out);
            }
            out.push(']');
        }
        "o" => {
            out.push('{');
            let mut keys: Vec<_> = v["v"].as_object().map(|o| o.iter().collect()).unwrap_or_default();
            if v["r"].as_bool().unwrap() {
                keys.reverse();
            }
            for (i, (k, x)) in keys.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                write!(out, "{}:", J::String(k.clone())).unwrap();
                text(x, out);
            }
            out.push('}');
        }
        t => panic!("tag {t}"),
    }
}

pub fn text_of(v: &J) -> String {
    let mut s = String::new();
    text(v, &mut s);
    s
}

fn has_literals(v: &J) -> bool {
    match v {
        J::Object(o) => o.get("j").and_then(J::as_str) == Some("x") || o.values().any(has_literals),
        J::Array(a) => a.iter().any(has_literals),
        _ => false,
    }
}

fn replace(v: &mut J, path: &[J], w: &J) {
    let Some((head, rest)) = path.split_first() else {
        *v = w.clone();
        return;
    };
    let inner = v.get_mut("v").unwrap();
    let slot = match head {
        J::String(k) => &mut inner[k],
        n => &mut inner[n.as_u64().unwrap() as usize - 1],
    };
    replace(slot, rest, w);
}

/// The document of a line, given the starting document of its site.
pub fn document(line: &J, base: &J) -> J {
    let mut d = base.clone();
    for e in list(&line["edits"]) {
        replace(&mut d, list(&e["p"]), &e["w"]);
    }
    d
}

/// Objects without null members, numbers as floats.
fn plain(v: &J) -> J {
    match v {
        J::Object(o) => J::Object(o.iter().filter(|(_, x)| !x.is_null()).map(|(k, x)| (k.clone(), plain(x))).collect::<Map<_, _>>()),
        J::Array(a) => J::Array(a.iter().map(plain).collect()),
        J::Number(n) => serde_json::json!(n.as_f64()),
        _ => v.clone(),
    }
}

fn first_difference(a: &J, b: &J, at: &str) -> Option<String> {
    match (a, b) {
        (J::Object(x), J::Object(y)) => {
            for k in x.keys().chain(y.keys().filter(|k| !x.contains_key(*k))) {
                match (x.get(k), y.get(k)) {
                    (Some(p), Some(q)) => {
                        if let Some(e) = first_difference(p, q, &format!("{at}.{k}")) {
                            return Some(e);
                        }
                    }
                    (None, Some(q)) => return Some(format!("{at}.{k} is lost (was {q})")),
                    (Some(p), None) => return Some(format!("{at}.{k} is invented ({p})")),
                    _ => {}
                }
            }
            None
        }
        (J::Array(x), J::Array(y)) if x.len() == y.len() => {
            x.iter().zip(y).enumerate().find_map(|(i, (p, q))| first_difference(p, q, &format!("{at}[{i}]")))
        }
        _ if a == b => None,
        _ => Some(format!("{at} is {a} instead of {b}")),
    }
}

/// Everything a composition holds, independent of hash order.
pub fn contents(c: &Composition) -> String {
    let mut assets: Vec<_> = c.assets.iter().collect();
    assets.sort_by_key(|(k, _)| *k);
    format!("{:?} {} {}x{} {:?} {:?}", c.frames, c.frame_rate, c.width, c.height, assets, c.layers)
}

type Loaded = Result<Composition, String>;

fn outcome(r: Result<Result<Composition, velato::Error>, String>) -> Result<Loaded, String> {
    match r {
        Err(p) => Err(format!("loading panicked: {p}")),
        Ok(Err(e)) => {
            let m = guarded(|| format!("{e} {e:?}")).map_err(|p| format!("showing the error panicked: {p}"))?;
            Ok(Err(m))
        }
        Ok(Ok(c)) => Ok(Ok(c)),
    }
}

/// Loads from text, bytes and an already parsed value; all have to agree.
pub fn routes(t: &str) -> Result<Loaded, String> {
    let a = outcome(guarded(|| t.parse::<Composition>()))?;
    let b = outcome(guarded(|| Composition::from_slice(t.as_bytes())))?;
    let agree = |x: &Loaded, y: &Loaded, what: &str| match (x, y) {
        (Ok(x), Ok(y)) if contents(x) == contents(y) => Ok(()),
        (Ok(_), Ok(_)) => Err(format!("text and {what} load to different compositions")),
        (Err(_), Err(_)) => Ok(()),
        (Ok(_), Err(e)) => Err(format!("text loads but {what} fails: {e}")),
        (Err(e), Ok(_)) => Err(format!("{what} load but text fails: {e}")),
    };
    agree(&a, &b, "bytes")?;
    if let Ok(v) = serde_json::from_str::<J>(t) {
        let c = outcome(guarded(|| Composition::from_json(v)))?;
        agree(&a, &c, "a parsed value")?;
    }
    Ok(a)
}

/// Text and bytes are taken or refused alike, whatever they hold, by the
/// loader as well as by the schema.
pub fn agreeing(bytes: &[u8]) -> Result<(), String> {
    let bin = outcome(guarded(|| Composition::from_slice(bytes)))?.is_ok();
    let raw = guarded(|| Animation::from_slice(bytes).is_ok()).map_err(|p| format!("parsing bytes panicked: {p}"))?;
    let (txt, sch) = match std::str::from_utf8(bytes) {
        Err(_) => (false, false),
        Ok(s) => (
            outcome(guarded(|| s.parse::<Composition>()))?.is_ok(),
            guarded(|| s.parse::<Animation>().is_ok()).map_err(|p| format!("parsing text panicked: {p}"))?,
        ),
    };
    if [raw, txt, sch] != [bin; 3] {
        let yes = |x: bool| if x { "takes" } else { "refuses" };
        return Err(format!(
            "from bytes the loader {} and the schema {} it, from text the loader {} and the schema {} it",
            yes(bin), yes(raw), yes(txt), yes(sch)
        ));
    }
    Ok(())
}

pub fn render_at(c: &Composition, f: f64, t: Affine, alpha: f64) -> Result<Vec<Ev>, String> {
    guarded(|| {
        let mut s = Recorder::default();
        Renderer::new().append(c, f, t, alpha, &mut s);
        s.evs
    })
    .map_err(|p| format!("rendering frame {f} panicked: {p}"))
}

/// Parses into the schema by all routes, serialises, and compares.
pub fn round_trip(t: &str, keeps: Option<&J>) -> Result<Composition, String> {
    let parse = |t: &str, what: &str| match guarded(|| t.parse::<Animation>()) {
        Ok(Ok(a)) => Ok(a),
        Ok(Err(e)) => Err(format!("{what} is refused by the schema: {e}")),
        Err(p) => Err(format!("{what} panics in the schema: {p}")),
    };
    let a = parse(t, "the document")?;
    let b = guarded(|| Animation::from_slice(t.as_bytes()))?.map_err(|e| format!("bytes are refused by the schema: {e}"))?;
    if a != b {
        return Err("text and bytes give different schema values".into());
    }
    let v: J = serde_json::from_str(t).unwrap();
    let c = guarded(|| Animation::from_json(v))?.map_err(|e| format!("a parsed value is refused by the schema: {e}"))?;
    if a != c {
        return Err("text and a parsed value give different schema values".into());
    }
    let out = guarded(|| serde_json::to_string(&a)).map_err(|p| format!("serialising panics: {p}"))?.map_err(|e| format!("serialising fails: {e}"))?;
    let shown = guarded(|| a.to_string()).map_err(|p| format!("showing the schema value panics: {p}"))?;
    let parsed = |s: &str| serde_json::from_str::<J>(s).map_err(|e| format!("serialised document is no JSON: {e}"));
    if let Some(e) = first_difference(&plain(&parsed(&shown)?), &plain(&parsed(&out)?), "shown") {
        return Err(format!("display and serialisation differ: {e}"));
    }
    if let Some(k) = keeps {
        let k: J = serde_json::from_str(&text_of(k)).unwrap();
        if let Some(e) = first_difference(&plain(&parsed(&out)?), &plain(&k), "document") {
            return Err(format!("serialised again, {e}"));
        }
    }
    let d = parse(&out, "the serialised document")?;
    if a != d {
        return Err(format!("the serialised document parses to another schema value: {out}"));
    }
    let again = outcome(guarded(|| out.parse::<Composition>()))?.map_err(|e| format!("the serialised document does not load: {e}"))?;
    Ok(again)
}

/// Equal compositions that render alike.
pub fn same(a: &Composition, b: &Composition, at: &[(f64, Affine, f64)]) -> Result<(), String> {
    if contents(a) != contents(b) {
        return Err("the serialised document loads to another composition".into());
    }
    for (f, t, alpha) in at {
        let (x, y) = (render_at(a, *f, *t, *alpha)?, render_at(b, *f, *t, *alpha)?);
        if let Some(e) = cmp::same_render(&x, &y) {
            return Err(format!("the serialised document renders differently at frame {f}: {e}"));
        }
    }
    Ok(())
}

const FRAMES: [f64; 5] = [-1.0, 0.0, 1.5, 5.0, 9.75];

fn spoiled(t: &str) -> Vec<(String, Vec<u8>)> {
    let mut r = Vec::new();
    let n = t.len();
    for k in 0..40 {
        let cut = n * k / 40;
        if t.is_char_boundary(cut) {
            r.push((format!("cut after {cut} bytes"), t[..cut].as_bytes().to_vec()));
        }
    }
    for k in 1..12.min(n) {
        r.push((format!("cut {k} bytes before the end"), t.as_bytes()[..n - k].to_vec()));
    }
    for tail in ["}", "x", ",", "{}", "\u{0}"] {
        r.push((format!("followed by {tail:?}"), [t.as_bytes(), tail.as_bytes()].concat()));
    }
    for head in ["\u{a0}", "\u{2028}", "\u{b}", "\u{c}", "\u{85}", "/**/", "}"] {
        r.push((format!("after {head:?}"), [head.as_bytes(), t.as_bytes()].concat()));
        r.push((format!("before {head:?}"), [t.as_bytes(), head.as_bytes()].concat()));
    }
    r.push(("with a byte that is no UTF-8".into(), t.replacen("name", "na\u{1}me", 1).into_bytes().into_iter().map(|b| if b == 1 { 0xff } else { b }).collect()));
    r
}

/// Spaces everywhere, all strings escaped.
fn respelled(t: &str) -> Vec<(&'static str, String)> {
    let (mut spaced, mut escaped, mut quoted, mut skip) = (String::from(" \n"), String::new(), false, false);
    for c in t.chars() {
        let special = skip;
        skip = quoted && c == '\\' && !special;
        if c == '"' && !special {
            quoted = !quoted;
        }
        if quoted && c.is_ascii_alphanumeric() && !special {
            write!(escaped, "\\u{:04x}", c as u32).unwrap();
        } else {
            escaped.push(c);
        }
        spaced.push(c);
        if !quoted && "{}[],:".contains(c) {
            spaced.push_str("\t \r\n");
        }
    }
    vec![("spread over lines", spaced), ("with escaped strings", escaped)]
}

pub fn check(prop: &str, line: &J, doc: &J) -> Result<u64, String> {
    let t = text_of(doc);
    let want = line["expect"] == "loads";
    let got = match prop {
        "C14" => routes(&t)?,
        _ => outcome(guarded(|| t.parse::<Composition>()))?,
    };
    match (&got, want) {
        (Ok(_), false) => return Err("a document that breaks the grammar loads".into()),
        (Err(e), true) => return Err(format!("a document of the grammar is refused: {e}")),
        _ => {}
    }
    let base = line.get("text").is_some();
    match prop {
        "C12" => {
            if let (Err(e), Some(id)) = (&got, line["blame"].as_str())
                && !e.contains(id)
            {
                return Err(format!("the error does not name the asset {id:?}: {e}"));
            }
            if base && want {
                for (how, bytes) in spoiled(&t) {
                    if bytes == t.as_bytes() {
                        continue;
                    }
                    if outcome(guarded(|| Composition::from_slice(&bytes)))?.is_ok() {
                        return Err(format!("the document {how} loads"));
                    }
                    if let Ok(s) = std::str::from_utf8(&bytes)
                        && outcome(guarded(|| s.parse::<Composition>()))?.is_ok()
                    {
                        return Err(format!("the document {how} loads as text"));
                    }
                }
                for (how, s) in respelled(&t) {
                    match outcome(guarded(|| s.parse::<Composition>()))? {
                        Err(e) => return Err(format!("the document {how} is refused: {e}")),
                        Ok(c) => {
                            if contents(&c) != contents(got.as_ref().unwrap()) {
                                return Err(format!("the document {how} loads to another composition"));
                            }
                        }
                    }
                }
            }
            Ok(0)
        }
        "C13" => {
            let Ok(c) = got else { return Ok(0) };
            if has_literals(doc) {
                return Ok(0);
            }
            for f in FRAMES {
                let evs = render_at(&c, f, Affine::IDENTITY, 1.0)?;
                if let Some(e) = evs.iter().find_map(cmp::infinite) {
                    return Err(format!("frame {f}: {e}"));
                }
            }
            Ok(FRAMES.len() as u64)
        }
        "C14" => {
            if base {
                let marked = ["\u{feff}".as_bytes(), t.as_bytes()].concat();
                let wide = t.encode_utf16().flat_map(u16::to_le_bytes).collect();
                let more = [("after a byte order mark".to_string(), marked), ("in UTF-16".to_string(), wide)];
                for (how, bytes) in spoiled(&t).into_iter().chain(more) {
                    agreeing(&bytes).map_err(|e| format!("the document {how}: {e}"))?;
                }
            }
            let Ok(c) = got else { return Ok(0) };
            let again = round_trip(&t, line.get("keeps"))?;
            let at: Vec<_> = if has_literals(doc) { vec![] } else { FRAMES.iter().map(|f| (*f, Affine::scale(2.0), 1.0)).collect() };
            same(&c, &again, &at)?;
            Ok(2 * at.len() as u64)
        }
        p => panic!("{p}"),
    }
}

/// C14 for the rendering sessions of module MC.
pub fn session(case: &Case) -> Result<u64, String> {
    let mut n = 0;
    for (d, json) in case.json.iter().enumerate() {
        let t = json.to_string();
        let mut a = routes(&t)?.map_err(|e| format!("document {} was rejected: {e}", d + 1))?;
        let mut b = round_trip(&t, None)?;
        if contents(&a) != contents(&b) {
            return Err("the serialised document loads to another composition".into());
        }
        inject::inject(&mut a, &case.reps[d]);
        inject::inject(&mut b, &case.reps[d]);
        let at: Vec<_> = case.ops.iter().filter(|o| o.doc == d).map(|o| (o.f, o.t, o.alpha)).collect();
        n += 2 * at.len() as u64;
        same(&a, &b, &at)?;
    }
    Ok(n)
}
