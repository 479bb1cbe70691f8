//! The generated input of one check: everything a property needs to be replayed.
use serde_json::{json, Map, Number, Value};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    /// Triangles: three vertices each.
    pub tris: Vec<[f32; 9]>,
    /// Supplied boxes (min, max); empty = none supplied.
    pub boxes: Vec<[f32; 6]>,
    /// Box primitives: min, max, centre.
    pub prims: Vec<[f32; 9]>,
    /// Later positions of the triangles (refitting).
    pub frames: Vec<Vec<[f32; 9]>>,
    /// Rays: origin, direction, t_min, t.
    pub rays: Vec<[f32; 8]>,
    /// Rays come in groups of this size (1, or 4 for packets).
    pub group: usize,
    pub f: Vec<f32>,
    pub u: Vec<i64>,
    pub ops: Vec<Vec<i64>>,
}

fn fnum(x: f32) -> Value {
    if x.is_nan() {
        return json!(format!("nan:{:08x}", x.to_bits()));
    }
    if x.is_infinite() {
        return json!(if x > 0.0 { "inf" } else { "-inf" });
    }
    let d: f64 = x.to_string().parse().unwrap();
    if (d as f32).to_bits() == x.to_bits() {
        Value::Number(Number::from_f64(d).unwrap())
    } else {
        Value::Number(Number::from_f64(x as f64).unwrap())
    }
}

fn unfnum(v: &Value) -> f32 {
    match v {
        Value::String(s) if s == "inf" => f32::INFINITY,
        Value::String(s) if s == "-inf" => f32::NEG_INFINITY,
        Value::String(s) if s.starts_with("nan:") => {
            f32::from_bits(u32::from_str_radix(&s[4..], 16).unwrap())
        }
        Value::Number(n) => n.as_f64().unwrap() as f32,
        _ => panic!("bad float {:?}", v),
    }
}

fn arr<const N: usize>(v: &[[f32; N]]) -> Value {
    Value::Array(
        v.iter()
            .map(|a| Value::Array(a.iter().map(|x| fnum(*x)).collect()))
            .collect(),
    )
}

fn unarr<const N: usize>(v: Option<&Value>) -> Vec<[f32; N]> {
    match v {
        Some(Value::Array(a)) => a
            .iter()
            .map(|r| {
                let mut o = [0.0; N];
                for (i, x) in r.as_array().unwrap().iter().enumerate() {
                    o[i] = unfnum(x);
                }
                o
            })
            .collect(),
        _ => Vec::new(),
    }
}

impl Case {
    pub fn to_json(&self) -> Value {
        let mut m = Map::new();
        if !self.tris.is_empty() {
            m.insert("tris".into(), arr(&self.tris));
        }
        if !self.boxes.is_empty() {
            m.insert("boxes".into(), arr(&self.boxes));
        }
        if !self.prims.is_empty() {
            m.insert("prims".into(), arr(&self.prims));
        }
        if !self.frames.is_empty() {
            m.insert(
                "frames".into(),
                Value::Array(self.frames.iter().map(|f| arr(f)).collect()),
            );
        }
        if !self.rays.is_empty() {
            m.insert("rays".into(), arr(&self.rays));
        }
        m.insert("group".into(), json!(self.group));
        if !self.f.is_empty() {
            m.insert(
                "f".into(),
                Value::Array(self.f.iter().map(|x| fnum(*x)).collect()),
            );
        }
        m.insert("u".into(), json!(self.u));
        if !self.ops.is_empty() {
            m.insert("ops".into(), json!(self.ops));
        }
        Value::Object(m)
    }

    pub fn from_json(v: &Value) -> Case {
        Case {
            tris: unarr(v.get("tris")),
            boxes: unarr(v.get("boxes")),
            prims: unarr(v.get("prims")),
            frames: match v.get("frames") {
                Some(Value::Array(a)) => a.iter().map(|f| unarr(Some(f))).collect(),
                _ => vec![],
            },
            rays: unarr(v.get("rays")),
            group: v.get("group").and_then(|g| g.as_u64()).unwrap_or(1) as usize,
            f: match v.get("f") {
                Some(Value::Array(a)) => a.iter().map(unfnum).collect(),
                _ => vec![],
            },
            u: v.get("u")
                .and_then(|x| x.as_array())
                .map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect())
                .unwrap_or_default(),
            ops: v
                .get("ops")
                .and_then(|x| x.as_array())
                .map(|a| {
                    a.iter()
                        .map(|o| {
                            o.as_array()
                                .unwrap()
                                .iter()
                                .map(|x| x.as_i64().unwrap())
                                .collect()
                        })
                        .collect()
                })
                .unwrap_or_default(),
        }
    }

    /// A shortened rendering for the evidence file.
    pub fn sample(&self) -> Value {
        let mut c = self.clone();
        c.tris.truncate(3);
        c.boxes.truncate(3);
        c.prims.truncate(3);
        c.rays.truncate(4);
        c.ops.truncate(12);
        c.f.truncate(24);
        c.frames.truncate(1);
        for f in c.frames.iter_mut() {
            f.truncate(2);
        }
        let mut v = c.to_json();
        let o = v.as_object_mut().unwrap();
        o.insert(
            "sizes".into(),
            json!({"tris": self.tris.len(), "boxes": self.boxes.len(), "prims": self.prims.len(),
                   "frames": self.frames.len(), "rays": self.rays.len(), "ops": self.ops.len()}),
        );
        v
    }

    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut put = |x: u64| {
            h ^= x;
            h = h.wrapping_mul(0x100000001B3);
            h ^= h >> 29;
        };
        put(self.tris.len() as u64);
        for t in &self.tris {
            t.iter().for_each(|x| put(x.to_bits() as u64));
        }
        put(self.boxes.len() as u64);
        for t in &self.boxes {
            t.iter().for_each(|x| put(x.to_bits() as u64));
        }
        put(self.prims.len() as u64);
        for t in &self.prims {
            t.iter().for_each(|x| put(x.to_bits() as u64));
        }
        for fr in &self.frames {
            put(fr.len() as u64);
            for t in fr {
                t.iter().for_each(|x| put(x.to_bits() as u64));
            }
        }
        put(self.rays.len() as u64);
        for t in &self.rays {
            t.iter().for_each(|x| put(x.to_bits() as u64));
        }
        put(self.f.len() as u64);
        self.f.iter().for_each(|x| put(x.to_bits() as u64));
        put(self.u.len() as u64);
        self.u.iter().for_each(|x| put(*x as u64));
        put(self.ops.len() as u64);
        for o in &self.ops {
            put(o.len() as u64);
            o.iter().for_each(|x| put(*x as u64));
        }
        h
    }
}
