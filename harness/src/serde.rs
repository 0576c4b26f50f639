//! Types and values of any shape, given to the library's serde support as data.
//! A type described by data asks its deserializer for the same things, and takes the same things
//! from it, as the code that #[derive(Deserialize)] makes for such a type; some types that were
//! really derived run along.
use crate::proj::{catch, cps, opt_id};
use crate::rng::Rng;
use ::serde::de::{self, Deserialize, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use ::serde::ser::{self, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use kdl::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::fmt;

// ---------------------------------------------------------------- types
#[derive(Clone, Debug)]
pub struct Field { name: &'static str, of: Sh, d: bool }
#[derive(Clone, Debug)]
pub struct Rec { f: Vec<Field>, names: &'static [&'static str], deny: bool }
#[derive(Clone, Debug)]
pub enum Payload { None, One(Sh), Tup(Vec<Sh>), Rec(Rec) }
#[derive(Clone, Debug)]
pub enum Sh {
    Bool, Int(&'static str), Flt(u8), Char, Str, Unit(bool),
    Opt(Box<Sh>), New(Box<Sh>), Seq(Box<Sh>), Tup(Vec<Sh>, bool), Map(Box<Sh>, Box<Sh>),
    Rec(Rec), Enum(Vec<(&'static str, Payload)>, &'static [&'static str]), Any,
}
pub const WIDTHS: [&str; 10] = ["i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128"];

fn leak(s: &str) -> &'static str {
    static SEEN: std::sync::Mutex<Option<HashMap<String, &'static str>>> = std::sync::Mutex::new(None);
    let mut m = SEEN.lock().unwrap();
    m.get_or_insert_with(HashMap::new).entry(s.to_string()).or_insert_with(|| Box::leak(s.to_string().into_boxed_str()))
}
fn leak_all(v: Vec<&'static str>) -> &'static [&'static str] {
    static SEEN: std::sync::Mutex<Option<HashMap<Vec<&'static str>, &'static [&'static str]>>> = std::sync::Mutex::new(None);
    let mut m = SEEN.lock().unwrap();
    m.get_or_insert_with(HashMap::new).entry(v.clone()).or_insert_with(|| Box::leak(v.into_boxed_slice()))
}
impl Rec {
    fn new(f: Vec<Field>, deny: bool) -> Rec { Rec { names: leak_all(f.iter().map(|f| f.name).collect()), f, deny } }
    fn json(&self) -> Value { json!({"k": "rec", "f": self.f.iter().map(|f| json!({"n": cps(f.name), "of": f.of.json(), "d": f.d as u8})).collect::<Vec<_>>(), "deny": self.deny as u8}) }
    fn of_json(j: &Value) -> Rec {
        Rec::new(list(&j["f"]).iter().map(|f| Field { name: leak(&uncps(&f["n"])), of: Sh::of_json(&f["of"]), d: f["d"] == 1 }).collect(), j["deny"] == 1)
    }
    fn text(&self) -> String {
        format!("{{{}{}}}", self.f.iter().map(|f| format!("{:?}{}: {}", f.name, if f.d { "?" } else { "" }, f.of.text())).collect::<Vec<_>>().join(", "), if self.deny { ", deny" } else { "" })
    }
}
pub fn uncps(j: &Value) -> String { list(j).iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect() }
fn list(j: &Value) -> &Vec<Value> { static NONE: Vec<Value> = Vec::new(); j.as_array().unwrap_or(&NONE) }
impl Sh {
    fn rec(f: Vec<(&str, Sh, bool)>, deny: bool) -> Sh { Sh::Rec(Rec::new(f.into_iter().map(|(n, of, d)| Field { name: leak(n), of, d }).collect(), deny)) }
    fn enm(v: Vec<(&str, Payload)>) -> Sh {
        let v: Vec<(&'static str, Payload)> = v.into_iter().map(|(n, p)| (leak(n), p)).collect();
        let names = leak_all(v.iter().map(|v| v.0).collect());
        Sh::Enum(v, names)
    }
    pub fn json(&self) -> Value {
        let many = |v: &Vec<Sh>| v.iter().map(|s| s.json()).collect::<Vec<_>>();
        match self {
            Sh::Bool => json!({"k": "bool"}),
            Sh::Int(w) => json!({"k": "int", "w": w}),
            Sh::Flt(w) => json!({"k": "flt", "w": w}),
            Sh::Char => json!({"k": "char"}),
            Sh::Str => json!({"k": "str"}),
            Sh::Unit(_) => json!({"k": "unit"}),
            Sh::Opt(s) => json!({"k": "opt", "of": s.json()}),
            Sh::New(s) => json!({"k": "new", "of": s.json()}),
            Sh::Seq(s) => json!({"k": "seq", "of": s.json()}),
            Sh::Tup(v, _) => json!({"k": "tup", "of": many(v)}),
            Sh::Map(k, v) => json!({"k": "map", "key": k.json(), "of": v.json()}),
            Sh::Rec(r) => r.json(),
            Sh::Enum(v, _) => json!({"k": "enum", "v": v.iter().map(|(n, p)| json!({"n": cps(n), "p": match p {
                Payload::None => json!({"k": "none"}),
                Payload::One(s) => json!({"k": "one", "of": s.json()}),
                Payload::Tup(v) => json!({"k": "tup", "of": many(v)}),
                Payload::Rec(r) => r.json(),
            }})).collect::<Vec<_>>()}),
            Sh::Any => json!({"k": "any"}),
        }
    }
    pub fn of_json(j: &Value) -> Sh {
        let of = || Box::new(Sh::of_json(&j["of"]));
        let many = |j: &Value| list(j).iter().map(Sh::of_json).collect::<Vec<_>>();
        match j["k"].as_str().unwrap() {
            "bool" => Sh::Bool, "char" => Sh::Char, "str" => Sh::Str, "unit" => Sh::Unit(false), "any" => Sh::Any,
            "int" => Sh::Int(leak(j["w"].as_str().unwrap())), "flt" => Sh::Flt(j["w"].as_u64().unwrap() as u8),
            "opt" => Sh::Opt(of()), "new" => Sh::New(of()), "seq" => Sh::Seq(of()),
            "tup" => Sh::Tup(many(&j["of"]), false),
            "map" => Sh::Map(Box::new(Sh::of_json(&j["key"])), of()),
            "rec" => Sh::Rec(Rec::of_json(j)),
            "enum" => Sh::enm(list(&j["v"]).iter().map(|v| (leak(&uncps(&v["n"])), { let p = &v["p"]; match p["k"].as_str().unwrap() {
                "none" => Payload::None, "one" => Payload::One(Sh::of_json(&p["of"])), "tup" => Payload::Tup(many(&p["of"])), "rec" => Payload::Rec(Rec::of_json(p)), x => panic!("{x}") } })).collect()),
            x => panic!("shape {x}"),
        }
    }
    pub fn text(&self) -> String {
        let many = |v: &Vec<Sh>| v.iter().map(|s| s.text()).collect::<Vec<_>>().join(", ");
        match self {
            Sh::Bool => "bool".into(), Sh::Int(w) => w.to_string(), Sh::Flt(w) => format!("f{w}"), Sh::Char => "char".into(), Sh::Str => "str".into(), Sh::Unit(_) => "()".into(),
            Sh::Opt(s) => format!("Option<{}>", s.text()), Sh::New(s) => format!("New<{}>", s.text()), Sh::Seq(s) => format!("Vec<{}>", s.text()), Sh::Tup(v, _) => format!("({})", many(v)),
            Sh::Map(k, v) => format!("Map<{}, {}>", k.text(), v.text()), Sh::Rec(r) => r.text(), Sh::Any => "any".into(),
            Sh::Enum(v, _) => format!("enum[{}]", v.iter().map(|(n, p)| format!("{n:?}{}", match p { Payload::None => String::new(), Payload::One(s) => format!("({})", s.text()), Payload::Tup(v) => format!("(({}))", many(v)), Payload::Rec(r) => r.text() })).collect::<Vec<_>>().join(", ")),
        }
    }
}

// ---------------------------------------------------------------- values
#[derive(Clone, Debug, PartialEq)]
pub enum V { Bool(bool), Int(bool, u128), F64(u64), F32(u32), Str(String), Unit, None, Some(Box<V>), New(Box<V>), Seq(Vec<V>), Map(Vec<(V, V)>), Rec(Vec<V>), Var(usize, Vec<V>) }
const BIG: u64 = f64::NAN.to_bits();
fn bits64(f: f64) -> String { if f.is_nan() { "nan".into() } else { f.to_bits().to_string() } }
fn bits32(f: f32) -> String { if f.is_nan() { "nan".into() } else { f.to_bits().to_string() } }
impl V {
    pub fn json(&self) -> Value {
        let many = |v: &Vec<V>| Value::Array(v.iter().map(|x| x.json()).collect());
        match self {
            V::Bool(b) => json!({"k": "bool", "b": *b as u8}),
            V::Int(n, a) => json!({"k": "int", "n": *n as u8, "d": a.to_string().bytes().map(|c| c - 48).collect::<Vec<_>>()}),
            V::F64(f) => json!({"k": "flt", "f": bits64(f64::from_bits(*f))}),
            V::F32(f) => json!({"k": "flt", "f": bits32(f32::from_bits(*f))}),
            V::Str(s) => json!({"k": "str", "s": cps(s)}),
            V::Unit => json!({"k": "unit"}),
            V::None => json!({"k": "none"}),
            V::Some(v) => json!({"k": "some", "o": v.json()}),
            V::New(v) => json!({"k": "new", "w": v.json()}),
            V::Seq(v) => json!({"k": "seq", "q": many(v)}),
            V::Map(m) => json!({"k": "map", "m": m.iter().map(|(k, v)| json!([k.json(), v.json()])).collect::<Vec<_>>()}),
            V::Rec(v) => json!({"k": "rec", "r": many(v)}),
            V::Var(i, v) => json!({"k": "var", "i": i, "p": many(v)}),
        }
    }
    pub fn of_json(j: &Value) -> V {
        let many = |j: &Value| list(j).iter().map(V::of_json).collect::<Vec<_>>();
        match j["k"].as_str().unwrap() {
            "bool" => V::Bool(j["b"] == 1),
            "int" => V::Int(j["n"] == 1, list(&j["d"]).iter().fold(0u128, |a, d| a * 10 + d.as_u64().unwrap() as u128)),
            "flt" => V::F64(j["f"].as_str().unwrap().parse().unwrap_or(BIG)),
            "str" => V::Str(uncps(&j["s"])),
            "unit" => V::Unit, "none" => V::None,
            "some" => V::Some(Box::new(V::of_json(&j["o"]))), "new" => V::New(Box::new(V::of_json(&j["w"]))),
            "seq" => V::Seq(many(&j["q"])), "rec" => V::Rec(many(&j["r"])),
            "map" => V::Map(list(&j["m"]).iter().map(|p| (V::of_json(&p[0]), V::of_json(&p[1]))).collect()),
            "var" => V::Var(j["i"].as_u64().unwrap() as usize, many(&j["p"])),
            x => panic!("value {x}"),
        }
    }
    fn int(i: i128) -> V { V::Int(i < 0, i.unsigned_abs()) }
    fn text(&self) -> String {
        let many = |v: &Vec<V>| v.iter().map(|s| s.text()).collect::<Vec<_>>().join(", ");
        match self {
            V::Bool(b) => b.to_string(), V::Int(n, a) => format!("{}{a}", if *n { "-" } else { "" }), V::F64(f) => format!("{:?}", f64::from_bits(*f)), V::F32(f) => format!("{:?}", f32::from_bits(*f)),
            V::Str(s) => format!("{s:?}"), V::Unit => "()".into(), V::None => "None".into(), V::Some(v) => format!("Some({})", v.text()), V::New(v) => format!("New({})", v.text()),
            V::Seq(v) => format!("[{}]", many(v)), V::Rec(v) => format!("{{{}}}", many(v)), V::Var(i, v) => format!("#{i}({})", many(v)),
            V::Map(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", k.text(), v.text())).collect::<Vec<_>>().join(", ")),
        }
    }
}
fn default(s: &Sh) -> V {
    match s {
        Sh::Bool => V::Bool(false), Sh::Int(_) => V::int(0), Sh::Flt(64) => V::F64(0), Sh::Flt(_) => V::F32(0), Sh::Char => V::Str("\0".into()), Sh::Str => V::Str(String::new()),
        Sh::Unit(_) | Sh::Any | Sh::Enum(..) => V::Unit, Sh::Opt(_) => V::None, Sh::New(s) => V::New(Box::new(default(s))), Sh::Seq(_) => V::Seq(vec![]), Sh::Map(..) => V::Map(vec![]),
        Sh::Tup(v, _) => V::Seq(v.iter().map(default).collect()), Sh::Rec(r) => V::Rec(r.f.iter().map(|f| default(&f.of)).collect()),
    }
}

// ---------------------------------------------------------------- reading
#[derive(Clone, Copy)]
struct Seed<'a>(&'a Sh);
impl<'de, 'a> DeserializeSeed<'de> for Seed<'a> {
    type Value = V;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        macro_rules! int { ($t:ty) => { <$t>::deserialize(d).map(|i| V::Int((i as i128) < 0 && stringify!($t) != "u128", if stringify!($t) == "u128" { i as u128 } else { (i as i128).unsigned_abs() })) } }
        match self.0 {
            Sh::Bool => bool::deserialize(d).map(V::Bool),
            Sh::Int("i8") => int!(i8), Sh::Int("i16") => int!(i16), Sh::Int("i32") => int!(i32), Sh::Int("i64") => int!(i64), Sh::Int("i128") => int!(i128),
            Sh::Int("u8") => int!(u8), Sh::Int("u16") => int!(u16), Sh::Int("u32") => int!(u32), Sh::Int("u64") => int!(u64), Sh::Int(_) => int!(u128),
            Sh::Flt(64) => f64::deserialize(d).map(|f| V::F64(f.to_bits())),
            Sh::Flt(_) => f32::deserialize(d).map(|f| V::F32(f.to_bits())),
            Sh::Char => char::deserialize(d).map(|c| V::Str(c.into())),
            Sh::Str => String::deserialize(d).map(V::Str),
            Sh::Unit(false) => <()>::deserialize(d).map(|_| V::Unit),
            Sh::Unit(true) => { #[derive(::serde::Deserialize)] struct U; U::deserialize(d).map(|_| V::Unit) }
            Sh::Opt(s) => d.deserialize_option(OptVis(s)),
            Sh::New(s) => d.deserialize_newtype_struct("New", NewVis(s)),
            Sh::Seq(s) => d.deserialize_seq(SeqVis(s)),
            Sh::Tup(v, false) => d.deserialize_tuple(v.len(), TupVis(v)).map(V::Seq),
            Sh::Tup(v, true) => d.deserialize_tuple_struct("Tup", v.len(), TupVis(v)).map(V::Seq),
            Sh::Map(k, v) => d.deserialize_map(MapVis(k, v)),
            Sh::Rec(r) => d.deserialize_struct("Rec", r.names, RecVis(r)).map(V::Rec),
            Sh::Enum(v, names) => d.deserialize_enum("Enum", names, EnumVis(v, names)),
            Sh::Any => d.deserialize_any(AnyVis),
        }
    }
}
struct OptVis<'a>(&'a Sh);
impl<'de, 'a> Visitor<'de> for OptVis<'a> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("option") }
    fn visit_unit<E: de::Error>(self) -> Result<V, E> { Ok(V::None) }
    fn visit_none<E: de::Error>(self) -> Result<V, E> { Ok(V::None) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> { Seed(self.0).deserialize(d).map(|v| V::Some(Box::new(v))) }
}
struct NewVis<'a>(&'a Sh);
impl<'de, 'a> Visitor<'de> for NewVis<'a> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("tuple struct New") }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> { Seed(self.0).deserialize(d).map(|v| V::New(Box::new(v))) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        match a.next_element_seed(Seed(self.0))? { Some(v) => Ok(V::New(Box::new(v))), None => Err(de::Error::invalid_length(0, &self)) }
    }
}
struct SeqVis<'a>(&'a Sh);
impl<'de, 'a> Visitor<'de> for SeqVis<'a> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a sequence") }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element_seed(Seed(self.0))? { v.push(x); }
        Ok(V::Seq(v))
    }
}
struct TupVis<'a>(&'a [Sh]);
impl<'de, 'a> Visitor<'de> for TupVis<'a> {
    type Value = Vec<V>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a tuple") }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<V>, A::Error> {
        let mut v = vec![];
        for s in self.0 {
            match a.next_element_seed(Seed(s))? { Some(x) => v.push(x), None => return Err(de::Error::invalid_length(v.len(), &self)) }
        }
        Ok(v)
    }
}
fn put(m: &mut Vec<(V, V)>, k: V, v: V) {
    if let Some(x) = m.iter_mut().find(|x| x.0 == k) { x.1 = v } else { m.push((k, v)) }
}
struct MapVis<'a>(&'a Sh, &'a Sh);
impl<'de, 'a> Visitor<'de> for MapVis<'a> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a map") }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let mut m = vec![];
        while let Some(k) = a.next_key_seed(Seed(self.0))? { let v = a.next_value_seed(Seed(self.1))?; put(&mut m, k, v); }
        Ok(V::Map(m))
    }
}
struct NameSeed<'a>(&'a [&'static str], bool);
impl<'de, 'a> DeserializeSeed<'de> for NameSeed<'a> {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> { d.deserialize_identifier(self) }
}
impl<'de, 'a> Visitor<'de> for NameSeed<'a> {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("identifier") }
    fn visit_u64<E: de::Error>(self, i: u64) -> Result<Option<usize>, E> { if (i as usize) < self.0.len() { Ok(Some(i as usize)) } else { Err(de::Error::invalid_value(de::Unexpected::Unsigned(i), &self)) } }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Option<usize>, E> {
        match self.0.iter().position(|n| *n == s) { None if self.1 => Err(de::Error::unknown_field(s, &[])), x => Ok(x) }
    }
}
struct RecVis<'a>(&'a Rec);
impl<'de, 'a> Visitor<'de> for RecVis<'a> {
    type Value = Vec<V>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("struct Rec") }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<V>, A::Error> {
        let mut v = vec![];
        for f in &self.0.f {
            match a.next_element_seed(Seed(&f.of))? { Some(x) => v.push(x), None if f.d => v.push(default(&f.of)), None => return Err(de::Error::invalid_length(v.len(), &self)) }
        }
        Ok(v)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Vec<V>, A::Error> {
        let mut got: Vec<Option<V>> = self.0.f.iter().map(|_| None).collect();
        while let Some(k) = a.next_key_seed(NameSeed(self.0.names, self.0.deny))? {
            match k {
                None => { a.next_value::<de::IgnoredAny>()?; }
                Some(i) if got[i].is_some() => return Err(de::Error::duplicate_field(self.0.names[i])),
                Some(i) => got[i] = Some(a.next_value_seed(Seed(&self.0.f[i].of))?),
            }
        }
        got.into_iter().zip(&self.0.f).map(|(g, f)| match g {
            Some(v) => Ok(v),
            None if f.d => Ok(default(&f.of)),
            None if matches!(f.of, Sh::Opt(_)) => Ok(V::None),
            None => Err(de::Error::missing_field(f.name)),
        }).collect()
    }
}
struct EnumVis<'a>(&'a [(&'static str, Payload)], &'static [&'static str]);
impl<'de, 'a> Visitor<'de> for EnumVis<'a> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("enum Enum") }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<V, A::Error> {
        let (i, va) = a.variant_seed(NameSeed(self.1, false))?;
        let Some(i) = i else { return Err(de::Error::unknown_variant("?", self.1)) };
        Ok(V::Var(i, match &self.0[i].1 {
            Payload::None => { va.unit_variant()?; vec![] }
            Payload::One(s) => vec![va.newtype_variant_seed(Seed(s))?],
            Payload::Tup(v) => va.tuple_variant(v.len(), TupVis(v))?,
            Payload::Rec(r) => va.struct_variant(r.names, RecVis(r))?,
        }))
    }
}
struct AnyVis;
impl<'de> Visitor<'de> for AnyVis {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("anything") }
    fn visit_bool<E: de::Error>(self, b: bool) -> Result<V, E> { Ok(V::Bool(b)) }
    fn visit_i64<E: de::Error>(self, i: i64) -> Result<V, E> { Ok(V::int(i as i128)) }
    fn visit_u64<E: de::Error>(self, i: u64) -> Result<V, E> { Ok(V::int(i as i128)) }
    fn visit_i128<E: de::Error>(self, i: i128) -> Result<V, E> { Ok(V::int(i)) }
    fn visit_f64<E: de::Error>(self, f: f64) -> Result<V, E> { Ok(V::F64(f.to_bits())) }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<V, E> { Ok(V::Str(s.into())) }
    fn visit_unit<E: de::Error>(self) -> Result<V, E> { Ok(V::Unit) }
    fn visit_none<E: de::Error>(self) -> Result<V, E> { Ok(V::None) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> { Seed(&Sh::Any).deserialize(d).map(|v| V::Some(Box::new(v))) }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> { Seed(&Sh::Any).deserialize(d).map(|v| V::New(Box::new(v))) }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<V, A::Error> { SeqVis(&Sh::Any).visit_seq(a) }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<V, A::Error> { MapVis(&Sh::Str, &Sh::Any).visit_map(a) }
}
thread_local! { static SHAPE: std::cell::Cell<Option<&'static Sh>> = const { std::cell::Cell::new(None) }; }
/// A value of the type that the thread is told.
struct Read(V);
impl<'de> Deserialize<'de> for Read {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Read, D::Error> { Seed(SHAPE.with(|s| s.get()).unwrap()).deserialize(d).map(Read) }
}

// ---------------------------------------------------------------- writing
struct Write<'a>(&'a Sh, &'a V);
impl<'a> Serialize for Write<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        macro_rules! int { ($t:ty, $n:expr, $a:expr) => { (if $n { ($a as i128).wrapping_neg() as $t } else { $a as $t }).serialize(s) } }
        match (self.0, self.1) {
            (_, V::Bool(b)) => b.serialize(s),
            (Sh::Int(w), V::Int(n, a)) => match *w {
                "i8" => int!(i8, *n, *a), "i16" => int!(i16, *n, *a), "i32" => int!(i32, *n, *a), "i64" => int!(i64, *n, *a), "i128" => int!(i128, *n, *a),
                "u8" => int!(u8, *n, *a), "u16" => int!(u16, *n, *a), "u32" => int!(u32, *n, *a), "u64" => int!(u64, *n, *a), _ => int!(u128, *n, *a),
            },
            (_, V::F64(f)) => f64::from_bits(*f).serialize(s),
            (_, V::F32(f)) => f32::from_bits(*f).serialize(s),
            (Sh::Char, V::Str(x)) => x.chars().next().unwrap().serialize(s),
            (_, V::Str(x)) => x.serialize(s),
            (Sh::Unit(true), _) => s.serialize_unit_struct("U"),
            (_, V::Unit) => s.serialize_unit(),
            (_, V::None) => s.serialize_none(),
            (Sh::Opt(t), V::Some(v)) => s.serialize_some(&Write(t, v)),
            (Sh::New(t), V::New(v)) => s.serialize_newtype_struct("New", &Write(t, v)),
            (Sh::Seq(t), V::Seq(v)) => { let mut q = s.serialize_seq(Some(v.len()))?; for x in v { q.serialize_element(&Write(t, x))?; } q.end() }
            (Sh::Tup(t, false), V::Seq(v)) => { let mut q = s.serialize_tuple(v.len())?; for (t, x) in t.iter().zip(v) { q.serialize_element(&Write(t, x))?; } q.end() }
            (Sh::Tup(t, true), V::Seq(v)) => { let mut q = s.serialize_tuple_struct("Tup", v.len())?; for (t, x) in t.iter().zip(v) { q.serialize_field(&Write(t, x))?; } q.end() }
            (Sh::Map(k, t), V::Map(m)) => { let mut q = s.serialize_map(Some(m.len()))?; for (x, y) in m { q.serialize_key(&Write(k, x))?; q.serialize_value(&Write(t, y))?; } q.end() }
            (Sh::Rec(r), V::Rec(v)) => { let mut q = s.serialize_struct("Rec", v.len())?; for (f, x) in r.f.iter().zip(v) { q.serialize_field(f.name, &Write(&f.of, x))?; } q.end() }
            (Sh::Enum(vs, _), V::Var(i, v)) => {
                let (n, ix) = (vs[*i].0, *i as u32);
                match &vs[*i].1 {
                    Payload::None => s.serialize_unit_variant("Enum", ix, n),
                    Payload::One(t) => s.serialize_newtype_variant("Enum", ix, n, &Write(t, &v[0])),
                    Payload::Tup(t) => { let mut q = s.serialize_tuple_variant("Enum", ix, n, v.len())?; for (t, x) in t.iter().zip(v) { q.serialize_field(&Write(t, x))?; } q.end() }
                    Payload::Rec(r) => { let mut q = s.serialize_struct_variant("Enum", ix, n, v.len())?; for (f, x) in r.f.iter().zip(v) { q.serialize_field(f.name, &Write(&f.of, x))?; } q.end() }
                }
            }
            (s, v) => Err(ser::Error::custom(format!("{s:?} {v:?}"))),
        }
    }
}

// ---------------------------------------------------------------- records
fn val(v: &KdlValue) -> Value {
    match v {
        KdlValue::Integer(i) => json!({"t": "i", "n": (*i < 0) as u8, "d": i.unsigned_abs().to_string().bytes().map(|c| c - 48).collect::<Vec<_>>(), "b": bits64(*i as f64), "s": bits32(*i as f32)}),
        KdlValue::Float(f) => json!({"t": "f", "b": bits64(*f), "s": bits32(*f as f32)}),
        KdlValue::String(s) => json!({"t": "s", "s": cps(s)}),
        KdlValue::Bool(b) => json!({"t": "b", "b": *b as u8}),
        KdlValue::Null => json!({"t": "z"}),
    }
}
fn content(d: &KdlDocument) -> Value {
    Value::Array(d.nodes().iter().map(|n| json!({
        "y": opt_id(n.ty()), "m": cps(n.name().value()),
        "e": n.entries().iter().map(|e| json!({"k": opt_id(e.name()), "y": opt_id(e.ty()), "v": val(e.value())})).collect::<Vec<_>>(),
        "c": match n.children() { None => json!([]), Some(c) => json!([content(c)]) },
    })).collect())
}
fn text(m: &str, x: &str) -> Value { json!({"m": m, "x": cps(x)}) }

pub fn rec_de_with(sh: &Sh, name: &str, t: &str, fixed: bool, f: impl Fn(&str) -> Result<V, kdl::de::Error>) -> Value {
    let doc = catch(|| t.parse::<KdlDocument>().ok()).ok().flatten();
    let mut r = json!({"k": "de", "d": format!("de {name} from {t:?}"), "t": [text("skip", t)], "sh": sh.json(), "taken": doc.is_some() as u8,
        "doc": doc.as_ref().map(content).unwrap_or(json!([])), "ok": 2, "v": [], "err": [], "bytes": t.len(), "fixed": fixed as u8});
    match catch(|| f(t)) {
        Err((at, m)) => { r["at"] = json!(at); r["msg"] = json!(m); }
        Ok(Err(e)) => { r["ok"] = json!(0); if let Some(s) = e.span() { r["err"] = json!([s.offset(), s.len()]); } r["msg"] = json!(e.to_string()); }
        Ok(Ok(v)) => { r["ok"] = json!(1); r["v"] = json!([v.json()]); }
    }
    r
}
pub fn rec_de(sh: &'static Sh, t: &str, fixed: bool) -> Value {
    SHAPE.with(|s| s.set(Some(sh)));
    rec_de_with(sh, &sh.text(), t, fixed, |t| kdl::de::from_str::<Read>(t).map(|r| r.0))
}
pub fn rec_ser_with(sh: &Sh, name: &str, v: &V, fixed: bool, to: impl Fn() -> Result<(String, bool), kdl::se::Error>, back: impl Fn(&str) -> Option<V>) -> Value {
    let mut r = json!({"k": "ser", "d": format!("ser {name} of {}", v.text()), "t": [text("skip", "")], "sh": sh.json(), "v": v.json(), "ok": 2, "back": [], "same": 1, "fixed": fixed as u8});
    match catch(|| to().map(|(t, same)| { let b = back(&t); (t, same, b) })) {
        Err((at, m)) => { r["at"] = json!(at); r["msg"] = json!(m); }
        Ok(Err(e)) => { r["ok"] = json!(0); r["msg"] = json!(e.to_string()); }
        Ok(Ok((t, same, b))) => { r["ok"] = json!(1); r["t"] = json!([text("doc", &t)]); r["same"] = json!(same as u8); if let Some(b) = b { r["back"] = json!([b.json()]); } }
    }
    r
}
pub fn rec_ser(sh: &'static Sh, v: &V, fixed: bool) -> Value {
    SHAPE.with(|s| s.set(Some(sh)));
    let to = || { let t = kdl::se::to_string(&Write(sh, v))?; let same = kdl::se::to_document(&Write(sh, v))?.to_string() == t; Ok((t, same)) };
    rec_ser_with(sh, &sh.text(), v, fixed, to, |t| kdl::de::from_str::<Read>(t).ok().map(|r| r.0))
}

// ---------------------------------------------------------------- derived types
trait Derived: Serialize + for<'a> Deserialize<'a> { fn sh() -> Sh; fn v(&self) -> V; }
impl Derived for bool { fn sh() -> Sh { Sh::Bool } fn v(&self) -> V { V::Bool(*self) } }
impl Derived for i64 { fn sh() -> Sh { Sh::Int("i64") } fn v(&self) -> V { V::int(*self as i128) } }
impl Derived for u8 { fn sh() -> Sh { Sh::Int("u8") } fn v(&self) -> V { V::int(*self as i128) } }
impl Derived for f64 { fn sh() -> Sh { Sh::Flt(64) } fn v(&self) -> V { V::F64(self.to_bits()) } }
impl Derived for String { fn sh() -> Sh { Sh::Str } fn v(&self) -> V { V::Str(self.clone()) } }
impl<T: Derived> Derived for Option<T> { fn sh() -> Sh { Sh::Opt(Box::new(T::sh())) } fn v(&self) -> V { match self { None => V::None, Some(x) => V::Some(Box::new(x.v())) } } }
impl<T: Derived> Derived for Vec<T> { fn sh() -> Sh { Sh::Seq(Box::new(T::sh())) } fn v(&self) -> V { V::Seq(self.iter().map(|x| x.v()).collect()) } }
impl<T: Derived, U: Derived> Derived for (T, U) { fn sh() -> Sh { Sh::Tup(vec![T::sh(), U::sh()], false) } fn v(&self) -> V { V::Seq(vec![self.0.v(), self.1.v()]) } }
macro_rules! derived {
    ($n:ident { $($r:literal $f:ident : $t:ty),* $(,)? }) => {
        #[derive(::serde::Serialize, ::serde::Deserialize)]
        struct $n { $(#[serde(rename = $r)] $f: $t),* }
        impl Derived for $n {
            fn sh() -> Sh { Sh::rec(vec![$(($r, <$t>::sh(), false)),*], false) }
            fn v(&self) -> V { V::Rec(vec![$(self.$f.v()),*]) }
        }
    };
}
derived!(Inner { "#0" x: String, "#rest" rest: Vec<i64>, "#@p" p: Option<bool>, "#@a" q: Option<f64>, "a" a: bool, "b" b: Option<Kind> });
derived!(Typed { "#type" t: Option<String>, "#name" n: String, "#args" args: Vec<Option<i64>>, "#0#type" t0: Option<Kind>, "#@p" p: Option<String>, "#@p#type" pt: Option<Wrap> });
derived!(Outer { "a" a: Inner, "b" b: Vec<Typed>, "c" c: Option<(u8, String)>, "x y" d: Wrap, "e" e: Kind, "f" f: Option<Vec<u8>> });
derived!(Flags { "a" a: Option<bool>, "b" b: bool, "c" c: Vec<bool>, "d" d: Wrap });
#[derive(::serde::Serialize, ::serde::Deserialize)]
struct Wrap(String);
impl Derived for Wrap { fn sh() -> Sh { Sh::New(Box::new(Sh::Str)) } fn v(&self) -> V { V::New(Box::new(self.0.v())) } }
#[derive(::serde::Serialize, ::serde::Deserialize)]
enum Kind { A, B(i64), #[serde(rename = "c")] C(u8, Option<String>), D { #[serde(rename = "#0")] x: Option<i64>, a: bool, b: Option<String> } }
impl Derived for Kind {
    fn sh() -> Sh {
        let Sh::Rec(d) = Sh::rec(vec![("#0", Option::<i64>::sh(), false), ("a", Sh::Bool, false), ("b", Option::<String>::sh(), false)], false) else { unreachable!() };
        Sh::enm(vec![("A", Payload::None), ("B", Payload::One(i64::sh())), ("c", Payload::Tup(vec![u8::sh(), Option::<String>::sh()])), ("D", Payload::Rec(d))])
    }
    fn v(&self) -> V {
        match self { Kind::A => V::Var(0, vec![]), Kind::B(i) => V::Var(1, vec![i.v()]), Kind::C(a, b) => V::Var(2, vec![a.v(), b.v()]), Kind::D { x, a, b } => V::Var(3, vec![x.v(), a.v(), b.v()]) }
    }
}
fn derived<T: Derived>(name: &str, g: &mut Gen) -> Vec<Value> {
    let sh = T::sh();
    let t = g.document(&sh);
    let mut out = vec![rec_de_with(&sh, name, &t, false, |t| kdl::de::from_str::<T>(t).map(|x| x.v()))];
    if let Ok(Ok(x)) = catch(|| kdl::de::from_str::<T>(&t)) {
        out.push(rec_ser_with(&sh, name, &x.v(), false, || { let t = kdl::se::to_string(&x)?; let same = kdl::se::to_document(&x)?.to_string() == t; Ok((t, same)) }, |t| kdl::de::from_str::<T>(t).ok().map(|x| x.v())));
    }
    out
}

// ---------------------------------------------------------------- generation
#[derive(Clone)]
struct GEntry { name: Option<String>, ty: Option<String>, val: String }
#[derive(Clone)]
struct GNode { name: String, ty: Option<String>, e: Vec<GEntry>, c: Option<Vec<GNode>> }
fn quote(s: &str) -> String {
    let plain = !s.is_empty() && s.chars().all(|c| c.is_alphabetic()) && !["true", "false", "null", "inf", "nan"].contains(&s);
    if plain { return s.into(); }
    format!("\"{}\"", s.chars().map(|c| match c { '"' => "\\\"".into(), '\\' => "\\\\".into(), c if (c as u32) < 32 || c as u32 == 127 => format!("\\u{{{:x}}}", c as u32), c => c.to_string() }).collect::<String>())
}
fn ty(t: &Option<String>) -> String { t.as_ref().map(|t| format!("({})", quote(t))).unwrap_or_default() }
fn print(ns: &[GNode], sep: &str) -> String {
    ns.iter().map(|n| {
        let mut s = format!("{}{}", ty(&n.ty), quote(&n.name));
        for e in &n.e { s += " "; if let Some(k) = &e.name { s += &quote(k); s += "="; } s += &ty(&e.ty); s += &e.val; }
        if let Some(c) = &n.c { s += &format!(" {{{}{}}}", if sep == "\n" { sep } else { " " }, print(c, sep)); }
        s + sep
    }).collect()
}
fn arg(v: String) -> GEntry { GEntry { name: None, ty: None, val: v } }
fn prop(k: &str, v: String) -> GEntry { GEntry { name: Some(k.into()), ty: None, val: v } }
fn node(n: &str) -> GNode { GNode { name: n.into(), ty: None, e: vec![], c: None } }

const NAMES: [&str; 11] = ["a", "b", "c", "d", "é", "-", "1", "x y", "true", "", "é\u{301}"];
const HASHES: [&str; 14] = ["#0", "#1", "#2", "#args", "#rest", "#@p", "#@q", "#@a", "#type", "#name", "#0#type", "#1#type", "#@p#type", "#@q#type"];
const VARIANTS: [&str; 6] = ["A", "B", "c", "a", "x y", "-"];
const STRS: [&str; 22] = ["", "a", "b", "A", "B", "c", "é", "x y", "true", "false", "1", "+1", "-0", "007", "256", "-129", "-", "null", "\u{1F600}", "a\"b\\\n\t", "#0", "Z\u{0}"];
const INTS: [i128; 30] = [0, 1, 2, -1, 7, 127, 128, -128, -129, 255, 256, 32767, 32768, -32769, 65535, 65536, 2147483647, 2147483648, -2147483649, 4294967295, 4294967296, 16777217, 9007199254740993,
    i64::MAX as i128, i64::MAX as i128 + 1, i64::MIN as i128, i64::MIN as i128 - 1, u64::MAX as i128, u64::MAX as i128 + 1, i128::MIN];
const FLTS: [f64; 16] = [0.0, -0.0, 1.5, -2.25, 0.1, 1e300, 1e-40, 1e-320, 3.4028235e38, 3.5e38, 16777217.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e15, 123456789.125];
const KINDS: usize = 14;

pub struct Gen { r: Rng, ser: bool, room: bool }
impl Gen {
    fn scalar(&mut self) -> Sh {
        match self.r.below(9) {
            0 | 1 => Sh::Bool,
            2 | 3 => { let n = self.r.below(10); let w = WIDTHS[n]; if self.ser && w.ends_with("128") { Sh::Int("i64") } else { Sh::Int(w) } }
            4 => Sh::Flt(if self.r.chance(60) { 64 } else { 32 }),
            5 => Sh::Char,
            _ => Sh::Str,
        }
    }
    fn key(&mut self) -> Sh {
        match self.r.below(10) {
            0 => self.r.pick(&[Sh::Int("i8"), Sh::Int("u8"), Sh::Int("i64"), Sh::Int("u64")]).clone(),
            1 => Sh::Bool,
            2 => Sh::Char,
            3 => Sh::New(Box::new(Sh::Str)),
            4 => self.units(),
            5 => Sh::Opt(Box::new(Sh::Str)),
            _ => Sh::Str,
        }
    }
    fn units(&mut self) -> Sh { let n = self.r.range(1, 3); Sh::enm(VARIANTS[..n].iter().map(|v| (*v, Payload::None)).collect()) }
    fn shape(&mut self, depth: usize) -> Sh {
        if depth == 0 { return match self.r.below(10) { 0 => Sh::Opt(Box::new(self.scalar())), 1 => Sh::Unit(self.r.chance(50)), 2 => self.units(), 3 => Sh::New(Box::new(self.scalar())), 4 if !self.ser => Sh::Any, _ => self.scalar() }; }
        match self.r.below(KINDS) {
            0 => self.scalar(),
            1 | 2 => Sh::Opt(Box::new(self.shape(depth - 1))),
            3 => Sh::New(Box::new(self.shape(depth - 1))),
            4 | 5 => Sh::Seq(Box::new(self.shape(depth - 1))),
            6 => { let n = self.r.range(1, 3); Sh::Tup((0..n).map(|_| self.shape(depth - 1)).collect(), self.r.chance(50)) }
            7 => { let k = self.key(); Sh::Map(Box::new(k), Box::new(self.shape(depth - 1))) }
            8 | 9 => self.enumeration(depth),
            10 => self.shape(0),
            _ => Sh::Rec(self.record(depth, 60)),
        }
    }
    fn enumeration(&mut self, depth: usize) -> Sh {
        let n = self.r.range(1, 4);
        let mut names: Vec<&str> = VARIANTS[..if self.ser { 5 } else { 6 }].to_vec();
        let v = (0..n).map(|_| {
            let i = self.r.below(names.len());
            (names.remove(i), match self.r.below(5) {
                0 | 1 => Payload::None,
                2 => Payload::One(self.shape(depth - 1)),
                3 => { let k = self.r.range(2, 3); Payload::Tup((0..k).map(|_| self.shape(depth - 1)).collect()) }
                _ => { let mut r = self.record(depth, 50); r.deny = false; Payload::Rec(r) }
            })
        }).collect();
        Sh::enm(v)
    }
    /// What a # field can be.
    fn hash_type(&mut self, name: &str, common: &Sh) -> Sh {
        let s = if name.ends_with("#type") || name == "#name" { self.r.pick(&[Sh::Str, Sh::Opt(Box::new(Sh::Str)), Sh::Opt(Box::new(Sh::New(Box::new(Sh::Str)))), Sh::New(Box::new(Sh::Str))]).clone() }
            else if name == "#args" || name == "#rest" {
                let of = if self.r.chance(70) { common.clone() } else { self.shape(0) };
                match self.r.below(6) { 0 => Sh::Opt(Box::new(Sh::Seq(Box::new(of)))), 1 => Sh::New(Box::new(Sh::Seq(Box::new(of)))), 2 => Sh::Tup(vec![of.clone(), of], false), _ => Sh::Seq(Box::new(of)) }
            } else if self.r.chance(50) { common.clone() } else if self.r.chance(30) { Sh::Opt(Box::new(common.clone())) } else {
                // a unit is not told from there being no argument, when #args has them all
                loop { let s = self.shape(0); if !(self.ser && matches!(s, Sh::Unit(_))) { break s; } }
            };
        if !self.ser && self.r.chance(5) { self.shape(1) } else if name.ends_with("#type") && self.r.chance(20) { self.units() } else { s }
    }
    fn record(&mut self, depth: usize, hashes: usize) -> Rec {
        let mut f: Vec<Field> = vec![];
        let common = if self.r.chance(50) { Sh::Opt(Box::new(self.scalar())) } else { self.scalar() };
        if self.r.chance(hashes) {
            let p = *self.r.pick(&[15, 30, 50]);
            for h in HASHES {
                if self.r.chance(p) { let of = self.hash_type(h, &common); f.push(Field { name: h, of, d: false }); }
            }
        }
        let n = *self.r.pick(&[0, 1, 1, 2, 2, 3, 4]);
        let few = self.r.chance(70);
        for _ in 0..n {
            let name = NAMES[self.r.below(if few { 4 } else { NAMES.len() })];
            if f.iter().any(|x| x.name == name) { continue; }
            let of = self.shape(depth - 1);
            let simple = matches!(of, Sh::Bool | Sh::Int(_) | Sh::Flt(_) | Sh::Char | Sh::Str | Sh::Opt(_) | Sh::Seq(_) | Sh::Map(..));
            let d = simple && self.r.chance(20);
            f.push(Field { name, of, d });
        }
        for i in (1..f.len()).rev() { let j = self.r.below(i + 1); f.swap(i, j); }
        Rec::new(f, self.r.chance(15))
    }
    pub fn root(&mut self) -> Sh {
        let depth = *self.r.pick(&[1, 2, 2, 3]);
        match self.r.below(20) {
            0 => { let k = self.key(); Sh::Map(Box::new(k), Box::new(self.shape(depth))) }
            1 => Sh::Seq(Box::new(self.shape(depth))),
            2 => { let n = self.r.range(1, 3); Sh::Tup((0..n).map(|_| self.shape(depth)).collect(), self.r.chance(50)) }
            3 | 4 => self.enumeration(depth + 1),
            5 => Sh::New(Box::new(Sh::Rec(self.record(depth + 1, 0)))),
            6 if !self.ser => Sh::Opt(Box::new(Sh::Rec(self.record(depth + 1, 0)))),
            7 if !self.ser => self.shape(depth),
            8 if !self.ser => Sh::Any,
            _ => { let mut r = self.record(depth + 1, if self.ser { 0 } else { 5 }); if !self.ser || self.r.chance(50) { return Sh::Rec(r); }
                   // fields that are always written
                   for f in &mut r.f { if matches!(f.of, Sh::Bool) { f.of = Sh::Int("u8"); } }
                   Sh::Rec(Rec::new(r.f, r.deny)) }
        }
    }

    // ---- values of a type
    fn int_of(&mut self, w: &str) -> V {
        let (lo, hi): (i128, u128) = match w { "i8" => (i8::MIN as i128, i8::MAX as u128), "i16" => (i16::MIN as i128, i16::MAX as u128), "i32" => (i32::MIN as i128, i32::MAX as u128), "i64" => (i64::MIN as i128, i64::MAX as u128), "i128" => (i128::MIN, i128::MAX as u128),
            "u8" => (0, u8::MAX as u128), "u16" => (0, u16::MAX as u128), "u32" => (0, u32::MAX as u128), "u64" => (0, u64::MAX as u128), _ => (0, u128::MAX) };
        loop { let i = if self.r.chance(80) { *self.r.pick(&INTS) } else { let a = ((self.r.next() as u128) << 64 | self.r.next() as u128) as i128; a >> self.r.range(60, 126) }; if i >= lo && (i < 0 || i as u128 <= hi) { return V::int(i); } }
    }
    /// how many; a lot once, not at each level
    fn size(&mut self, few: usize) -> usize { if self.room && self.r.chance(4) { self.room = false; self.r.range(4, 24) } else { self.r.below(few + 1) } }
    fn text(&mut self) -> String { let s = self.r.pick(&STRS).to_string(); if self.r.chance(2) { let n = self.r.range(10, 200); let mut t: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect(); t.push_str(&s); t } else { s } }
    fn key_of(&mut self, sh: &Sh) -> V { match sh { Sh::Str => { let v = if self.r.chance(50) { &NAMES[..] } else { &STRS[..] }; V::Str(self.r.pick(v).to_string()) }, Sh::Opt(s) => V::Some(Box::new(self.key_of(s))), _ => self.value(sh, "") } }
    fn value(&mut self, sh: &Sh, name: &str) -> V {
        match sh {
            Sh::Bool => V::Bool(self.r.chance(50)),
            Sh::Int(w) => self.int_of(w),
            Sh::Flt(64) => V::F64(self.r.pick(&FLTS).to_bits()),
            Sh::Flt(_) => V::F32((*self.r.pick(&FLTS) as f32).to_bits()),
            Sh::Char => V::Str(self.r.pick(&['a', 'A', '1', ' ', 'é', '\u{1F600}', '\u{0}', '"', '-', '\n']).to_string()),
            Sh::Str => V::Str(self.text()),
            Sh::Unit(_) | Sh::Any => V::Unit,
            Sh::Opt(s) => if self.r.chance(40) { V::None } else { V::Some(Box::new(self.value(s, name))) },
            Sh::New(s) => V::New(Box::new(self.value(s, name))),
            Sh::Seq(s) => { let n = self.size(3); V::Seq((0..n).map(|_| self.value(s, "-")).collect()) }
            Sh::Tup(v, _) => V::Seq(v.iter().map(|s| self.value(s, "-")).collect()),
            Sh::Map(k, s) => { let n = self.size(3); let mut m = vec![]; for _ in 0..n { let x = self.key_of(k); let nm = if let V::Str(s) = &x { s.clone() } else { "-".into() }; let y = self.value(s, &nm); put(&mut m, x, y); } V::Map(m) }
            Sh::Rec(r) => V::Rec(self.fields(r, name)),
            Sh::Enum(v, _) => { let i = self.r.below(v.len()); let n = v[i].0; V::Var(i, match &v[i].1 { Payload::None => vec![], Payload::One(s) => vec![self.value(s, n)], Payload::Tup(v) => v.iter().map(|s| self.value(s, "-")).collect(), Payload::Rec(r) => self.fields(r, n) }) }
        }
    }
    fn fields(&mut self, r: &Rec, name: &str) -> Vec<V> {
        let mut out: Vec<V> = r.f.iter().map(|f| self.value(&f.of, f.name)).collect();
        let at = |n: &str| r.f.iter().position(|f| f.name == n);
        fn set(v: &mut V, x: &V) { match v { V::Some(v) | V::New(v) => set(v, x), V::None => {}, v => *v = x.clone() } }
        if let Some(i) = at("#name") { if self.r.chance(90) { set(&mut out[i], &V::Str(name.into())); } }
        if self.r.chance(70) {
            if let Some(i) = at("#args") {
                fn seq(v: &V) -> Vec<V> { match v { V::Some(v) | V::New(v) => seq(v), V::Seq(q) => q.clone(), _ => vec![] } }
                let q = seq(&out[i]);
                let mut rest = vec![];
                for (j, x) in q.iter().enumerate() {
                    match at(&format!("#{j}")) { Some(k) if format!("{:?}", r.f[k].of) == elem(&r.f[i].of) => out[k] = x.clone(), Some(_) => {}, None => rest.push(x.clone()) }
                }
                for j in q.len()..3 { if let Some(k) = at(&format!("#{j}")) { if matches!(r.f[k].of, Sh::Opt(_)) { out[k] = V::None; } } }
                if let Some(k) = at("#rest") { if elem(&r.f[k].of) == elem(&r.f[i].of) && !(matches!(r.f[k].of, Sh::Tup(..)) && seq(&out[k]).len() != rest.len()) { set(&mut out[k], &V::Seq(rest)); } }
            } else {
                // no gaps
                let (has0, has1) = (at("#0").is_some(), at("#1").is_some());
                let need = if at("#2").is_some() { 2 - has0 as usize - has1 as usize } else if has1 { 1 - has0 as usize } else { 0 };
                if let Some(k) = at("#rest") { if let Sh::Seq(s) = &r.f[k].of { let n = need + self.r.below(2); out[k] = V::Seq((0..n).map(|_| self.value(s, "-")).collect()); } }
            }
        }
        out
    }

    // ---- documents that fit a type, more or less
    fn word(&mut self) -> String { match self.r.below(8) { 0 | 1 => self.r.pick(&VARIANTS).to_string(), 2 => self.r.pick(&NAMES).to_string(), _ => self.r.pick(&STRS).to_string() } }
    fn any_val(&mut self) -> String {
        match self.r.below(8) {
            0 | 1 => { let w = self.word(); quote(&w) }
            2 | 3 => self.r.pick(&INTS).to_string(),
            4 => flt(*self.r.pick(&FLTS)),
            5 => "#true".into(), 6 => "#false".into(), _ => "#null".into(),
        }
    }
    fn val(&mut self, sh: &Sh) -> String {
        if self.r.chance(4) { return self.any_val(); }
        match sh {
            Sh::Bool => self.r.pick(&["#true", "#false"]).to_string(),
            Sh::Int(w) => if self.r.chance(15) { self.r.pick(&INTS).to_string() } else { self.int_of(w).text() },
            Sh::Flt(_) => if self.r.chance(30) { self.r.pick(&INTS).to_string() } else { flt(*self.r.pick(&FLTS)) },
            Sh::Char => { let c = self.r.pick(&["a", "é", "\u{1F600}", "ab", "", "\n"]).to_string(); quote(&c) }
            Sh::Str => { let w = self.word(); quote(&w) }
            Sh::Unit(_) => "#null".into(),
            Sh::Opt(s) => if self.r.chance(30) { "#null".into() } else { self.val(s) },
            Sh::New(s) => self.val(s),
            Sh::Enum(v, _) => quote(v[self.r.below(v.len())].0),
            _ => self.any_val(),
        }
    }
    fn key_text(&mut self, sh: &Sh) -> String {
        match sh {
            Sh::Int(w) => match self.r.below(6) { 0 => self.r.pick(&["+1", "-0", "007", "256", "-129", "", "-", "+", "--1", "1_0", "0x1", "-1", "99999999999999999999"]).to_string(), _ => self.int_of(w).text() },
            Sh::Bool => self.r.pick(&["true", "false", "True", "#true"]).to_string(),
            Sh::Enum(v, _) => v[self.r.below(v.len())].0.to_string(),
            Sh::Opt(s) | Sh::New(s) => self.key_text(s),
            Sh::Char => self.r.pick(&["a", "é", "ab", ""]).to_string(),
            _ => self.r.pick(&NAMES).to_string(),
        }
    }
    fn scalarish(sh: &Sh) -> bool { match sh { Sh::Bool | Sh::Int(_) | Sh::Flt(_) | Sh::Char | Sh::Str | Sh::Unit(_) => true, Sh::Opt(s) | Sh::New(s) => Gen::scalarish(s), Sh::Enum(v, _) => v.iter().any(|v| matches!(v.1, Payload::None)), Sh::Any => true, _ => false } }
    /// Nodes named so that hold a value.
    fn nodes(&mut self, name: &str, sh: &Sh) -> Vec<GNode> {
        match sh {
            Sh::Bool => match self.r.below(4) { 0 => vec![], 1 => vec![node(name)], _ => vec![GNode { e: vec![arg(self.val(sh))], ..node(name) }] },
            Sh::Opt(s) => match self.r.below(6) { 0 => vec![], 1 => vec![node(name)], 2 => vec![GNode { e: vec![arg("#null".into())], ..node(name) }], _ => self.nodes(name, s) },
            Sh::New(s) => self.nodes(name, s),
            Sh::Seq(s) if self.r.chance(35) => { let n = self.size(3); (0..n).flat_map(|_| { let mut v = self.nodes(name, s); v.truncate(1); v }).collect() }
            Sh::Tup(v, _) if self.r.chance(15) => v.iter().flat_map(|s| { let mut v = self.nodes(name, s); v.truncate(1); v }).collect(),
            _ => { let mut n = node(name); self.fill(&mut n, sh); vec![n] }
        }
    }
    fn items(&mut self, n: &mut GNode, shs: Vec<&Sh>) {
        if shs.iter().all(|s| Gen::scalarish(s)) && self.r.chance(75) {
            for s in shs { let v = self.val(s); n.e.push(arg(v)); }
            if self.r.chance(6) { n.c = Some(vec![]); }
        } else {
            let nm = if self.r.chance(80) { "-" } else { "a" };
            n.c = Some(shs.into_iter().flat_map(|s| { let mut v = self.nodes(nm, s); v.truncate(1); v }).collect());
        }
    }
    fn fill(&mut self, n: &mut GNode, sh: &Sh) {
        match sh {
            Sh::Opt(s) | Sh::New(s) => self.fill(n, s),
            Sh::Seq(s) => { let k = *self.r.pick(&[0, 1, 2, 3]); self.items(n, (0..k).map(|_| &**s).collect()); }
            Sh::Tup(v, _) => self.items(n, v.iter().collect()),
            Sh::Map(k, s) => {
                for _ in 0..*self.r.pick(&[0, 1, 2, 3]) {
                    let name = self.key_text(k);
                    if Gen::scalarish(s) && self.r.chance(40) { let v = self.val(s); n.e.push(prop(&name, v)); } else { let c = self.nodes(&name, s); n.c.get_or_insert_with(Vec::new).extend(c); }
                }
            }
            Sh::Rec(r) => self.fill_rec(n, r),
            Sh::Enum(v, _) => {
                let (name, p) = &v[self.r.below(v.len())];
                match p {
                    Payload::None if self.r.chance(70) => n.e.push(arg(quote(name))),
                    Payload::One(s) if Gen::scalarish(s) && self.r.chance(30) => { let v = self.val(s); n.e.push(prop(name, v)); }
                    p => {
                        let mut c = node(name);
                        self.fill_payload(&mut c, p);
                        if let Payload::Rec(_) = p { if self.r.chance(50) { n.e = std::mem::take(&mut c.e); n.ty = c.ty.take(); } }
                        n.c = Some(vec![c]);
                    }
                }
            }
            Sh::Any => { self.junk(n, 1); }
            s => { let v = self.val(s); n.e.push(arg(v)); }
        }
    }
    fn fill_payload(&mut self, n: &mut GNode, p: &Payload) {
        match p { Payload::None => {}, Payload::One(s) => self.fill(n, s), Payload::Tup(v) => self.items(n, v.iter().collect()), Payload::Rec(r) => self.fill_rec(n, r) }
    }
    fn fill_rec(&mut self, n: &mut GNode, r: &Rec) {
        let get = |x: &str| r.f.iter().find(|f| f.name == x);
        let mut args: Vec<GEntry> = vec![];
        for i in 0..3 { if let Some(f) = get(&format!("#{i}")) { if self.r.chance(90) { while args.len() < i { let v = self.any_val(); args.push(arg(v)); } let v = self.val(&f.of); if args.len() == i { args.push(arg(v)); } } } }
        for x in ["#rest", "#args"] {
            if let Some(f) = get(x) {
                let mut shs: Vec<&Sh> = vec![];
                fn inner<'b>(s: &'b Sh, r: &mut Rng, out: &mut Vec<&'b Sh>) { match s { Sh::Opt(s) | Sh::New(s) => inner(s, r, out), Sh::Seq(s) => { for _ in 0..r.few(3, 20) { out.push(s); } } Sh::Tup(v, _) => out.extend(v.iter()), _ => {} } }
                inner(&f.of, &mut self.r, &mut shs);
                if args.is_empty() || x == "#rest" { for s in shs { let v = self.val(s); args.push(arg(v)); } }
            }
        }
        let types = r.f.iter().any(|f| f.name.ends_with("#type")) || self.r.chance(10);
        if types { for a in args.iter_mut() { if self.r.chance(60) { a.ty = Some(self.word()); } } if self.r.chance(60) { n.ty = Some(self.word()); } }
        n.e.extend(args);
        for f in &r.f {
            if let Some(p) = f.name.strip_prefix("#@") {
                if p.ends_with("#type") { continue; }
                if self.r.chance(85) { let v = self.val(&f.of); let mut e = prop(p, v); if types && self.r.chance(60) { e.ty = Some(self.word()); } n.e.push(e); }
            } else if !f.name.starts_with('#') {
                if self.r.chance(if f.d { 60 } else { 93 }) {
                    if Gen::scalarish(&f.of) && self.r.chance(40) { let v = self.val(&f.of); n.e.push(prop(f.name, v)); }
                    else { let c = self.nodes(f.name, &f.of); n.c.get_or_insert_with(Vec::new).extend(c); }
                }
            }
        }
        if let Some(c) = &mut n.c { for i in (1..c.len()).rev() { let j = self.r.below(i + 1); c.swap(i, j); } }
        if self.r.chance(30) { for i in (1..n.e.len()).rev() { if n.e[i].name.is_some() && n.e[i - 1].name.is_none() && self.r.chance(50) { n.e.swap(i, i - 1); } } }
    }
    fn junk(&mut self, n: &mut GNode, depth: usize) {
        for _ in 0..*self.r.pick(&[0, 0, 1, 1, 2]) { let v = self.any_val(); n.e.push(if self.r.chance(30) { prop(NAMES[self.r.below(5)], v) } else { arg(v) }); }
        if depth > 0 && self.r.chance(30) { n.c = Some(vec![]); for _ in 0..self.r.below(3) { let mut c = node(NAMES[self.r.below(6)]); self.junk(&mut c, depth - 1); n.c.as_mut().unwrap().push(c); } }
    }
    fn root_nodes(&mut self, sh: &Sh) -> Vec<GNode> {
        match sh {
            Sh::Opt(s) | Sh::New(s) => self.root_nodes(s),
            Sh::Rec(r) => { let mut out: Vec<GNode> = vec![]; for f in &r.f { if self.r.chance(if f.d { 60 } else { 94 }) { let v = self.nodes(f.name, &f.of); out.extend(v); } } for i in (1..out.len()).rev() { let j = self.r.below(i + 1); out.swap(i, j); } out }
            Sh::Map(k, s) => (0..*self.r.pick(&[0, 1, 2, 3])).flat_map(|_| { let x = self.key_text(k); self.nodes(&x, s) }).collect(),
            Sh::Seq(s) => (0..*self.r.pick(&[0, 1, 2, 3])).flat_map(|_| { let mut v = self.nodes("-", s); v.truncate(1); v }).collect(),
            Sh::Tup(v, _) => v.iter().flat_map(|s| { let mut v = self.nodes("-", s); v.truncate(1); v }).collect(),
            Sh::Enum(v, _) => { let i = self.r.below(v.len()); if self.r.chance(25) { let mut n = node("-"); self.fill(&mut n, sh); vec![n] } else { let mut n = node(v[i].0); self.fill_payload(&mut n, &v[i].1); vec![n] } }
            _ => (0..self.r.below(3)).map(|_| { let mut n = node(NAMES[self.r.below(6)]); self.junk(&mut n, 2); n }).collect(),
        }
    }
    fn mutate(&mut self, ns: &mut Vec<GNode>) {
        if ns.is_empty() || self.r.chance(8) { let mut n = node(NAMES[self.r.below(6)]); self.junk(&mut n, 1); let i = self.r.below(ns.len() + 1); ns.insert(i, n); return; }
        let i = self.r.below(ns.len());
        if ns[i].c.is_some() && self.r.chance(50) { self.mutate(ns[i].c.as_mut().unwrap()); return; }
        let v = self.any_val();
        let k = NAMES[self.r.below(5)];
        let w = self.word();
        let n = &mut ns[i];
        match self.r.below(13) {
            0 => { ns.remove(i); }
            1 => { let n = n.clone(); ns.push(n); }
            2 => n.name = k.into(),
            3 => if n.c.is_none() { n.c = Some(vec![]) } else { n.c = None },
            4 => n.e.push(arg(v)),
            5 => n.e.push(prop(k, v)),
            6 => { if !n.e.is_empty() { let j = self.r.below(n.e.len()); n.e[j].val = v; } }
            7 => { if !n.e.is_empty() { let j = self.r.below(n.e.len()); n.e.remove(j); } }
            8 => { if !n.e.is_empty() { let j = self.r.below(n.e.len()); n.e[j].ty = Some(w); } }
            9 => n.ty = if n.ty.is_some() { None } else { Some(w) },
            10 => { if !n.e.is_empty() { let j = self.r.below(n.e.len()); if let Some(nm) = n.e[j].name.clone() { n.e.push(prop(&nm, v)); } else { n.e[j].name = Some(k.into()); } } }
            11 => { if let Some(e) = n.e.iter().find(|e| e.name.is_some()).cloned() { let c = GNode { e: vec![arg(e.val)], ..node(e.name.as_ref().unwrap()) }; n.c.get_or_insert_with(Vec::new).push(c); } else { n.c = Some(vec![node(k)]); } }
            _ => { let j = self.r.below(ns.len()); ns.swap(i, j); }
        }
    }
    pub fn document(&mut self, sh: &Sh) -> String {
        let mut ns = self.root_nodes(sh);
        for _ in 0..*self.r.pick(&[0, 0, 0, 1, 1, 2]) { self.mutate(&mut ns); }
        let sep = if self.r.chance(50) { "; " } else { "\n" };
        let t = print(&ns, sep);
        if self.r.chance(1) { return t + *self.r.pick(&["}", " {", "\"", "a=", "(", "é", "\u{feff}"]); }
        t
    }
}
fn flt(f: f64) -> String { if f.is_nan() { "#nan".into() } else if f.is_infinite() { if f > 0.0 { "#inf".into() } else { "#-inf".into() } } else { format!("{f:?}") } }
fn elem(s: &Sh) -> String { match s { Sh::Opt(s) | Sh::New(s) => elem(s), Sh::Seq(s) => format!("{s:?}"), Sh::Tup(v, _) => format!("{:?}", v[0]), _ => String::new() } }

fn shape_static(s: Sh) -> &'static Sh { Box::leak(Box::new(s)) }

pub fn random(what: &str, seed: u64, i: usize) -> Vec<Value> {
    let mut g = Gen { r: Rng::new(seed, &format!("serde-{what}-{i}")), ser: what == "ser", room: true };
    match what {
        "de" => { let sh = shape_static(g.root()); (0..2).map(|_| { let t = g.document(sh); rec_de(sh, &t, false) }).collect() }
        "ser" => { let sh = shape_static(g.root()); (0..2).map(|_| { let v = g.value(sh, "-"); rec_ser(sh, &v, false) }).collect() }
        _ => match i % 4 {
            0 => derived::<Outer>("Outer", &mut g),
            1 => derived::<Flags>("Flags", &mut g),
            2 => derived::<Kind>("Kind", &mut g),
            _ => derived::<Vec<Typed>>("Vec<Typed>", &mut g),
        },
    }
}

/// Every one of some small types with every one of some small documents.
pub fn small() -> Vec<(Sh, String)> {
    let b = |s: Sh| Box::new(s);
    let rec = |v: Vec<(&str, Sh, bool)>| Sh::rec(v, false);
    let Sh::Rec(vr) = rec(vec![("#0", Sh::Opt(b(Sh::Int("i64"))), false), ("b", Sh::Bool, false)]) else { unreachable!() };
    let en = Sh::enm(vec![("A", Payload::None), ("b", Payload::One(Sh::Int("u8"))), ("c", Payload::Tup(vec![Sh::Int("i64"), Sh::Int("i64")])), ("D", Payload::Rec(vr))]);
    let mut inner = vec![Sh::Bool, Sh::Int("u8"), Sh::Int("i64"), Sh::Int("i128"), Sh::Flt(64), Sh::Flt(32), Sh::Char, Sh::Str, Sh::Unit(false), Sh::Unit(true), en.clone(), Sh::Any,
        Sh::Tup(vec![Sh::Int("i64"), Sh::Int("i64")], false), Sh::Map(b(Sh::Str), b(Sh::Int("i64"))), Sh::Map(b(Sh::Str), b(Sh::Any)), Sh::Map(b(Sh::Int("u8")), b(Sh::Bool))];
    inner.push(rec(vec![("a", Sh::Opt(b(Sh::Int("i64"))), false), ("b", Sh::Bool, false)]));
    for h in ["#0", "#1", "#@a", "#@b"] { inner.push(rec(vec![(h, Sh::Opt(b(Sh::Int("i64"))), false), ("a", Sh::Opt(b(Sh::Any)), false)])); inner.push(rec(vec![(h, Sh::Int("i64"), false)])); }
    for h in ["#args", "#rest"] { inner.push(rec(vec![(h, Sh::Seq(b(Sh::Any)), false)])); inner.push(rec(vec![(h, Sh::Seq(b(Sh::Any)), false), ("#0", Sh::Opt(b(Sh::Any)), false)])); inner.push(rec(vec![("#1", Sh::Opt(b(Sh::Any)), false), (h, Sh::Opt(b(Sh::Seq(b(Sh::Any)))), false)])); }
    for h in ["#type", "#name", "#0#type", "#@a#type"] { inner.push(rec(vec![(h, Sh::Opt(b(Sh::Str)), false)])); inner.push(rec(vec![(h, Sh::Str, false), ("#0", Sh::Opt(b(Sh::Any)), false)])); }
    inner.push(Sh::rec(vec![("a", Sh::Opt(b(Sh::Int("i64"))), false), ("#0", Sh::Opt(b(Sh::Any)), false)], true));
    let mut all = inner.clone();
    for s in &inner { all.push(Sh::Opt(b(s.clone()))); all.push(Sh::Seq(b(s.clone()))); all.push(Sh::New(b(s.clone()))); }
    let forms = ["", " 1", " \"A\"", " x", " #true", " #false", " #null", " 1.5", " 1 2", " 1 2 3", " 300", " A 1", " (t)1", " a=1", " a=(t)1", " a=1 a=2", " b=#true", " b=1", " 1 a=2", " a=1 2", " {}", " 1 {}", " #null {}", " {\na\n}", " {\na 1\n}", " {\na 1\nb\n}",
        " a=1 {\na 2\n}", " a=1 {\nb\n}", " {\na 1\na 2\n}", " {\n- 1\n- 2\n}", " {\n- 1\n}", " {\nA\n}", " {\nb 1\n}", " {\nc 1 2\n}", " {\nc {\n- 1\n- 2\n}\n}", " {\nD 1 {\nb\n}\n}", " 1 {\nD {\nb\n}\n}", " 1 {\nD 2\n}", " (t)1 b=2 {\nD\n}", " a=1 b=2", " c=1", " D=1", " A=1", " 1 {\na 1\n}", " {\n\"1\" #true\n\"300\"\n}",
        " \"\" 1 x=1"];
    let mut out = vec![];
    for s in all {
        let root = rec(vec![("n", s.clone(), false)]);
        for f in forms { for p in ["n", "(t)n"] { if p == "n" || f.len() < 4 { out.push((root.clone(), format!("{p}{f}\n"))); } } }
        for t in ["", "n\nn\n", "n 1\nn 2\n", "n 1\nm\nn {\na 1\n}\n", "m 1\n", "n x\nn y\nn z\n"] { out.push((root.clone(), t.to_string())); }
        // the same at the top
        for t in ["", "a\n", "a 1\n", "a 1\nb\n", "A\n", "A 1\n", "b 1\n", "c 1 2\n", "D 1 {\nb\n}\n", "- A\n", "- 1\n- 2\n", "- {\nb 1\n}\n", "\"1\" #true\n", "a 1\na 2\n", "(t)a (t)1 a=(t)2 {\na 3\n}\n", "1 2\n", "a {}\n", "\"#0\" 1\n\"#args\" 1 2\n\"#type\" x\n"] { out.push((s.clone(), t.to_string())); }
        // in a sequence, a tuple, a variant, a map
        for f in forms {
            out.push((Sh::Seq(b(s.clone())), format!("-{f}\n- 1\n")));
            out.push((rec(vec![("x", Sh::Opt(b(rec(vec![("n", s.clone(), false)]))), false)]), format!("x {{\nn{f}\n}}\n")));
        }
    }
    out
}
pub fn small_records() -> Vec<(&'static Sh, String)> {
    let mut seen: HashMap<String, &'static Sh> = HashMap::new();
    small().into_iter().map(|(s, t)| (*seen.entry(format!("{s:?}")).or_insert_with(|| shape_static(s)), t)).collect()
}

/// The known findings, as they are.
pub fn known(what: &str) -> Vec<Value> {
    if what == "de" {
        let sh = shape_static(Sh::rec(vec![("server", Sh::rec(vec![("host", Sh::Str, false), ("port", Sh::Int("u16"), true)], false), false)], false));
        vec![rec_de(sh, "server {\nhost localhost\n}\n", true)]
    } else {
        let sh = shape_static(Sh::rec(vec![("name", Sh::Str, false), ("active", Sh::Bool, false)], false));
        vec![rec_ser(sh, &V::Rec(vec![V::Str("app".into()), V::Bool(false)]), true)]
    }
}

/// Plans of the specification: [sh, v] to write, [sh, text] to read.
pub fn replay(p: &Value) -> Value {
    let sh = shape_static(Sh::of_json(&p["sh"]));
    if p.get("v").is_some() { rec_ser(sh, &V::of_json(&p["v"]), false) } else {
        fn gnodes(j: &Value) -> Vec<GNode> {
            let opt = |j: &Value| j.get(0).map(uncps);
            list(j).iter().map(|n| GNode { name: uncps(&n["m"]), ty: opt(&n["y"]), e: list(&n["e"]).iter().map(|e| GEntry { name: opt(&e["k"]), ty: opt(&e["y"]), val: gval(&e["v"]) }).collect(), c: n["c"].get(0).map(gnodes) }).collect()
        }
        fn gval(v: &Value) -> String {
            match v["t"].as_str().unwrap() { "s" => quote(&uncps(&v["s"])), "i" => format!("{}{}", if v["n"] == 1 { "-" } else { "" }, list(&v["d"]).iter().map(|d| d.to_string()).collect::<String>()), "b" => if v["b"] == 1 { "#true".into() } else { "#false".into() }, "z" => "#null".into(), "f" => flt(f64::from_bits(v["b"].as_str().unwrap().parse().unwrap_or(BIG))), x => panic!("{x}") }
        }
        rec_de(sh, &print(&gnodes(&p["doc"]), "\n"), false)
    }
}
