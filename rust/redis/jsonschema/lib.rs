//! Stands in for the jsonschema crate: the keywords the module's schema uses.
use serde_json::Value;
#[derive(Debug)] pub struct ValidationError { pub instance_path: String, what: String }
impl std::fmt::Display for ValidationError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.what) } }
impl std::error::Error for ValidationError {}
pub struct JSONSchema { s: Value }
impl JSONSchema {
    pub fn options() -> Options { Options }
    pub fn compile(s: &Value) -> Result<JSONSchema, ValidationError> { Ok(JSONSchema { s: s.clone() }) }
    pub fn validate(&self, v: &Value) -> Result<(), std::vec::IntoIter<ValidationError>> { let mut e = vec![]; check(&self.s, v, String::new(), &mut e); if e.is_empty() { Ok(()) } else { Err(e.into_iter()) } }
    pub fn is_valid(&self, v: &Value) -> bool { self.validate(v).is_ok() }
}
pub struct Options;
impl Options { pub fn compile(&self, s: &Value) -> Result<JSONSchema, ValidationError> { JSONSchema::compile(s) } }
fn kind(v: &Value, t: &str) -> bool {
    match t { "object" => v.is_object(), "array" => v.is_array(), "string" => v.is_string(), "boolean" => v.is_boolean(), "null" => v.is_null(), "number" => v.is_number(),
        "integer" => v.is_i64() || v.is_u64() || v.as_f64().map_or(false, |x| x.fract() == 0.0), _ => false }
}
fn check(s: &Value, v: &Value, p: String, e: &mut Vec<ValidationError>) {
    let mut bad = |w: String| e.push(ValidationError { instance_path: p.clone(), what: w });
    match &s["type"] { Value::String(t) => if !kind(v, t) { bad(format!("{v} is not of type {t}")); }, Value::Array(a) => if !a.iter().any(|t| kind(v, t.as_str().unwrap_or(""))) { bad("type".into()); }, _ => {} }
    if let Value::Array(a) = &s["enum"] { if !a.contains(v) { bad(format!("{v} is not one of {a:?}")); } }
    if let (Some(m), Some(x)) = (s["minimum"].as_f64(), v.as_f64()) { if x < m { bad(format!("{v} is less than {m}")); } }
    if let Some(o) = v.as_object() {
        if let Value::Array(a) = &s["required"] { for k in a { if !o.contains_key(k.as_str().unwrap_or("")) { bad(format!("{k} is a required property")); } } }
        if s["additionalProperties"] == Value::Bool(false) { for k in o.keys() { if s["properties"].get(k).is_none() { bad(format!("additional property {k}")); } } }
        if let Value::Object(ps) = &s["properties"] { for (k, q) in ps { if let Some(x) = o.get(k) { check(q, x, format!("{p}/{k}"), e); } } }
    } else if let Some(a) = v.as_array() { if s["items"].is_object() { for (i, x) in a.iter().enumerate() { check(&s["items"], x, format!("{p}/{i}"), e); } } }
}
