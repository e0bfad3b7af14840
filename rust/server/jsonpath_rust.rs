//! Paths of names and indices.  What is not there is answered in one of the ways the library's versions do; the harness says which.
use serde_json::Value;
pub struct JsonPathFinder { v: Value, path: Vec<String> }
impl JsonPathFinder {
    pub fn from_str(text: &str, path: &str) -> Result<Self, String> {
        let v = serde_json::from_str(text).map_err(|e| e.to_string())?; if !path.starts_with('$') { return Err("path".into()); }
        Ok(Self { v, path: path[1..].replace("['", ".").replace("']", "").replace('[', ".").replace(']', "").split('.').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect() })
    }
    pub fn find(&self) -> Value {
        let mut x = Some(&self.v); for p in &self.path { x = x.and_then(|x| match x { Value::Array(a) => p.parse::<usize>().ok().and_then(|i| a.get(i)), _ => x.get(p) }); }
        match x { Some(v) => Value::Array(vec![v.clone()]), None => match sim::world(|w| w.missing) { 0 => Value::Array(vec![]), 1 => Value::Null, _ => Value::Array(vec![Value::Null]) } }
    }
}
