//! The configuration the harness has chosen, whatever the files say.
#[derive(Debug)] pub struct ConfigError(pub String);
impl std::fmt::Display for ConfigError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for ConfigError {}
pub struct File; impl From<std::path::PathBuf> for File { fn from(_: std::path::PathBuf) -> Self { File } }
impl File { pub fn with_name(_: &str) -> Self { File } pub fn required(self, _: bool) -> Self { self } }
pub struct Config; pub struct Builder;
impl Config { pub fn builder() -> Builder { Builder } pub fn try_deserialize<T: serde::de::DeserializeOwned>(self) -> Result<T, ConfigError> { serde_json::from_str(&sim::world(|w| w.config.clone())).map_err(|e| ConfigError(e.to_string())) } }
impl Builder { pub fn add_source<S>(self, _: S) -> Self { self } pub fn build(self) -> Result<Config, ConfigError> { Ok(Config) } }
