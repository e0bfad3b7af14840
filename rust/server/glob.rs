pub fn glob(_: &str) -> Result<std::vec::IntoIter<Result<std::path::PathBuf, std::io::Error>>, std::io::Error> { Ok(vec![].into_iter()) }
