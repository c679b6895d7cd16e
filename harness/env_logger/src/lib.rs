//! Log records are made but not written while the broker runs under the harness.
pub struct Env;
impl Env { pub fn default_filter_or<T>(self, _: T) -> Self { self } pub fn new() -> Self { Env } }
impl Default for Env { fn default() -> Self { Env } }
impl From<&str> for Env { fn from(_: &str) -> Self { Env } }
#[derive(Default)]
pub struct Builder;
impl Builder {
    pub fn new() -> Self { Builder }
    pub fn from_env<T>(_: T) -> Self { Builder }
    pub fn from_default_env() -> Self { Builder }
    pub fn filter(&mut self, _: Option<&str>, _: log::LevelFilter) -> &mut Self { self }
    pub fn filter_level(&mut self, _: log::LevelFilter) -> &mut Self { self }
    pub fn filter_module(&mut self, _: &str, _: log::LevelFilter) -> &mut Self { self }
    pub fn parse_filters(&mut self, _: &str) -> &mut Self { self }
    pub fn parse_default_env(&mut self) -> &mut Self { self }
    pub fn init(&mut self) {}
    pub fn try_init(&mut self) -> Result<(), log::SetLoggerError> { Ok(()) }
}
pub fn init() {}
pub fn builder() -> Builder { Builder }
