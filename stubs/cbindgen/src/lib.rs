//! Stub of the build-time crate `cbindgen`: no header is needed by the checks.
use std::path::Path;
#[derive(Clone, Copy)]
pub enum Language { C, Cxx, Cython }
#[derive(Default)]
pub struct FunctionConfig { pub must_use: Option<String> }
#[derive(Default)]
pub struct Config { pub cpp_compat: bool, pub function: FunctionConfig }
pub struct Builder;
pub struct Bindings;
impl Builder {
    pub fn new() -> Self { Builder }
    pub fn with_config(self, _: Config) -> Self { self }
    pub fn with_header<S: AsRef<str>>(self, _: S) -> Self { self }
    pub fn with_crate<P: AsRef<Path>>(self, _: P) -> Self { self }
    pub fn with_language(self, _: Language) -> Self { self }
    pub fn with_include_guard<S: AsRef<str>>(self, _: S) -> Self { self }
    pub fn generate(self) -> Result<Bindings, String> { Ok(Bindings) }
}
impl Bindings {
    pub fn write_to_file<P: AsRef<Path>>(&self, _: P) -> bool { true }
}
