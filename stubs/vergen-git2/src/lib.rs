//! Stub of the build-time crate `vergen-git2`: the git revision is irrelevant here.
use std::io;
type R<T> = Result<T, io::Error>;
#[derive(Default, Clone, Copy)]
pub struct Git2Builder;
#[derive(Default, Clone, Copy)]
pub struct Git2;
impl Git2Builder {
    pub fn branch(&mut self, _: bool) -> &mut Self { self }
    pub fn sha(&mut self, _: bool) -> &mut Self { self }
    pub fn build(&self) -> R<Git2> { Ok(Git2) }
}
#[derive(Default, Clone, Copy)]
pub struct Emitter;
impl Emitter {
    pub fn fail_on_error(&mut self) -> &mut Self { self }
    pub fn quiet(&mut self) -> &mut Self { self }
    pub fn add_instructions<T>(&mut self, _: &T) -> R<&mut Self> { Ok(self) }
    pub fn emit(&self) -> R<()> { Ok(()) }
}
