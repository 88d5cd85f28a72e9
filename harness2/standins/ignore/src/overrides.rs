use crate::gitignore::Gitignore;
use crate::{Error, Match};
use std::path::Path;

#[derive(Debug, Clone)]
pub struct Glob<'a>(Option<&'a crate::gitignore::Glob>);
impl<'a> Glob<'a> {
    pub fn original(&self) -> Option<&str> {
        self.0.map(|g| g.original())
    }
}

#[derive(Debug, Clone)]
pub struct Override(Gitignore);
impl Override {
    pub fn empty() -> Override {
        Override(Gitignore::empty())
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn num_ignores(&self) -> u64 {
        self.0.num_whitelists()
    }
    pub fn num_whitelists(&self) -> u64 {
        self.0.num_ignores()
    }
    pub fn matched<P: AsRef<Path>>(&self, path: P, is_dir: bool) -> Match<Glob<'_>> {
        if self.is_empty() {
            return Match::None;
        }
        let m = self.0.matched(path, is_dir).invert();
        if m.is_none() && self.num_whitelists() > 0 && !is_dir {
            return Match::Ignore(Glob(None));
        }
        m.map(|g| Glob(Some(g)))
    }
}
pub struct OverrideBuilder(Gitignore);
impl OverrideBuilder {
    pub fn new<P: AsRef<Path>>(root: P) -> Self {
        OverrideBuilder(Gitignore::new_at(root.as_ref()))
    }
    pub fn add(&mut self, glob: &str) -> Result<&mut Self, Error> {
        self.0.add_line(glob)?;
        Ok(self)
    }
    pub fn build(&self) -> Result<Override, Error> {
        Ok(Override(self.0.clone()))
    }
}
