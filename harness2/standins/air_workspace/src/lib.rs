//! Stand-in for air's `workspace` crate (whose sources are not available here).
pub mod resolve {
    use std::path::{Path, PathBuf};

    #[derive(Debug, Clone)]
    pub struct PathItem<T> {
        path: PathBuf,
        value: T,
    }
    impl<T> PathItem<T> {
        pub fn path(&self) -> &Path {
            &self.path
        }
        pub fn value(&self) -> &T {
            &self.value
        }
    }

    /// Maps a path to the value of its nearest registered ancestor.
    #[derive(Debug, Clone)]
    pub struct PathResolver<T> {
        fallback: T,
        items: Vec<PathItem<T>>,
    }
    impl<T> PathResolver<T> {
        pub fn new(fallback: T) -> Self {
            PathResolver { fallback, items: vec![] }
        }
        pub fn fallback(&self) -> &T {
            &self.fallback
        }
        pub fn add(&mut self, path: &Path, value: T) -> Option<T> {
            match self.items.binary_search_by(|i| i.path.as_path().cmp(path)) {
                Ok(i) => Some(std::mem::replace(&mut self.items[i].value, value)),
                Err(i) => {
                    self.items.insert(i, PathItem { path: path.to_path_buf(), value });
                    None
                }
            }
        }
        pub fn remove(&mut self, path: &Path) -> Option<T> {
            let i = self.items.iter().position(|i| i.path == path)?;
            Some(self.items.remove(i).value)
        }
        pub fn len(&self) -> usize {
            self.items.len()
        }
        pub fn is_empty(&self) -> bool {
            self.items.is_empty()
        }
        pub fn items(&self) -> &[PathItem<T>] {
            &self.items
        }
        pub fn resolve(&self, path: &Path) -> Option<&PathItem<T>> {
            self.items.iter().filter(|i| path.starts_with(&i.path)).max_by_key(|i| i.path.components().count())
        }
        pub fn resolve_or_fallback(&self, path: &Path) -> &T {
            self.resolve(path).map_or(&self.fallback, |i| &i.value)
        }
    }
}
