//! A stand-in for `std` whose file system is in memory, per thread, with
//! injected failures. Nothing here can reach the real file system.

pub use ::std::*;

pub mod world {
    use std::cell::RefCell;
    use std::collections::BTreeMap;

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum Node {
        Dir,
        File(Vec<u8>),
    }

    /// Paths are relative to the working directory, `/`-separated, without `.`.
    #[derive(Clone, Debug, Default)]
    pub struct World {
        pub nodes: BTreeMap<String, Node>,
        pub log: Vec<(String, String)>,
        pub fail_read_dir: bool,
        /// Fail at the n-th entry of a listing.
        pub fail_entry: Option<usize>,
        pub fail_remove: Option<String>,
    }

    thread_local! {
        pub static WORLD: RefCell<World> = RefCell::new(World::default());
    }
    pub fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
        WORLD.with(|w| f(&mut w.borrow_mut()))
    }

    /// `Err` is a path that leaves the working directory.
    pub fn norm(p: &std::path::Path) -> Result<String, String> {
        let mut out: Vec<String> = vec![];
        for c in p.components() {
            match c {
                std::path::Component::CurDir => {}
                std::path::Component::Normal(s) => out.push(s.to_string_lossy().into_owned()),
                std::path::Component::ParentDir if out.pop().is_some() => {}
                _ => return Err(p.to_string_lossy().into_owned()),
            }
        }
        Ok(out.join("/"))
    }

    impl World {
        pub fn is_file(&self, p: &str) -> bool {
            matches!(self.nodes.get(p), Some(Node::File(_)))
        }
        pub fn is_dir(&self, p: &str) -> bool {
            p.is_empty() || matches!(self.nodes.get(p), Some(Node::Dir))
        }
        pub fn mkdirs(&mut self, p: &str) {
            let mut cur = String::new();
            for part in p.split('/').filter(|s| !s.is_empty()) {
                if !cur.is_empty() {
                    cur.push('/');
                }
                cur.push_str(part);
                self.nodes.entry(cur.clone()).or_insert(Node::Dir);
            }
        }
        pub fn put(&mut self, p: &str, data: &[u8]) {
            if let Some((d, _)) = p.rsplit_once('/') {
                self.mkdirs(d);
            }
            self.nodes.insert(p.to_string(), Node::File(data.to_vec()));
        }
        pub fn children(&self, p: &str) -> Vec<String> {
            let pre = if p.is_empty() { String::new() } else { format!("{p}/") };
            self.nodes
                .keys()
                .filter(|k| k.starts_with(&pre) && !k[pre.len()..].contains('/') && k.len() > pre.len())
                .cloned()
                .collect()
        }
        pub fn remove_tree(&mut self, p: &str) {
            let pre = format!("{p}/");
            self.nodes.retain(|k, _| k != p && !k.starts_with(&pre));
        }
    }
}

pub mod fs {
    use crate::world::{norm, with, Node};
    use std::ffi::OsString;
    use std::io;
    use std::path::{Path, PathBuf};

    fn err(k: io::ErrorKind) -> io::Error {
        io::Error::new(k, "injected or absent")
    }
    fn at(p: &Path, what: &str) -> io::Result<String> {
        norm(p).map_err(|outside| {
            with(|w| w.log.push((format!("outside-{what}"), outside)));
            err(io::ErrorKind::PermissionDenied)
        })
    }

    #[derive(Clone, Debug)]
    pub struct Metadata {
        file: bool,
        len: u64,
    }
    impl Metadata {
        pub fn is_file(&self) -> bool {
            self.file
        }
        pub fn is_dir(&self) -> bool {
            !self.file
        }
        pub fn is_symlink(&self) -> bool {
            false
        }
        pub fn len(&self) -> u64 {
            self.len
        }
        pub fn file_type(&self) -> FileType {
            FileType { file: self.file }
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct FileType {
        file: bool,
    }
    impl FileType {
        pub fn is_file(&self) -> bool {
            self.file
        }
        pub fn is_dir(&self) -> bool {
            !self.file
        }
        pub fn is_symlink(&self) -> bool {
            false
        }
    }
    pub fn metadata<P: AsRef<Path>>(p: P) -> io::Result<Metadata> {
        let p = at(p.as_ref(), "metadata")?;
        with(|w| match w.nodes.get(&p) {
            Some(Node::File(d)) => Ok(Metadata { file: true, len: d.len() as u64 }),
            Some(Node::Dir) => Ok(Metadata { file: false, len: 0 }),
            None if p.is_empty() => Ok(Metadata { file: false, len: 0 }),
            None => Err(err(io::ErrorKind::NotFound)),
        })
    }
    pub fn symlink_metadata<P: AsRef<Path>>(p: P) -> io::Result<Metadata> {
        metadata(p)
    }
    pub fn exists<P: AsRef<Path>>(p: P) -> io::Result<bool> {
        Ok(metadata(p).is_ok())
    }
    #[derive(Debug)]
    pub struct ReadDir {
        items: Vec<PathBuf>,
        at: usize,
        fail: Option<usize>,
    }
    #[derive(Debug, Clone)]
    pub struct DirEntry {
        path: PathBuf,
    }
    impl DirEntry {
        pub fn path(&self) -> PathBuf {
            self.path.clone()
        }
        pub fn file_name(&self) -> OsString {
            self.path.file_name().unwrap().to_os_string()
        }
        pub fn metadata(&self) -> io::Result<Metadata> {
            metadata(&self.path)
        }
        pub fn file_type(&self) -> io::Result<FileType> {
            metadata(&self.path).map(|m| m.file_type())
        }
    }
    impl Iterator for ReadDir {
        type Item = io::Result<DirEntry>;
        fn next(&mut self) -> Option<Self::Item> {
            let i = self.at;
            self.at += 1;
            if self.fail == Some(i) && i < self.items.len() {
                return Some(Err(err(io::ErrorKind::Other)));
            }
            self.items.get(i).map(|p| Ok(DirEntry { path: p.clone() }))
        }
    }
    pub fn read_dir<P: AsRef<Path>>(p: P) -> io::Result<ReadDir> {
        let rel = at(p.as_ref(), "read_dir")?;
        with(|w| {
            if w.fail_read_dir {
                return Err(err(io::ErrorKind::Other));
            }
            if !w.is_dir(&rel) {
                return Err(err(io::ErrorKind::NotFound));
            }
            let items = w
                .children(&rel)
                .iter()
                .map(|c| p.as_ref().join(Path::new(c).file_name().unwrap()))
                .collect();
            Ok(ReadDir { items, at: 0, fail: w.fail_entry })
        })
    }
    fn remove(p: &Path, what: &str, want: impl Fn(&crate::world::World, &str) -> bool) -> io::Result<()> {
        let rel = at(p, what)?;
        with(|w| {
            if rel.is_empty() {
                w.log.push(("outside-remove".into(), ".".into()));
                return Err(err(io::ErrorKind::PermissionDenied));
            }
            if w.fail_remove.as_deref() == Some(rel.as_str()) {
                return Err(err(io::ErrorKind::PermissionDenied));
            }
            if !w.nodes.contains_key(&rel) {
                return Err(err(io::ErrorKind::NotFound));
            }
            if !want(w, &rel) {
                return Err(err(io::ErrorKind::Other));
            }
            w.log.push(("remove".into(), rel.clone()));
            w.remove_tree(&rel);
            Ok(())
        })
    }
    pub fn remove_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> {
        remove(p.as_ref(), "remove", |w, p| w.is_dir(p))
    }
    pub fn remove_dir<P: AsRef<Path>>(p: P) -> io::Result<()> {
        remove(p.as_ref(), "remove", |w, p| w.is_dir(p) && w.children(p).is_empty())
    }
    pub fn remove_file<P: AsRef<Path>>(p: P) -> io::Result<()> {
        remove(p.as_ref(), "remove", |w, p| w.is_file(p))
    }
    pub fn create_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> {
        let rel = at(p.as_ref(), "create")?;
        with(|w| w.mkdirs(&rel));
        Ok(())
    }
    pub fn create_dir<P: AsRef<Path>>(p: P) -> io::Result<()> {
        create_dir_all(p)
    }
    pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> {
        let rel = at(p.as_ref(), "write")?;
        with(|w| w.put(&rel, c.as_ref()));
        Ok(())
    }
    pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> {
        let rel = at(p.as_ref(), "read")?;
        with(|w| match w.nodes.get(&rel) {
            Some(Node::File(d)) => Ok(d.clone()),
            _ => Err(err(io::ErrorKind::NotFound)),
        })
    }
    pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> {
        String::from_utf8(read(p)?).map_err(|_| err(io::ErrorKind::InvalidData))
    }
    pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<()> {
        let (a, b) = (at(a.as_ref(), "rename")?, at(b.as_ref(), "rename")?);
        with(|w| {
            let moved: Vec<_> = w
                .nodes
                .iter()
                .filter(|(k, _)| **k == a || k.starts_with(&format!("{a}/")))
                .map(|(k, v)| (format!("{b}{}", &k[a.len()..]), v.clone()))
                .collect();
            if moved.is_empty() {
                return Err(err(io::ErrorKind::NotFound));
            }
            w.log.push(("rename".into(), a.clone()));
            w.remove_tree(&a);
            w.nodes.extend(moved);
            Ok(())
        })
    }
}
