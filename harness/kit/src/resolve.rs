//! Reference rule for finding the file a template path names.
use std::collections::BTreeSet;

/// Files and the directories they are in, all below one root, paths without `.` and `..`.
pub struct Tree {
    pub files: BTreeSet<String>,
    dirs: BTreeSet<String>,
}

impl Tree {
    pub fn new<'a>(files: impl IntoIterator<Item = &'a str>) -> Tree {
        let files: BTreeSet<String> = files.into_iter().map(|x| x.to_string()).collect();
        let mut dirs = BTreeSet::from([String::new()]);
        for f in &files {
            for (k, _) in f.match_indices('/') {
                dirs.insert(f[..k].to_string());
            }
        }
        Tree { files, dirs }
    }

    /// The file `dir/path` as the file system finds it.
    pub fn at(&self, dir: &str, path: &str) -> Option<String> {
        if !self.dirs.contains(dir) {
            return None;
        }
        let mut cur: Vec<&str> = dir.split('/').filter(|x| !x.is_empty()).collect();
        let parts: Vec<&str> = path.split('/').filter(|x| !x.is_empty() && *x != ".").collect();
        let (last, init) = parts.split_last()?;
        for p in init {
            if *p == ".." {
                cur.pop()?;
            } else {
                cur.push(p);
            }
            if !self.dirs.contains(&cur.join("/")) {
                return None;
            }
        }
        cur.push(last);
        let f = cur.join("/");
        self.files.contains(&f).then_some(f)
    }

    /// Next to the file containing the tag, else in the configured directories in order.
    pub fn find(&self, dirs: &[&str], from: Option<&str>, path: &str) -> Option<String> {
        if let Some(f) = from {
            let d = f.rsplit_once('/').map_or("", |x| x.0);
            if let Some(x) = self.at(d, path) {
                return Some(x);
            }
        }
        dirs.iter().find_map(|d| self.at(d, path))
    }
}
