//! Simulated file system: volatile state (what a running process sees) and
//! durable state (what survives a power loss), with an ordered metadata
//! journal like ext4's ordered mode: fsync makes the file's data and all
//! metadata operations so far durable.
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct Inode {
    pub data: Vec<u8>,
    pub durable: Vec<u8>,
}
#[derive(Clone, Debug)]
pub enum Meta {
    Create(String, usize),
    Rename(String, String),
    Unlink(String),
    Trunc(usize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum FsFault {
    /// the operation fails with this errno
    Err(i32),
    /// a write writes only part (then goes on normally)
    Short,
    /// a write writes only part and every later write fails (disk full)
    Full,
    /// the process dies just before the operation takes effect
    CrashBefore,
    /// the process dies just after
    CrashAfter,
    /// the process dies after the first n/8 of a write
    Torn(u8),
}
#[derive(Default)]
pub struct Fs {
    pub names: BTreeMap<String, usize>,
    pub base: BTreeMap<String, usize>,
    pub journal: Vec<Meta>,
    pub inodes: Vec<Inode>,
    pub ops: u64,
    pub oplog: Vec<String>,
    pub faults: BTreeMap<u64, FsFault>,
    pub full: bool,
    pub crashed: bool,
    pub fired: u64,
    pub writable: bool,
}
pub type R<T> = Result<T, i32>;

impl Fs {
    fn apply(names: &mut BTreeMap<String, usize>, m: &Meta) {
        match m {
            Meta::Create(p, i) => {
                names.insert(p.clone(), *i);
            }
            Meta::Rename(a, b) => {
                if let Some(i) = names.remove(a) {
                    names.insert(b.clone(), i);
                }
            }
            Meta::Unlink(p) => {
                names.remove(p);
            }
            Meta::Trunc(_) => {}
        }
    }
    fn meta(&mut self, m: Meta) {
        Fs::apply(&mut self.names, &m);
        self.journal.push(m);
    }
    pub fn owns(&self, path: &str) -> bool {
        path.starts_with("/h/")
    }
    /// the directory itself can be opened and synced: it is inode 0
    pub fn is_dir(path: &str) -> bool {
        path == "/h" || path == "/h/"
    }
    pub fn open(&mut self, path: &str, flags: i32) -> R<usize> {
        if Fs::is_dir(path) {
            if flags & libc::O_ACCMODE != libc::O_RDONLY {
                return Err(libc::EISDIR);
            }
            self.dir();
            return Ok(0);
        }
        if !self.owns(path) {
            return Err(libc::ENOENT);
        }
        match self.names.get(path).copied() {
            Some(i) => {
                if flags & libc::O_EXCL != 0 && flags & libc::O_CREAT != 0 {
                    return Err(libc::EEXIST);
                }
                if flags & libc::O_TRUNC != 0 && !self.inodes[i].data.is_empty() {
                    self.inodes[i].data.clear();
                    self.journal.push(Meta::Trunc(i));
                }
                Ok(i)
            }
            None => {
                if flags & libc::O_CREAT == 0 {
                    return Err(libc::ENOENT);
                }
                self.dir();
                self.inodes.push(Inode::default());
                let i = self.inodes.len() - 1;
                self.meta(Meta::Create(path.to_string(), i));
                Ok(i)
            }
        }
    }
    pub fn write(&mut self, i: usize, pos: usize, b: &[u8]) -> usize {
        let d = &mut self.inodes[i].data;
        if d.len() < pos + b.len() {
            d.resize(pos + b.len(), 0);
        }
        d[pos..pos + b.len()].copy_from_slice(b);
        b.len()
    }
    pub fn truncate(&mut self, i: usize, n: usize) {
        self.inodes[i].data.resize(n, 0);
        self.journal.push(Meta::Trunc(i));
    }
    pub fn fsync(&mut self, i: usize) {
        self.inodes[i].durable = self.inodes[i].data.clone();
        self.commit(self.journal.len());
    }
    fn commit(&mut self, n: usize) {
        for m in self.journal.drain(..n).collect::<Vec<_>>() {
            if let Meta::Trunc(i) = m {
                // committed truncation: old data no longer reachable
                let keep = self.inodes[i].data.len().min(self.inodes[i].durable.len());
                if self.inodes[i].durable.len() > keep {
                    self.inodes[i].durable.truncate(keep);
                }
            }
            Fs::apply(&mut self.base, &m);
        }
    }
    pub fn rename(&mut self, a: &str, b: &str) -> R<()> {
        if !self.owns(a) || !self.owns(b) {
            return Err(libc::EXDEV);
        }
        if !self.names.contains_key(a) {
            return Err(libc::ENOENT);
        }
        if a != b {
            self.meta(Meta::Rename(a.to_string(), b.to_string()));
        }
        Ok(())
    }
    fn dir(&mut self) {
        if self.inodes.is_empty() {
            self.inodes.push(Inode::default());
        }
    }
    pub fn link(&mut self, a: &str, b: &str) -> R<()> {
        let Some(i) = self.names.get(a).copied() else { return Err(libc::ENOENT) };
        if !self.owns(b) {
            return Err(libc::EXDEV);
        }
        if self.names.contains_key(b) {
            return Err(libc::EEXIST);
        }
        self.meta(Meta::Create(b.to_string(), i));
        Ok(())
    }
    pub fn unlink(&mut self, a: &str) -> R<()> {
        if !self.names.contains_key(a) {
            return Err(libc::ENOENT);
        }
        self.meta(Meta::Unlink(a.to_string()));
        Ok(())
    }
    /// harness: put a file there, durably
    pub fn put(&mut self, path: &str, data: &[u8]) {
        self.dir();
        self.inodes.push(Inode { data: data.to_vec(), durable: data.to_vec() });
        let i = self.inodes.len() - 1;
        self.meta(Meta::Create(path.to_string(), i));
        let n = self.journal.len();
        self.commit(n);
    }
    pub fn get(&self, path: &str) -> Option<&[u8]> {
        self.names.get(path).map(|&i| &self.inodes[i].data[..])
    }
    /// The machine loses power: only durable state remains. `draw` (uniform
    /// below its argument) decides how much of the un-synced state happens to
    /// have reached the disk.
    pub fn power_loss(&mut self, draw: &mut dyn FnMut(u32) -> u32) {
        // what the dead processes had open is gone
        let n = self.journal.len();
        // value 0: everything reached the disk
        let cut = n - draw(n as u32 + 1) as usize;
        self.commit(cut);
        self.journal.clear();
        let mut used: Vec<usize> = self.base.values().copied().collect();
        used.sort();
        used.dedup();
        for i in used {
            let ino = &mut self.inodes[i];
            if ino.data != ino.durable {
                let full = ino.data.clone();
                match draw(4) {
                    0 => ino.durable = full,
                    1 => {}
                    2 => {
                        let k = draw(full.len() as u32 + 1) as usize;
                        ino.durable = full[..k].to_vec();
                    }
                    _ => {
                        // size reached the disk, some of the data did not
                        let k = draw(full.len() as u32 + 1) as usize;
                        let mut d = full;
                        for b in &mut d[k..] {
                            *b = 0;
                        }
                        ino.durable = d;
                    }
                }
                self.inodes[i].data = self.inodes[i].durable.clone();
            }
        }
        self.names = self.base.clone();
    }
}
