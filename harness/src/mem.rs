use pfp::error::Error;
use pfp::storage_io::StorageIO;
use std::collections::HashMap;

#[derive(Default)]
pub struct State {
    pub data: HashMap<String, String>,
    pub saved: HashMap<String, String>,
    pub flushes: usize,
    pub fail: bool,
}

/// In-memory storage, its state stays visible to the harness.
pub struct MemIO(pub *mut State);

pub fn leak(data: HashMap<String, String>) -> *mut State {
    Box::into_raw(Box::new(State { saved: data.clone(), data, flushes: 0, fail: false }))
}
pub fn free(state: *mut State) {
    drop(unsafe { Box::from_raw(state) });
}
pub fn st<'a>(state: *mut State) -> &'a mut State {
    unsafe { &mut *state }
}

impl StorageIO for MemIO {
    fn contains_key(&self, key: &str) -> bool {
        st(self.0).data.contains_key(key)
    }
    fn get(&self, key: &str) -> Result<&String, Error> {
        st(self.0).data.get(key).ok_or(Error::KeyMissing)
    }
    fn set(&mut self, key: String, value: String) {
        st(self.0).data.insert(key, value);
    }
    fn remove(&mut self, key: &str) -> Result<(), Error> {
        st(self.0).data.remove(key).map(|_| ()).ok_or(Error::KeyMissing)
    }
    fn clear(&mut self) {
        st(self.0).data.clear();
    }
    fn keys(&self) -> Box<dyn Iterator<Item = &String> + '_> {
        Box::new(st(self.0).data.keys())
    }
    fn flush(&mut self) -> Result<(), Error> {
        let s = st(self.0);
        if s.fail {
            return Err(Error::FileWriteFailure { error: std::io::Error::new(std::io::ErrorKind::Other, "disk full") });
        }
        s.saved = s.data.clone();
        s.flushes += 1;
        Ok(())
    }
}
