use cfg_noodle::flash::Flash;
use embedded_storage_async::nor_flash::{ErrorType, MultiwriteNorFlash, NorFlash, NorFlashError, NorFlashErrorKind, ReadNorFlash};
use sequential_storage::{cache::NoCache, queue::{QueueConfig, QueueStorage}};
use std::cell::Cell;
thread_local! { static FAIL: Cell<Option<usize>> = const { Cell::new(None) }; static AFTER: Cell<bool> = const { Cell::new(false) }; }
#[derive(Debug)]
struct Broken;
impl NorFlashError for Broken { fn kind(&self) -> NorFlashErrorKind { NorFlashErrorKind::Other } }
#[derive(Clone)]
struct Ram(Vec<u8>);
fn access(f: impl FnOnce()) -> Result<(), Broken> {
    match FAIL.get() {
        Some(0) => { FAIL.set(None); if AFTER.get() { f() } Err(Broken) }
        Some(n) => { FAIL.set(Some(n - 1)); f(); Ok(()) }
        None => { f(); Ok(()) }
    }
}
impl ErrorType for Ram { type Error = Broken; }
impl ReadNorFlash for Ram {
    const READ_SIZE: usize = 1;
    async fn read(&mut self, o: u32, b: &mut [u8]) -> Result<(), Broken> { let o = o as usize; access(|| b.copy_from_slice(&self.0[o..o + b.len()])) }
    fn capacity(&self) -> usize { self.0.len() }
}
impl NorFlash for Ram {
    const WRITE_SIZE: usize = 4;
    const ERASE_SIZE: usize = 256;
    async fn erase(&mut self, a: u32, b: u32) -> Result<(), Broken> { access(|| self.0[a as usize..b as usize].fill(0xFF)) }
    async fn write(&mut self, o: u32, b: &[u8]) -> Result<(), Broken> { access(|| for (i, x) in b.iter().enumerate() { self.0[o as usize + i] &= x }) }
}
impl MultiwriteNorFlash for Ram {}
fn stored(r: &Ram) -> Vec<Vec<u8>> {
    FAIL.set(None);
    let mut q = QueueStorage::new(r.clone(), QueueConfig::new(0..1024), NoCache::new());
    block(async {
        let (mut v, mut buf) = (vec![], [0u8; 256]);
        let mut it = q.iter().await.unwrap();
        while let Some(x) = it.next(&mut buf).await.unwrap() { v.push(x.to_vec()) }
        v
    })
}
fn fresh() -> Flash<Ram, NoCache> {
    let mut f = Flash::new(Ram(vec![0xFF; 1024]), 0..1024, NoCache::new());
    for i in 1..4u8 { let mut d = [1, 0x61, i]; block(f.push(&Elem::Data { data: SerData::new(&mut d).unwrap() })).unwrap(); }
    f
}
fn main() {
    for after in [false, true] { for n in 0..60 {
        let mut f = fresh();
        AFTER.set(after); FAIL.set(Some(n));
        let mut d = [1, 0x61, 9];
        let ok = block(f.push(&Elem::Data { data: SerData::new(&mut d).unwrap() })).is_ok();
        let left: Vec<u8> = stored(f.flash()).iter().map(|d| d[2]).collect();
        need(!ok || left == [1, 2, 3, 9], &format!("one push reported success; stored are {left:?}"));
    } }
    done()
}
