use cfg_noodle::flash::Flash;
use embedded_storage_async::nor_flash::{ErrorType, MultiwriteNorFlash, NorFlash, ReadNorFlash};
use sequential_storage::{cache::NoCache, mock_flash::{MockFlashBase, WriteCountCheck}};
type B = MockFlashBase<4, 4, 64>;
/// reads in words of 8 bytes, writes in words of 4
struct Coarse(B);
impl ErrorType for Coarse { type Error = <B as ErrorType>::Error; }
impl ReadNorFlash for Coarse {
    const READ_SIZE: usize = 8;
    async fn read(&mut self, o: u32, b: &mut [u8]) -> Result<(), Self::Error> { self.0.read(o, b).await }
    fn capacity(&self) -> usize { self.0.capacity() }
}
impl NorFlash for Coarse {
    const WRITE_SIZE: usize = 4;
    const ERASE_SIZE: usize = <B as NorFlash>::ERASE_SIZE;
    async fn erase(&mut self, a: u32, b: u32) -> Result<(), Self::Error> { self.0.erase(a, b).await }
    async fn write(&mut self, o: u32, b: &[u8]) -> Result<(), Self::Error> { self.0.write(o, b).await }
}
impl MultiwriteNorFlash for Coarse {}
fn main() {
    for n in 2..40usize {
        let mut f = Flash::new(Coarse(B::new(WriteCountCheck::Twice, None, true)), 0..1024, NoCache::new());
        let mut d = vec![1u8; n];
        let used = block(f.push(&Elem::Data { data: SerData::new(&mut d).unwrap() })).unwrap();
        let mut buf = [0u8; 128];
        let mut it = block(f.iter_elems()).unwrap();
        let x = block(it.next(&mut buf)).unwrap().unwrap();
        need(used == x.len(), "lengths differ between write and read");
        let overhead = sequential_storage::queue::QueueStorage::<Coarse, NoCache>::item_overhead_size() as usize;
        need(used == overhead + n.next_multiple_of(8), "reported length is not what the queue uses");
    }
    done()
}
