use cfg_noodle::flash::Flash;
use sequential_storage::{cache::NoCache, mock_flash::{MockFlashBase, WriteCountCheck}, queue::{QueueConfig, QueueStorage}};
type F = MockFlashBase<4, 4, 64>;
fn main() {
    for extra in 0..6usize {
        let mut q = QueueStorage::new(F::new(WriteCountCheck::Twice, None, true), QueueConfig::new(0..1024), NoCache::new());
        let mut e = vec![2u8, 5, 0, 0, 0, 1, 2, 3, 4];
        e.resize(9 + extra, 0x33);
        block(q.push(&e, false)).unwrap();
        let (mem, _) = q.destroy();
        let mut f = Flash::new(mem, 0..1024, NoCache::new());
        let mut buf = [0u8; 128];
        let mut it = block(f.iter_elems()).unwrap();
        let x = block(it.next(&mut buf)).unwrap().unwrap();
        need(x.data().is_some() == (extra == 0), "an end element of the wrong length is accepted");
    }
    done()
}
