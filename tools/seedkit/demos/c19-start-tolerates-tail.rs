use cfg_noodle::flash::Flash;
use sequential_storage::{cache::NoCache, mock_flash::{MockFlashBase, WriteCountCheck}, queue::{QueueConfig, QueueStorage}};
type F = MockFlashBase<4, 4, 64>;
fn main() {
    for len in 1..12usize {
        let mut q = QueueStorage::new(F::new(WriteCountCheck::Twice, None, true), QueueConfig::new(0..1024), NoCache::new());
        let mut e = vec![0x11u8; len];
        e[0] = 0;
        block(q.push(&e, false)).unwrap();
        let (mem, _) = q.destroy();
        let mut f = Flash::new(mem, 0..1024, NoCache::new());
        let l = list::<3>();
        let mut buf = [0u8; 200];
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| block(l.process_reads(&mut f, &mut buf)).is_ok()));
        need(matches!(r, Ok(true)), "reading a storage with an odd element panics");
    }
    done()
}
