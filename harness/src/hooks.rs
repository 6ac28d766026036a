//! Glue to the scheduling points of the crate (only there in a build with `--cfg xtra_verif`).
#[cfg(xtra_verif)]
struct S;
#[cfg(xtra_verif)]
impl xtra::verif::Scheduler for S {
    fn point(&self, op: &'static str, object: usize) {
        crate::rt::on_point(op, object);
    }
    fn blocked(&self, op: &'static str, _object: usize) {
        if crate::rt::on_blocked(op) {
            return;
        }
        let w = crate::drv::WORKER.with(|w| w.get());
        if w != usize::MAX && crate::drv::SEQUENTIAL.with(|s| s.get()) {
            // sequential episode: only this thread could ever release the lock
            crate::drv::fatal(w, &["C17"], &format!("a call on the actor's handles blocks forever: the calling thread itself holds the {op} it waits for"));
        }
        std::thread::yield_now();
    }
}
pub fn install() {
    #[cfg(xtra_verif)]
    xtra::verif::set_scheduler(Box::new(S));
}
