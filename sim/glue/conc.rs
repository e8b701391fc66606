/// Connects the seam in `parasol_concurrency::sim` to the simulator.
pub struct ConcGlue;

impl parasol_concurrency::sim::Runtime for ConcGlue {
    fn managed(&self) -> bool {
        simrt::managed()
    }
    fn point(&self, kind: &'static str, _addr: usize) {
        simrt::point(kind)
    }
    fn atomic(
        &self,
        addr: usize,
        access: parasol_concurrency::sim::Access,
        order: std::sync::atomic::Ordering,
        progress: bool,
        val: u64,
    ) {
        use parasol_concurrency::sim::Access as A;
        let a = match access {
            A::Load => simrt::Access::Load,
            A::Store => simrt::Access::Store,
            A::Rmw => simrt::Access::Rmw,
        };
        simrt::atomic(addr, a, order, progress, val)
    }
    fn fence(&self, order: std::sync::atomic::Ordering) {
        simrt::fence(order)
    }
    fn acquire(&self, addr: usize) {
        simrt::acquire(addr)
    }
    fn release(&self, addr: usize) {
        simrt::release(addr)
    }
    fn block(&self, kind: &'static str, addr: usize) {
        simrt::block(kind, addr)
    }
    fn wake(&self, addr: usize) {
        simrt::wake(addr)
    }
    fn spurious(&self) -> bool {
        simrt::spurious()
    }
    fn stale(&self, addr: usize) -> bool {
        simrt::stale(addr)
    }
    fn forget(&self, addr: usize) {
        simrt::forget(addr)
    }
}

pub fn install_conc() {
    static GLUE: ConcGlue = ConcGlue;
    parasol_concurrency::sim::install(&GLUE);
}
