//! Prints what the code under test reports while a run is traced by hand
//! (`SIM_SPANS=1`); never active in checks.
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use tracing::{field::{Field, Visit}, span, Event, Metadata, Subscriber};
pub struct Spans { next: AtomicU64, names: Mutex<Vec<&'static str>> }
struct V(String);
impl Visit for V { fn record_debug(&mut self, f: &Field, v: &dyn std::fmt::Debug) { self.0 += &format!(" {}={:?}", f.name(), v) } }
impl Subscriber for Spans {
    fn enabled(&self, _: &Metadata<'_>) -> bool { true }
    fn new_span(&self, a: &span::Attributes<'_>) -> span::Id {
        let id = self.next.fetch_add(1, Ordering::SeqCst);
        self.names.lock().unwrap().push(a.metadata().name());
        eprintln!("span+ {id} {}::{}", a.metadata().target(), a.metadata().name());
        span::Id::from_u64(id + 1)
    }
    fn record(&self, _: &span::Id, _: &span::Record<'_>) {}
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) { let mut v = V(String::new()); e.record(&mut v); let mut s = v.0; s.truncate(300); eprintln!("event {} {}", e.metadata().target(), s) }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
    fn try_close(&self, id: span::Id) -> bool { let i = id.into_u64() - 1; eprintln!("span- {i} {}", self.names.lock().unwrap()[i as usize]); true }
}
pub fn install() {
    if std::env::var_os("SIM_SPANS").is_some() {
        let _ = tracing::subscriber::set_global_default(Spans { next: AtomicU64::new(0), names: Default::default() });
    }
}
