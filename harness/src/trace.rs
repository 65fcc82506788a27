//! A subscriber that takes everything and formats all of it.
use std::fmt::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use tracing::field::{Field, Visit};
use tracing::span::{Attributes, Id, Record};
use tracing::subscriber::Interest;
use tracing::{Event, Metadata, Subscriber};

pub static SPANS: AtomicU64 = AtomicU64::new(0);
pub static EVENTS: AtomicU64 = AtomicU64::new(0);
pub static BYTES: AtomicU64 = AtomicU64::new(0);

struct Sink(usize);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        // whole documents are formatted again and again otherwise
        if self.0 > 4000 {
            Err(std::fmt::Error)
        } else {
            Ok(())
        }
    }
}
impl Visit for Sink {
    fn record_debug(&mut self, _: &Field, v: &dyn std::fmt::Debug) {
        let _ = write!(self, "{v:?}");
    }
}
struct All {
    /// every other span is declined
    some: bool,
}
impl Subscriber for All {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest {
        if self.some {
            Interest::sometimes()
        } else {
            Interest::always()
        }
    }
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        thread_local!(static N: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
        !self.some
            || N.with(|n| {
                n.set(n.get() + 1);
                n.get() % 3 != 0
            })
    }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
        let mut s = Sink(0);
        a.record(&mut s);
        BYTES.fetch_add(s.0 as u64, Ordering::Relaxed);
        Id::from_u64(SPANS.fetch_add(1, Ordering::Relaxed) + 1)
    }
    fn record(&self, _: &Id, r: &Record<'_>) {
        r.record(&mut Sink(0));
    }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &Event<'_>) {
        let mut s = Sink(0);
        e.record(&mut s);
        EVENTS.fetch_add(1, Ordering::Relaxed);
        BYTES.fetch_add(s.0 as u64, Ordering::Relaxed);
    }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}
pub fn install() {
    let some = match std::env::var("VH_SUBSCRIBER").as_deref() {
        Ok("all") => false,
        Ok("some") => true,
        _ => return,
    };
    tracing::subscriber::set_global_default(All { some }).expect("subscriber");
}
