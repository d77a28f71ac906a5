//! Stand-in for stopwatch::Stopwatch.
use std::time::{Duration, Instant};

pub struct Stopwatch(Instant, Option<Duration>);

impl Stopwatch {
    pub fn start_new() -> Self {
        Stopwatch(Instant::now(), None)
    }
    pub fn new() -> Self {
        Self::start_new()
    }
    pub fn start(&mut self) {
        self.0 = Instant::now();
        self.1 = None;
    }
    pub fn stop(&mut self) {
        self.1 = Some(self.0.elapsed());
    }
    pub fn elapsed(&self) -> Duration {
        self.1.unwrap_or_else(|| self.0.elapsed())
    }
    pub fn elapsed_ms(&self) -> i64 {
        self.elapsed().as_millis() as i64
    }
}
