//! The real rand, with random numbers of `thread_rng` chosen by the driver: a script, and after it a fixed sequence.
pub use real_rand::*;
use std::collections::VecDeque;
use std::sync::Mutex;

static SCRIPT: Mutex<(VecDeque<u32>, u64)> = Mutex::new((VecDeque::new(), 0));

pub fn set_script(values: Vec<u32>) {
    *SCRIPT.lock().unwrap() = (values.into(), 0);
}

#[derive(Clone, Debug)]
pub struct ScriptedRng;

pub fn thread_rng() -> ScriptedRng {
    ScriptedRng
}

pub fn random<T>() -> T
where
    distributions::Standard: distributions::Distribution<T>,
{
    thread_rng().gen()
}

impl RngCore for ScriptedRng {
    fn next_u32(&mut self) -> u32 {
        let mut script = SCRIPT.lock().unwrap();
        if let Some(value) = script.0.pop_front() {
            return value;
        }
        script.1 = script.1.wrapping_add(1);
        (script.1.wrapping_mul(0x9E3779B97F4A7C15) >> 24) as u32
    }
    fn next_u64(&mut self) -> u64 {
        ((self.next_u32() as u64) << 32) | self.next_u32() as u64
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest {
            *d = self.next_u32() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
