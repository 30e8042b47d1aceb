use rmath::rand::{Iter, IterSource, RandErrKind, RandError, Result, Seed, Source};

/// scripted source: plays `script` (a negative entry is an error), then a xorshift stream
pub struct ScriptRng {
    pub script: Vec<i128>,
    pub pos: usize,
    pub s: u64,
    pub drawn: u64,
}

impl ScriptRng {
    pub fn new(script: Vec<i128>, seed: u64) -> ScriptRng {
        ScriptRng { script, pos: 0, s: seed | 1, drawn: 0 }
    }
}

impl Source<u32> for ScriptRng {
    fn gen(&mut self) -> Result<u32> {
        self.drawn += 1;
        if self.pos < self.script.len() {
            let x = self.script[self.pos];
            self.pos += 1;
            if x < 0 {
                return Err(RandError::new(RandErrKind::NoNewRandNumberGen, "scripted"));
            }
            return Ok(x as u32);
        }
        self.s ^= self.s << 13;
        self.s ^= self.s >> 7;
        self.s ^= self.s << 17;
        Ok((self.s.wrapping_mul(0x2545F4914F6CDD1D) >> 32) as u32)
    }
    fn reset<Sd: Seed<u32>>(&mut self, sd: &Sd) -> Result<()> {
        sd.seed().map(|x| {
            self.s = (x as u64) | 1;
            self.pos = self.script.len();
        })
    }
}

impl IterSource<u32> for ScriptRng {
    fn iter_mut(&mut self) -> Iter<'_, Self, u32> {
        Iter::new(self)
    }
}
