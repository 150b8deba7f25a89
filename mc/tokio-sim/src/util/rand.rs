cfg_rt! {
    mod rt;
    pub(crate) use rt::RngSeedGenerator;

    cfg_unstable! {
        mod rt_unstable;
    }
}

#[allow(unreachable_pub)]
#[derive(Clone, Debug)]
pub struct RngSeed {
    s: u32,
    r: u32,
}

#[derive(Clone, Copy, Debug)]
pub(crate) struct FastRand {
    one: u32,
    two: u32,
}

impl RngSeed {
    pub(crate) fn new() -> Self {
        Self::from_u64(crate::loom::rand::seed())
    }

    fn from_u64(seed: u64) -> Self {
        let one = (seed >> 32) as u32;
        let two = seed as u32;

        Self::from_pair(one, two)
    }

    fn from_pair(s: u32, r: u32) -> Self {
        if s == 0 && r == 0 {
            Self { s: 0, r: 1 }
        } else {
            Self { s, r }
        }
    }
}

impl FastRand {
    pub(crate) fn new() -> FastRand {
        FastRand::from_seed(RngSeed::new())
    }

    pub(crate) fn from_seed(seed: RngSeed) -> FastRand {
        FastRand {
            one: seed.s,
            two: seed.r,
        }
    }

    #[cfg(any(feature = "macros", feature = "sync", feature = "rt"))]
    pub(crate) fn fastrand_n(&mut self, n: u32) -> u32 {
        // This is similar to fastrand() % n, but faster.
        // See https://lemire.me/blog/2016/06/27/a-fast-alternative-to-the-modulo-reduction/
        let mul = (self.fastrand() as u64).wrapping_mul(n as u64);
        (mul >> 32) as u32
    }

    fn fastrand(&mut self) -> u32 {
        let mut s1 = self.one;
        let s0 = self.two;

        s1 ^= s1 << 17;
        s1 = s1 ^ s0 ^ s1 >> 7 ^ s0 >> 16;

        self.one = s0;
        self.two = s1;

        s0.wrapping_add(s1)
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn non_zero_seed_from_u64() {
        let seed = RngSeed::from_u64(0);
        assert_eq!(seed.s, 0);
        assert_eq!(seed.r, 1);
    }

    #[test]
    fn non_zero_seed_from_pair() {
        let seed = RngSeed::from_pair(0, 0);
        assert_eq!(seed.s, 0);
        assert_eq!(seed.r, 1);
    }
}
