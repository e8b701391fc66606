//! Random small parameters, keys and values for the tfhe scenarios.
use num::Complex;
use simrt::Rng;
use sunscreen_tfhe::entities::*;
use sunscreen_tfhe::rand::Stddev;
use sunscreen_tfhe::{
    GlweDef, GlweDimension, GlweSize, LweDef, LweDimension, PolynomialDegree, RadixCount,
    RadixDecomposition, RadixLog, Torus,
};

pub type C64 = Complex<f64>;

/// The bytes of a value without padding or invalid bit patterns (torus elements, integers, floats).
pub fn bytes<T: ?Sized>(x: &T) -> Vec<u8> {
    unsafe {
        std::slice::from_raw_parts(x as *const T as *const u8, std::mem::size_of_val(x)).to_vec()
    }
}

fn bytes_mut<T: ?Sized>(x: &mut T) -> &mut [u8] {
    unsafe { std::slice::from_raw_parts_mut(x as *mut T as *mut u8, std::mem::size_of_val(x)) }
}

/// Fill with random bytes (integer types).
pub fn fill<T: ?Sized>(x: &mut T, r: &mut Rng) {
    r.fill(bytes_mut(x));
}

/// Fill with random bits.
pub fn fill_bits(x: &mut [u64], r: &mut Rng) {
    for v in x {
        *v = r.u64() & 1;
    }
}

/// What an earlier computation left in an output buffer: nothing, or anything.
pub struct Dirt(pub Option<Rng>);

impl Dirt {
    pub fn on<T: ?Sized>(&mut self, x: &mut T) {
        if let Some(r) = &mut self.0 {
            match r.below(3) {
                0 => bytes_mut(x).fill(0xff),
                1 => bytes_mut(x).fill(0x3c),
                _ => r.fill(bytes_mut(x)),
            }
        }
    }
}

pub fn radix(r: &mut Rng, max_bits: usize) -> RadixDecomposition {
    let count = r.range(1, 3);
    RadixDecomposition {
        count: RadixCount(count),
        radix_log: RadixLog(r.range(1, (max_bits / count).min(16))),
    }
}

pub fn lwe(r: &mut Rng) -> LweDef {
    LweDef { dim: LweDimension(r.range(1, 6)), std: Stddev(1e-12) }
}

pub fn glwe(r: &mut Rng) -> GlweDef {
    GlweDef {
        dim: GlweDimension {
            size: GlweSize(r.range(1, 3)),
            polynomial_degree: PolynomialDegree(1 << r.range(3, 6)),
        },
        std: Stddev(1e-12),
    }
}

/// Parameters and (arbitrary) key material of one run.
pub struct World {
    pub l0: LweDef,
    pub l1: LweDef,
    pub g1: GlweDef,
    pub g2: GlweDef,
    pub pbs: RadixDecomposition,
    pub cbs: RadixDecomposition,
    pub ks: RadixDecomposition,
    pub ss: RadixDecomposition,
    pub tr: RadixDecomposition,
    pub sk0: LweSecretKey<u64>,
    pub sk1: GlweSecretKey<u64>,
    pub sk2: GlweSecretKey<u64>,
    pub bsk1: BootstrapKeyFft<C64>,
    pub bsk2: BootstrapKeyFft<C64>,
    pub ak: AutomorphismKeyFft<C64>,
    pub ssk: SchemeSwitchKey<u64>,
    pub ssk_fft: SchemeSwitchKeyFft<C64>,
    pub ksk: LweKeyswitchKey<u64>,
    pub gksk: GlweKeyswitchKey<u64>,
    pub gksk_fft: GlweKeyswitchKeyFft<C64>,
    pub cbsksk: CircuitBootstrappingKeyswitchKeys<u64>,
    pub pufksk: PublicFunctionalKeyswitchKey<u64>,
}

/// A new entity with random contents.
#[macro_export]
macro_rules! rnd {
    ($r:expr, $e:expr) => {{
        let mut x = $e;
        $crate::tfhe::fill(&mut *x, $r);
        x
    }};
}

impl World {
    pub fn new(r: &mut Rng) -> World {
        let (l0, g1) = (lwe(r), glwe(r));
        let mut g2 = glwe(r);
        g2.dim.polynomial_degree.0 = g2.dim.polynomial_degree.0.max(g1.dim.polynomial_degree.0);
        let l1 = g1.as_lwe_def();
        let (pbs, cbs, ks, ss, tr) =
            (radix(r, 40), radix(r, 24), radix(r, 40), radix(r, 40), radix(r, 40));
        let mut sk0 = LweSecretKey::<u64>::generate_binary(&l0);
        let mut sk1 = GlweSecretKey::<u64>::generate_binary(&g1);
        let mut sk2 = GlweSecretKey::<u64>::generate_binary(&g2);
        for x in [bytes_mut(&mut *sk0), bytes_mut(&mut *sk1), bytes_mut(&mut *sk2)] {
            for c in x.chunks_mut(8) {
                c.fill(0);
                c[0] = r.bool() as u8;
            }
        }
        let mut bsk1 = BootstrapKeyFft::new(&l0, &g1, &pbs);
        rnd!(r, BootstrapKey::<u64>::new(&l0, &g1, &pbs)).fft(&mut bsk1, &l0, &g1, &pbs);
        let mut bsk2 = BootstrapKeyFft::new(&l0, &g2, &pbs);
        rnd!(r, BootstrapKey::<u64>::new(&l0, &g2, &pbs)).fft(&mut bsk2, &l0, &g2, &pbs);
        let mut ak = AutomorphismKeyFft::new(&g1, &tr);
        rnd!(r, AutomorphismKey::<u64>::new(&g1, &tr)).fft(&mut ak, &g1, &tr);
        let ssk = rnd!(r, SchemeSwitchKey::<u64>::new(&g1, &ss));
        let mut ssk_fft = SchemeSwitchKeyFft::new(&g1, &ss);
        ssk.fft(&mut ssk_fft, &g1, &ss);
        let gksk = rnd!(r, GlweKeyswitchKey::<u64>::new(&g1, &ks));
        let mut gksk_fft = GlweKeyswitchKeyFft::new(&g1, &ks);
        gksk.fft(&mut gksk_fft, &g1, &ks);
        World {
            bsk1,
            bsk2,
            ak,
            ssk,
            ssk_fft,
            gksk,
            gksk_fft,
            ksk: rnd!(r, LweKeyswitchKey::<u64>::new(&l1, &l0, &ks)),
            cbsksk: rnd!(r, CircuitBootstrappingKeyswitchKeys::<u64>::new(&g2.as_lwe_def(), &g1, &ks)),
            pufksk: rnd!(r, PublicFunctionalKeyswitchKey::<u64>::new(&l0, &g1, &ks)),
            l0,
            l1,
            g1,
            g2,
            pbs,
            cbs,
            ks,
            ss,
            tr,
            sk0,
            sk1,
            sk2,
        }
    }

    pub fn glwe(&self, r: &mut Rng) -> GlweCiphertext<u64> {
        rnd!(r, GlweCiphertext::<u64>::new(&self.g1))
    }
    pub fn glev(&self, r: &mut Rng) -> GlevCiphertext<u64> {
        rnd!(r, GlevCiphertext::<u64>::new(&self.g1, &self.cbs))
    }
    pub fn ggsw(&self, r: &mut Rng) -> GgswCiphertext<u64> {
        rnd!(r, GgswCiphertext::<u64>::new(&self.g1, &self.cbs))
    }
    pub fn ggsw_fft(&self, r: &mut Rng) -> GgswCiphertextFft<C64> {
        let mut f = GgswCiphertextFft::new(&self.g1, &self.cbs);
        self.ggsw(r).fft(&mut f, &self.g1, &self.cbs);
        f
    }
    pub fn lwe0(&self, r: &mut Rng) -> LweCiphertext<u64> {
        rnd!(r, LweCiphertext::<u64>::new(&self.l0))
    }
    pub fn lwe1(&self, r: &mut Rng) -> LweCiphertext<u64> {
        rnd!(r, LweCiphertext::<u64>::new(&self.l1))
    }
    pub fn poly(&self, r: &mut Rng) -> Polynomial<u64> {
        rnd!(r, Polynomial::<u64>::zero(self.g1.dim.polynomial_degree.0))
    }
    pub fn tpoly(&self, r: &mut Rng) -> Polynomial<Torus<u64>> {
        rnd!(r, Polynomial::<Torus<u64>>::zero(self.g1.dim.polynomial_degree.0))
    }
    pub fn bit_poly(&self, r: &mut Rng) -> Polynomial<u64> {
        let mut p = Polynomial::<u64>::zero(self.g1.dim.polynomial_degree.0);
        fill_bits(p.coeffs_mut(), r);
        p
    }
}
