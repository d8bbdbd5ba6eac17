use crate::{AffinePoint, PrimeCurveParams};
use core::borrow::Borrow;
use core::iter::Sum;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use elliptic_curve::{
    bigint::Encoding,
    ff::Field,
    group::{self, Group},
    ops::LinearCombination,
    rand_core::RngCore,
    subtle::{Choice, ConditionallySelectable, ConstantTimeEq},
    zeroize::DefaultIsZeroes,
    Curve, Scalar,
};

#[derive(Clone, Copy, Debug)]
pub struct ProjectivePoint<C: PrimeCurveParams> {
    x: C::FieldElement,
    y: C::FieldElement,
    z: C::FieldElement,
}
impl<C: PrimeCurveParams> ProjectivePoint<C> {
    pub const IDENTITY: Self = Self { x: C::ZERO, y: C::ONE, z: C::ZERO };
    pub const GENERATOR: Self = Self { x: C::GENERATOR.0, y: C::GENERATOR.1, z: C::ONE };
    pub fn to_affine(&self) -> AffinePoint<C> {
        self.z
            .invert()
            .map(|zi| AffinePoint { x: self.x * &zi, y: self.y * &zi, infinity: 0 })
            .unwrap_or(AffinePoint::IDENTITY)
    }
    // Algorithm 1 of https://eprint.iacr.org/2015/1060 (complete, arbitrary a)
    fn add_(&self, o: &Self) -> Self {
        let (a, b3) = (C::EQUATION_A, C::EQUATION_B + &C::EQUATION_B + &C::EQUATION_B);
        let (x1, y1, z1) = (self.x, self.y, self.z);
        let (x2, y2, z2) = (o.x, o.y, o.z);
        let mut t0 = x1 * &x2;
        let mut t1 = y1 * &y2;
        let mut t2 = z1 * &z2;
        let mut t3 = (x1 + &y1) * &(x2 + &y2);
        let mut t4 = t0 + &t1;
        t3 = t3 - &t4;
        t4 = (x1 + &z1) * &(x2 + &z2);
        let mut t5 = t0 + &t2;
        t4 = t4 - &t5;
        t5 = (y1 + &z1) * &(y2 + &z2);
        let mut x3 = t1 + &t2;
        t5 = t5 - &x3;
        let mut z3 = a * &t4;
        x3 = b3 * &t2;
        z3 = x3 + &z3;
        x3 = t1 - &z3;
        z3 = t1 + &z3;
        let mut y3 = x3 * &z3;
        t1 = t0 + &t0;
        t1 = t1 + &t0;
        t2 = a * &t2;
        t4 = b3 * &t4;
        t1 = t1 + &t2;
        t2 = t0 - &t2;
        t2 = a * &t2;
        t4 = t4 + &t2;
        t0 = t1 * &t4;
        y3 = y3 + &t0;
        t0 = t5 * &t4;
        x3 = t3 * &x3;
        x3 = x3 - &t0;
        t0 = t3 * &t1;
        z3 = t5 * &z3;
        z3 = z3 + &t0;
        Self { x: x3, y: y3, z: z3 }
    }
    fn mul_(&self, k: &Scalar<C>) -> Self {
        let kb: <C as Curve>::UInt = (*k).into();
        let kb = kb.to_be_bytes();
        let mut pc = [Self::IDENTITY; 16];
        for i in 1..16 {
            pc[i] = pc[i - 1].add_(self);
        }
        let mut q = Self::IDENTITY;
        for byte in kb.as_ref() {
            for nib in [byte >> 4, byte & 15] {
                for _ in 0..4 {
                    q = q.add_(&q);
                }
                q = q.add_(&pc[nib as usize]);
            }
        }
        q
    }
}
impl<C: PrimeCurveParams> ConditionallySelectable for ProjectivePoint<C> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        Self {
            x: C::FieldElement::conditional_select(&a.x, &b.x, c),
            y: C::FieldElement::conditional_select(&a.y, &b.y, c),
            z: C::FieldElement::conditional_select(&a.z, &b.z, c),
        }
    }
}
impl<C: PrimeCurveParams> ConstantTimeEq for ProjectivePoint<C> {
    fn ct_eq(&self, o: &Self) -> Choice {
        self.to_affine().ct_eq(&o.to_affine())
    }
}
impl<C: PrimeCurveParams> Default for ProjectivePoint<C> {
    fn default() -> Self {
        Self::IDENTITY
    }
}
impl<C: PrimeCurveParams> DefaultIsZeroes for ProjectivePoint<C> {}
impl<C: PrimeCurveParams> Eq for ProjectivePoint<C> {}
impl<C: PrimeCurveParams> PartialEq for ProjectivePoint<C> {
    fn eq(&self, o: &Self) -> bool {
        self.ct_eq(o).into()
    }
}
impl<C: PrimeCurveParams> From<AffinePoint<C>> for ProjectivePoint<C> {
    fn from(p: AffinePoint<C>) -> Self {
        let q = Self { x: p.x, y: p.y, z: C::ONE };
        Self::conditional_select(&q, &Self::IDENTITY, p.is_identity())
    }
}
impl<C: PrimeCurveParams> From<&AffinePoint<C>> for ProjectivePoint<C> {
    fn from(p: &AffinePoint<C>) -> Self {
        (*p).into()
    }
}
impl<C: PrimeCurveParams> From<ProjectivePoint<C>> for AffinePoint<C> {
    fn from(p: ProjectivePoint<C>) -> Self {
        p.to_affine()
    }
}
impl<C: PrimeCurveParams> From<&ProjectivePoint<C>> for AffinePoint<C> {
    fn from(p: &ProjectivePoint<C>) -> Self {
        p.to_affine()
    }
}
impl<C: PrimeCurveParams> Group for ProjectivePoint<C> {
    type Scalar = Scalar<C>;
    fn random(mut rng: impl RngCore) -> Self {
        Self::GENERATOR * <Scalar<C> as Field>::random(&mut rng)
    }
    fn identity() -> Self {
        Self::IDENTITY
    }
    fn generator() -> Self {
        Self::GENERATOR
    }
    fn is_identity(&self) -> Choice {
        self.z.is_zero()
    }
    fn double(&self) -> Self {
        self.add_(self)
    }
}
impl<C: PrimeCurveParams> group::Curve for ProjectivePoint<C> {
    type AffineRepr = AffinePoint<C>;
    fn to_affine(&self) -> AffinePoint<C> {
        ProjectivePoint::to_affine(self)
    }
}
impl<C: PrimeCurveParams> LinearCombination for ProjectivePoint<C> {}
macro_rules! ops {
    ($rhs:ty, $conv:expr) => {
        impl<C: PrimeCurveParams> Add<$rhs> for ProjectivePoint<C> {
            type Output = Self;
            fn add(self, o: $rhs) -> Self {
                self.add_(&$conv(o))
            }
        }
        impl<C: PrimeCurveParams> Sub<$rhs> for ProjectivePoint<C> {
            type Output = Self;
            fn sub(self, o: $rhs) -> Self {
                self.add_(&-$conv(o))
            }
        }
        impl<C: PrimeCurveParams> AddAssign<$rhs> for ProjectivePoint<C> {
            fn add_assign(&mut self, o: $rhs) {
                *self = self.add_(&$conv(o))
            }
        }
        impl<C: PrimeCurveParams> SubAssign<$rhs> for ProjectivePoint<C> {
            fn sub_assign(&mut self, o: $rhs) {
                *self = self.add_(&-$conv(o))
            }
        }
    };
}
ops!(ProjectivePoint<C>, |p: ProjectivePoint<C>| p);
ops!(&ProjectivePoint<C>, |p: &ProjectivePoint<C>| *p);
ops!(AffinePoint<C>, |p: AffinePoint<C>| ProjectivePoint::from(p));
ops!(&AffinePoint<C>, |p: &AffinePoint<C>| ProjectivePoint::from(*p));
impl<C: PrimeCurveParams> Add<&ProjectivePoint<C>> for &ProjectivePoint<C> {
    type Output = ProjectivePoint<C>;
    fn add(self, o: &ProjectivePoint<C>) -> ProjectivePoint<C> {
        self.add_(o)
    }
}
impl<C: PrimeCurveParams, S: Borrow<Scalar<C>>> Mul<S> for ProjectivePoint<C> {
    type Output = Self;
    fn mul(self, s: S) -> Self {
        self.mul_(s.borrow())
    }
}
impl<C: PrimeCurveParams, S: Borrow<Scalar<C>>> MulAssign<S> for ProjectivePoint<C> {
    fn mul_assign(&mut self, s: S) {
        *self = self.mul_(s.borrow())
    }
}
impl<C: PrimeCurveParams> Neg for ProjectivePoint<C> {
    type Output = Self;
    fn neg(self) -> Self {
        Self { x: self.x, y: -self.y, z: self.z }
    }
}
impl<C: PrimeCurveParams> Neg for &ProjectivePoint<C> {
    type Output = ProjectivePoint<C>;
    fn neg(self) -> ProjectivePoint<C> {
        -*self
    }
}
impl<C: PrimeCurveParams> Sum for ProjectivePoint<C> {
    fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(Self::IDENTITY, |a, b| a + b)
    }
}
impl<'a, C: PrimeCurveParams> Sum<&'a ProjectivePoint<C>> for ProjectivePoint<C> {
    fn sum<I: Iterator<Item = &'a Self>>(it: I) -> Self {
        it.fold(Self::IDENTITY, |a, b| a + b)
    }
}
