use crate::{PrimeCurveParams, ProjectivePoint};
use core::borrow::Borrow;
use core::ops::{Mul, Neg};
use elliptic_curve::{
    ff::{Field, PrimeField},
    sec1::{self, EncodedPoint, FromEncodedPoint, ModulusSize, ToEncodedPoint},
    subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption},
    zeroize::DefaultIsZeroes,
    AffineXCoordinate, FieldBytes, FieldSize, Scalar,
};

#[derive(Clone, Copy, Debug)]
pub struct AffinePoint<C: PrimeCurveParams> {
    pub(crate) x: C::FieldElement,
    pub(crate) y: C::FieldElement,
    pub(crate) infinity: u8,
}
impl<C: PrimeCurveParams> AffinePoint<C> {
    pub const IDENTITY: Self = Self { x: C::ZERO, y: C::ZERO, infinity: 1 };
    pub const GENERATOR: Self = Self { x: C::GENERATOR.0, y: C::GENERATOR.1, infinity: 0 };
    pub fn is_identity(&self) -> Choice {
        Choice::from(self.infinity)
    }
    fn decompress(x_bytes: &FieldBytes<C>, y_is_odd: Choice) -> CtOption<Self> {
        C::FieldElement::from_repr(x_bytes.clone()).and_then(|x| {
            let alpha = x * &x * &x + &(C::EQUATION_A * &x) + &C::EQUATION_B;
            let beta = alpha.sqrt();
            beta.map(|beta| {
                let y = C::FieldElement::conditional_select(&-beta, &beta, beta.is_odd().ct_eq(&y_is_odd));
                Self { x, y, infinity: 0 }
            })
        })
    }
}
impl<C: PrimeCurveParams> AffineXCoordinate<C> for AffinePoint<C> {
    fn x(&self) -> FieldBytes<C> {
        self.x.to_repr()
    }
}
impl<C: PrimeCurveParams> ConditionallySelectable for AffinePoint<C> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        Self {
            x: C::FieldElement::conditional_select(&a.x, &b.x, c),
            y: C::FieldElement::conditional_select(&a.y, &b.y, c),
            infinity: u8::conditional_select(&a.infinity, &b.infinity, c),
        }
    }
}
impl<C: PrimeCurveParams> ConstantTimeEq for AffinePoint<C> {
    fn ct_eq(&self, o: &Self) -> Choice {
        self.x.ct_eq(&o.x) & self.y.ct_eq(&o.y) & self.infinity.ct_eq(&o.infinity)
    }
}
impl<C: PrimeCurveParams> Default for AffinePoint<C> {
    fn default() -> Self {
        Self::IDENTITY
    }
}
impl<C: PrimeCurveParams> DefaultIsZeroes for AffinePoint<C> {}
impl<C: PrimeCurveParams> Eq for AffinePoint<C> {}
impl<C: PrimeCurveParams> PartialEq for AffinePoint<C> {
    fn eq(&self, o: &Self) -> bool {
        self.ct_eq(o).into()
    }
}
impl<C: PrimeCurveParams> Neg for AffinePoint<C> {
    type Output = Self;
    fn neg(self) -> Self {
        Self { x: self.x, y: -self.y, infinity: self.infinity }
    }
}
impl<C: PrimeCurveParams, S: Borrow<Scalar<C>>> Mul<S> for AffinePoint<C> {
    type Output = ProjectivePoint<C>;
    fn mul(self, s: S) -> ProjectivePoint<C> {
        ProjectivePoint::from(self) * *s.borrow()
    }
}
impl<C: PrimeCurveParams> FromEncodedPoint<C> for AffinePoint<C>
where
    FieldSize<C>: ModulusSize,
{
    fn from_encoded_point(p: &EncodedPoint<C>) -> CtOption<Self> {
        match p.coordinates() {
            sec1::Coordinates::Identity => CtOption::new(Self::IDENTITY, 1.into()),
            sec1::Coordinates::Compact { .. } => CtOption::new(Self::IDENTITY, 0.into()),
            sec1::Coordinates::Compressed { x, y_is_odd } => Self::decompress(x, Choice::from(y_is_odd as u8)),
            sec1::Coordinates::Uncompressed { x, y } => C::FieldElement::from_repr(y.clone()).and_then(|y| {
                Self::decompress(x, y.is_odd()).and_then(|pt| CtOption::new(pt, pt.y.ct_eq(&y)))
            }),
        }
    }
}
impl<C: PrimeCurveParams> ToEncodedPoint<C> for AffinePoint<C>
where
    FieldSize<C>: ModulusSize,
{
    fn to_encoded_point(&self, compress: bool) -> EncodedPoint<C> {
        if self.is_identity().into() {
            return EncodedPoint::<C>::identity();
        }
        EncodedPoint::<C>::from_affine_coordinates(&self.x.to_repr(), &self.y.to_repr(), compress)
    }
}
