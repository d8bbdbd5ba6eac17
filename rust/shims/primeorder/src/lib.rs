//! Offline stand-in for the `primeorder` fork the tree depends on (git, not reachable here).
//! Short-Weierstrass arithmetic over the caller's field with the complete formulas of
//! Renes-Costello-Batina (any a, b); field arithmetic, constants and scalars come from the caller.
#![allow(clippy::many_single_char_names)]
mod affine;
mod projective;
pub use affine::AffinePoint;
pub use elliptic_curve::{self, Field, FieldBytes, PrimeCurve, PrimeField};
use elliptic_curve::{AffineArithmetic, ProjectiveArithmetic};
pub use projective::ProjectivePoint;

pub trait PrimeCurveParams:
    PrimeCurve
    + ProjectiveArithmetic<ProjectivePoint = ProjectivePoint<Self>>
    + AffineArithmetic<AffinePoint = AffinePoint<Self>>
{
    type FieldElement: PrimeField<Repr = FieldBytes<Self>>;
    const ZERO: Self::FieldElement;
    const ONE: Self::FieldElement;
    const EQUATION_A: Self::FieldElement;
    const EQUATION_B: Self::FieldElement;
    const GENERATOR: (Self::FieldElement, Self::FieldElement);
}
