//! What can be seen of a value from outside: the encoding of private parts is the code's own business.
use barbarosa::cube_n::moves::rotation::AxisRotation;
use barbarosa::cube_n::moves::{Amount, ExtendedAxisMove};
use barbarosa::cube_n::space::{Axis, Face};
use barbarosa::cube_n::{AxisMove, WideAxisMove};

pub trait View {
    type Seen;
    fn view(&self) -> Self::Seen;
}
macro_rules! plain {
    ($($t:ty),*) => {$(
        impl View for $t {
            type Seen = $t;
            fn view(&self) -> $t {
                self.clone()
            }
        }
    )*};
}
plain!(AxisMove, AxisRotation, Amount, Axis, Face, u32);

pub struct Wide {
    pub axis_move: AxisMove,
    pub depth: u32,
}
impl<const N: u32> View for WideAxisMove<N> {
    type Seen = Wide;
    fn view(&self) -> Wide {
        Wide { axis_move: AxisMove::new(self.face().clone(), self.amount()), depth: self.depth() }
    }
}
pub enum Extended {
    Regular(AxisMove),
    Rotation(AxisRotation),
    Wide(Wide),
    Slice { rot: AxisRotation, wide: bool },
}
impl View for ExtendedAxisMove {
    type Seen = Extended;
    fn view(&self) -> Extended {
        match self {
            ExtendedAxisMove::Regular(m) => Extended::Regular(m.clone()),
            ExtendedAxisMove::Rotation(r) => Extended::Rotation(r.clone()),
            ExtendedAxisMove::Wide(w) => Extended::Wide(w.view()),
            ExtendedAxisMove::Slice { rot, wide } => Extended::Slice { rot: rot.clone(), wide: *wide },
        }
    }
}
/// all moves of an alg
pub fn all<M: View>(moves: &[M]) -> Vec<M::Seen> {
    let mut v = Vec::with_capacity(moves.len());
    for m in moves {
        v.push(m.view());
    }
    v
}
