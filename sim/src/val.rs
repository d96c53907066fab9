//! The common representation of parsed values: the library's results and the model's are
//! both turned into it.
use binread::{punctuated::Punctuated, BinRead, FilePtr, NullString, NullWideString, PosValue};
use std::collections::VecDeque;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Val {
    /// raw bits of a number
    N(u128),
    U,
    /// vectors, deques, arrays, tuples
    L(Vec<Val>),
    /// a struct's stored fields
    S(Vec<Val>),
    /// enum variant
    V(u32, Vec<Val>),
    O(Option<Box<Val>>),
    /// file pointer: stored pointer, target
    P(u128, Option<Box<Val>>),
    /// position and value
    At(u64, Box<Val>),
    Pn(Vec<Val>, Vec<Val>),
    B(Vec<u8>),
    W(Vec<u16>),
}

impl Val {
    pub fn fold(&self, h: &mut u64) {
        fn m(h: &mut u64, x: u64) {
            *h = (*h ^ x).wrapping_mul(0x0000_0100_0000_01b3);
            *h ^= *h >> 29;
        }
        fn list(h: &mut u64, t: u64, v: &[Val]) {
            m(h, t);
            m(h, v.len() as u64);
            v.iter().for_each(|x| x.fold(h));
        }
        match self {
            Val::N(x) => {
                m(h, *x as u64);
                m(h, (*x >> 64) as u64);
            }
            Val::U => m(h, 11),
            Val::L(v) => list(h, 1, v),
            Val::S(v) => list(h, 2, v),
            Val::V(i, v) => list(h, 100 + u64::from(*i), v),
            Val::O(None) => m(h, 3),
            Val::O(Some(v)) => {
                m(h, 4);
                v.fold(h)
            }
            Val::P(p, t) => {
                m(h, 5);
                m(h, *p as u64);
                match t {
                    None => m(h, 6),
                    Some(t) => t.fold(h),
                }
            }
            Val::At(p, v) => {
                m(h, *p);
                v.fold(h)
            }
            Val::Pn(a, b) => {
                list(h, 7, a);
                list(h, 8, b)
            }
            Val::B(v) => {
                m(h, 9);
                v.iter().for_each(|x| m(h, u64::from(*x)));
            }
            Val::W(v) => {
                m(h, 10);
                v.iter().for_each(|x| m(h, u64::from(*x)));
            }
        }
    }
    pub fn hash64(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325;
        self.fold(&mut h);
        h ^ (h >> 32)
    }
    /// What expressions in formats see of a value.
    pub fn zh(&self) -> i64 {
        (self.hash64() & 0x7fff_ffff) as i64
    }
}

pub trait ToVal {
    fn val(&self) -> Val;
}

pub fn zh<T: ToVal>(x: &T) -> i64 {
    x.val().zh()
}

macro_rules! num {
    ($($t:ty => $u:ty),*) => { $(
        impl ToVal for $t {
            fn val(&self) -> Val {
                Val::N((*self as $u) as u128)
            }
        }
    )* };
}
num!(u8 => u8, u16 => u16, u32 => u32, u64 => u64, u128 => u128, i8 => u8, i16 => u16, i32 => u32, i64 => u64, i128 => u128);

impl ToVal for f32 {
    fn val(&self) -> Val {
        Val::N(u128::from(self.to_bits()))
    }
}
impl ToVal for f64 {
    fn val(&self) -> Val {
        Val::N(u128::from(self.to_bits()))
    }
}
impl ToVal for char {
    fn val(&self) -> Val {
        Val::N(u128::from(*self as u32))
    }
}
impl ToVal for std::num::NonZeroU8 {
    fn val(&self) -> Val {
        Val::N(u128::from(self.get()))
    }
}
impl ToVal for std::num::NonZeroU16 {
    fn val(&self) -> Val {
        Val::N(u128::from(self.get()))
    }
}
impl ToVal for () {
    fn val(&self) -> Val {
        Val::U
    }
}
impl<T> ToVal for std::marker::PhantomData<T> {
    fn val(&self) -> Val {
        Val::U
    }
}
impl<T: ToVal> ToVal for Vec<T> {
    fn val(&self) -> Val {
        Val::L(self.iter().map(ToVal::val).collect())
    }
}
impl<T: ToVal> ToVal for VecDeque<T> {
    fn val(&self) -> Val {
        Val::L(self.iter().map(ToVal::val).collect())
    }
}
impl<T: ToVal, const N: usize> ToVal for [T; N] {
    fn val(&self) -> Val {
        Val::L(self.iter().map(ToVal::val).collect())
    }
}
impl<T: ToVal> ToVal for Box<T> {
    fn val(&self) -> Val {
        (**self).val()
    }
}
impl<T: ToVal> ToVal for Option<T> {
    fn val(&self) -> Val {
        Val::O(self.as_ref().map(|x| Box::new(x.val())))
    }
}
impl ToVal for NullString {
    fn val(&self) -> Val {
        Val::B((**self).clone())
    }
}
impl ToVal for NullWideString {
    fn val(&self) -> Val {
        Val::W((**self).clone())
    }
}
impl<P: ToVal + binread::file_ptr::IntoSeekFrom, T: BinRead + ToVal> ToVal for FilePtr<P, T> {
    fn val(&self) -> Val {
        let p = match self.ptr.val() {
            Val::N(x) => x,
            _ => unreachable!(),
        };
        // what a user sees is what Deref gives
        Val::P(p, self.value.as_ref().map(|_| Box::new((**self).val())))
    }
}
impl<T: ToVal> ToVal for PosValue<T> {
    fn val(&self) -> Val {
        Val::At(self.pos, Box::new((**self).val()))
    }
}
impl<A: BinRead + ToVal, B: BinRead + ToVal> ToVal for Punctuated<A, B> {
    fn val(&self) -> Val {
        Val::Pn(self.iter().map(ToVal::val).collect(), self.seperators.iter().map(ToVal::val).collect())
    }
}

macro_rules! tuples {
    ($($t:ident)*; $($n:tt)*) => {
        impl<$($t: ToVal),*> ToVal for ($($t,)*) {
            fn val(&self) -> Val {
                Val::L(vec![$(self.$n.val()),*])
            }
        }
    };
}
tuples!(A; 0);
tuples!(A B; 0 1);
tuples!(A B C; 0 1 2);
tuples!(A B C D; 0 1 2 3);
tuples!(A B C D E; 0 1 2 3 4);
tuples!(A B C D E F; 0 1 2 3 4 5);
tuples!(A B C D E F G; 0 1 2 3 4 5 6);
tuples!(A B C D E F G H; 0 1 2 3 4 5 6 7);
tuples!(A B C D E F G H I; 0 1 2 3 4 5 6 7 8);
tuples!(A B C D E F G H I J; 0 1 2 3 4 5 6 7 8 9);
tuples!(A B C D E F G H I J K; 0 1 2 3 4 5 6 7 8 9 10);
tuples!(A B C D E F G H I J K L; 0 1 2 3 4 5 6 7 8 9 10 11);
