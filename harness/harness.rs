// Entry points of the analysed program: every public way into nominals, monomorphised.  Nothing
// here is ever executed; the driver resolves it and dumps the MIR that is reachable from it.
#![no_std]
#![allow(non_snake_case, non_camel_case_types, improper_ctypes, clippy::all)]
extern crate nominals;
#[cfg(feature = "alloc")]
extern crate alloc;
use nominals::*;

pub type R<T> = Result<NominalString, Error<T>>;

// functions without a body: the analysis treats them as unknown
extern "Rust" {
    fn vp_digit(id: usize, len: usize, index: usize) -> char;
}

/// An arbitrary digit collection: every answer is unknown but fixed.
pub struct Coll<F> {
    pub fixed: bool,
    pub has_zero: bool,
    pub zero_based: bool,
    pub len: usize,
    pub id: usize,
    pub fb: core::marker::PhantomData<F>,
}
impl<F: DigitCollection + Default> DigitCollection for Coll<F> {
    type Fallback = F;
    fn fixed(&self) -> bool {
        self.fixed
    }
    fn has_zero_digit(&self) -> bool {
        self.has_zero
    }
    fn zero_based(&self) -> bool {
        self.zero_based
    }
    fn len(&self) -> usize {
        self.len
    }
    fn digit(&self, index: usize) -> char {
        unsafe { vp_digit(self.id, self.len, index) }
    }
}
/// Arbitrary fallback collections.
macro_rules! fallbacks {
    ($($n:ident, $next:ty, $f:ident;)*) => {
        extern "Rust" {
            $(fn $f() -> $n;)*
        }
        $(pub struct $n {
            pub fixed: bool,
            pub has_zero: bool,
            pub zero_based: bool,
            pub len: usize,
            pub id: usize,
        }
        impl Default for $n {
            fn default() -> Self {
                unsafe { $f() }
            }
        }
        impl DigitCollection for $n {
            type Fallback = $next;
            fn fixed(&self) -> bool {
                self.fixed
            }
            fn has_zero_digit(&self) -> bool {
                self.has_zero
            }
            fn zero_based(&self) -> bool {
                self.zero_based
            }
            fn len(&self) -> usize {
                self.len
            }
            fn digit(&self, index: usize) -> char {
                unsafe { vp_digit(self.id, self.len, index) }
            }
        })*
    };
}
fallbacks! {
    Fb, NoFallback, vp_default_fb;
    Fb2, NoFallback, vp_default_fb2;
    FbTwo, Fb, vp_default_fbtwo;
    FbSelf, FbSelf, vp_default_fbself;
}
pub type CollNo = Coll<NoFallback>;
pub type CollFb = Coll<Fb>;
pub type CollFb2 = Coll<Fb2>;
pub type CollTwo = Coll<FbTwo>;
pub type CollSelf = Coll<FbSelf>;

macro_rules! per_int {
    ($t:ident, $d:tt) => {
        pub mod $t {
            use super::*;
            type T = $t;
            pub fn e_to_nominal(s: &CollFb, n: T) -> NominalString { n.to_nominal(s) }
            pub fn e_format(s: &CollFb, n: T) -> NominalString { NominalSystem::<T>::format_nominal(s, n) }
            pub fn e_try_to_nominal(s: &CollFb, n: T) -> R<T> { n.try_to_nominal(s) }
            pub fn e_to_nominal_custom(s: &Custom, n: T) -> NominalString { n.to_nominal(s) }
            pub fn e_try_to_nominal_custom(s: &Custom, n: T) -> R<T> { n.try_to_nominal(s) }
            pub fn e_unwrap_or_decimal(r: R<T>) -> NominalString { r.unwrap_or_decimal() }
            pub fn e_into_decimal(r: Error<T>) -> NominalString { r.into_decimal() }
            pub fn e_with_nominal(r: Result<NominalString, OutOfMemoryError>, n: T) -> R<T> { r.with_nominal(n) }
            pub fn e_is_zero(n: T) -> bool { UnsignedInteger::is_zero(n) }
            pub fn e_as_usize(n: T) -> usize { UnsignedInteger::as_usize(n) }
            pub fn e_decimal_of(n: T) -> NominalString { NominalSystem::<T>::format_nominal(&Decimal, n) }

            pub fn e_collno(s: &CollNo, n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(s, n) }
            pub fn e_collfb(s: &CollFb, n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(s, n) }
            pub fn e_colltwo(s: &CollTwo, n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(s, n) }
            pub fn e_collself(s: &CollSelf, n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(s, n) }
            pub fn e_onebased_no(c: CollNo, n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&OneBased::new(c), n) }
            pub fn e_onebased_fb(c: CollFb, n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&c.one_based(), n) }
            pub fn e_restrict_no(k: usize, c: CollNo, n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&Restrict::new(k, c), n) }
            pub fn e_restrict_fb(k: usize, c: CollFb, n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&Restrict::new(k, c), n) }
            pub fn e_chain_no(a: CollNo, b: CollFb, n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&Chain::new(a, b), n) }
            pub fn e_nofallback(s: &NoFallback, n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(s, n) }
            pub fn e_stem_onebased(s: CjkHeavenlyStem, n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&OneBased::new(s), n) }
            pub fn e_letter_onebased(s: LetterUpper, n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&s.one_based(), n) }
            pub fn e_set0t(n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&DigitSet::<0, true>::new([]), n) }
            pub fn e_set0f(n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&DigitSet::<0, false>::zeroless([]), n) }
            pub fn e_set1t(a: [char; 1], n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&DigitSet::<1, true>::new(a), n) }
            pub fn e_set1f(a: [char; 1], n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&DigitSet::<1, false>::zeroless(a), n) }
            pub fn e_set3t(a: [char; 3], n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&DigitSet::<3, true>::new(a), n) }
            pub fn e_set3f(a: [char; 3], n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&DigitSet::<3, false>::zeroless(a), n) }
            pub fn e_set300f(a: [char; 300], n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&OneBased::new(DigitSet::<300, false>::zeroless(a)), n) }

            pub fn e_add0(n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&AdditiveSet::<0>::new([]), n) }
            pub fn e_add1(a: [(&'static str, u128); 1], n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&AdditiveSet::new(a), n) }
            pub fn e_add2(a: [(&'static str, u128); 2], n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&AdditiveSet::new(a), n) }
            pub fn e_add3(a: [(&'static str, u128); 3], n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&AdditiveSet::new(a), n) }
            pub fn e_add40(a: [&'static str; 40], n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&AdditiveSet::new([(a[0], 274877906944), (a[1], 137438953472), (a[2], 68719476736), (a[3], 34359738368), (a[4], 17179869184), (a[5], 8589934592), (a[6], 4294967296), (a[7], 2147483648), (a[8], 1073741824), (a[9], 536870912), (a[10], 268435456), (a[11], 134217728), (a[12], 67108864), (a[13], 33554432), (a[14], 16777216), (a[15], 8388608), (a[16], 4194304), (a[17], 2097152), (a[18], 1048576), (a[19], 524288), (a[20], 262144), (a[21], 131072), (a[22], 65536), (a[23], 32768), (a[24], 16384), (a[25], 8192), (a[26], 4096), (a[27], 2048), (a[28], 1024), (a[29], 512), (a[30], 256), (a[31], 128), (a[32], 64), (a[33], 32), (a[34], 16), (a[35], 8), (a[36], 4), (a[37], 2), (a[38], 1), (a[39], 0)]), n) }
            pub fn e_enum70t(a: [&'static str; 70], n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&EnumeratedSet::<70, true>::new(a), n) }
            pub fn e_enum70f(a: [&'static str; 70], n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&EnumeratedSet::<70, false>::zeroless(a), n) }
            pub fn e_set300t(a: [char; 300], n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&DigitSet::<300, true>::new(a), n) }
            pub fn e_enum0t(n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&EnumeratedSet::<0, true>::new([]), n) }
            pub fn e_enum0f(n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&EnumeratedSet::<0, false>::zeroless([]), n) }
            pub fn e_enum3t(a: [&'static str; 3], n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&EnumeratedSet::<3, true>::new(a), n) }
            pub fn e_enum3f(a: [&'static str; 3], n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(&EnumeratedSet::<3, false>::zeroless(a), n) }

            pub mod other {
                use super::*;
                macro_rules! fmts { ($d($m:ident $k:ty),*) => { $d(pub mod $m { use super::*; pub fn e_fmt(s: &$k, n: T) -> NominalString { NominalSystem::<T>::format_nominal(s, n) } })* } }
                fmts!(additive AdditiveSet<3>, enumt EnumeratedSet<3, true>, enumf EnumeratedSet<3, false>, sett DigitSet<3, true>, setf DigitSet<3, false>,
                    onebased OneBased<CollNo>, restrict Restrict<CollNo>, chain Chain<CollNo, CollFb>, coll CollFb, nofb NoFallback);
            }
            pub mod chinese { use super::*; chinese!(T; SimplifiedChineseInformal SimplifiedChineseFormal TraditionalChineseInformal TraditionalChineseFormal); }
            pub mod sys { use super::*; systems!(T; Decimal EasternArabic Persian Bengali Cambodian CjkDecimal CjkHeavenlyStem CjkEarthlyBranch
                Devanagari Gujarati Gurmukhi Kannada Lao Malayalam Mongolian Myanmar Oriya Tamil Telugu Thai Tibetan
                LetterUpper LetterLower GreekUpper GreekLower Hiragana HiraganaIroha Katakana KatakanaIroha
                HangeulJamo HangeulSyllable HexUpper HexLower
                RomanLower RomanUpper ArmenianLower ArmenianUpper Georgian JapaneseInformal JapaneseFormal
                HangeulFormal HanjaInformal HanjaFormal
                Ethiopic Hebrew CircledNumber DoubleCircledNumber); }

            pub mod errs {
                use super::*;
                pub fn e_eq_zz(a: T, b: T) -> bool { Error::<T>::NoZeroSymbol == Error::<T>::NoZeroSymbol }
                pub fn e_ne_zz(a: T, b: T) -> bool { Error::<T>::NoZeroSymbol != Error::<T>::NoZeroSymbol }
                pub fn e_eq_zm(a: T, b: T) -> bool { Error::<T>::NoZeroSymbol == Error::OutOfMemory(b) }
                pub fn e_ne_zm(a: T, b: T) -> bool { Error::<T>::NoZeroSymbol != Error::OutOfMemory(b) }
                pub fn e_eq_zb(a: T, b: T) -> bool { Error::<T>::NoZeroSymbol == Error::OutOfBounds(b) }
                pub fn e_ne_zb(a: T, b: T) -> bool { Error::<T>::NoZeroSymbol != Error::OutOfBounds(b) }
                pub fn e_clone_z(a: T) -> bool { Clone::clone(&Error::<T>::NoZeroSymbol) == Error::<T>::NoZeroSymbol }
                pub fn e_eq_mz(a: T, b: T) -> bool { Error::OutOfMemory(a) == Error::<T>::NoZeroSymbol }
                pub fn e_ne_mz(a: T, b: T) -> bool { Error::OutOfMemory(a) != Error::<T>::NoZeroSymbol }
                pub fn e_eq_mm(a: T, b: T) -> bool { Error::OutOfMemory(a) == Error::OutOfMemory(b) }
                pub fn e_ne_mm(a: T, b: T) -> bool { Error::OutOfMemory(a) != Error::OutOfMemory(b) }
                pub fn e_eq_mb(a: T, b: T) -> bool { Error::OutOfMemory(a) == Error::OutOfBounds(b) }
                pub fn e_ne_mb(a: T, b: T) -> bool { Error::OutOfMemory(a) != Error::OutOfBounds(b) }
                pub fn e_clone_m(a: T) -> bool { Clone::clone(&Error::OutOfMemory(a)) == Error::OutOfMemory(a) }
                pub fn e_eq_bz(a: T, b: T) -> bool { Error::OutOfBounds(a) == Error::<T>::NoZeroSymbol }
                pub fn e_ne_bz(a: T, b: T) -> bool { Error::OutOfBounds(a) != Error::<T>::NoZeroSymbol }
                pub fn e_eq_bm(a: T, b: T) -> bool { Error::OutOfBounds(a) == Error::OutOfMemory(b) }
                pub fn e_ne_bm(a: T, b: T) -> bool { Error::OutOfBounds(a) != Error::OutOfMemory(b) }
                pub fn e_eq_bb(a: T, b: T) -> bool { Error::OutOfBounds(a) == Error::OutOfBounds(b) }
                pub fn e_ne_bb(a: T, b: T) -> bool { Error::OutOfBounds(a) != Error::OutOfBounds(b) }
                pub fn e_clone_b(a: T) -> bool { Clone::clone(&Error::OutOfBounds(a)) == Error::OutOfBounds(a) }
            }

            #[cfg(feature = "alloc")]
            pub mod dynamic {
                use super::*;
                pub fn e_box_try(s: &alloc::boxed::Box<dyn NominalSystem<T>>, n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(s, n) }
                pub fn e_box_fmt(s: &alloc::boxed::Box<dyn NominalSystem<T>>, n: T) -> NominalString { NominalSystem::<T>::format_nominal(s, n) }
                pub fn e_rc_try(s: &alloc::rc::Rc<dyn NominalSystem<T>>, n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(s, n) }
                pub fn e_rc_fmt(s: &alloc::rc::Rc<dyn NominalSystem<T>>, n: T) -> NominalString { NominalSystem::<T>::format_nominal(s, n) }
                pub fn e_arc_try(s: &alloc::sync::Arc<dyn NominalSystem<T>>, n: T) -> R<T> { NominalSystem::<T>::try_format_nominal(s, n) }
                pub fn e_arc_fmt(s: &alloc::sync::Arc<dyn NominalSystem<T>>, n: T) -> NominalString { NominalSystem::<T>::format_nominal(s, n) }
            }
            impl NominalSystem<T> for Custom {
                fn format_nominal(&self, n: T) -> NominalString { unsafe { vp_custom_fmt(self, n) } }
                fn try_format_nominal(&self, n: T) -> R<T> { unsafe { vp_custom_try(self, n) } }
            }
            extern "Rust" {
                fn vp_custom_fmt(s: &Custom, n: T) -> NominalString;
                fn vp_custom_try(s: &Custom, n: T) -> R<T>;
            }
        }
    };
}
/// An arbitrary user-written system.
pub struct Custom(pub usize);

macro_rules! systems {
    ($t:ty; $($s:ident)*) => {
        $(pub mod $s {
            use super::*;
            pub fn e_sys(s: &nominals::$s, n: $t) -> R<$t> { NominalSystem::<$t>::try_format_nominal(s, n) }
            pub fn e_fmt(s: &nominals::$s, n: $t) -> NominalString { NominalSystem::<$t>::format_nominal(s, n) }
        })*
    };
}
macro_rules! chinese {
    ($t:ty; $($s:ident)*) => {
        $(pub mod $s {
            use super::*;
            fn run(s: nominals::$s, n: $t) -> R<$t> { NominalSystem::<$t>::try_format_nominal(&s, n) }
            pub fn e_fmt(s: &nominals::$s, n: $t) -> NominalString { NominalSystem::<$t>::format_nominal(s, n) }
            pub fn e_any(s: nominals::$s, n: $t) -> R<$t> { NominalSystem::<$t>::try_format_nominal(&s, n) }
            pub fn e_ordinary_myriad(n: $t) -> R<$t> { run(nominals::$s::default(), n) }
            pub fn e_ordinary_short(n: $t) -> R<$t> { run(nominals::$s::default().short_scale(), n) }
            pub fn e_ordinary_mid(n: $t) -> R<$t> { run(nominals::$s::default().mid_scale(), n) }
            pub fn e_ordinary_long(n: $t) -> R<$t> { run(nominals::$s::default().long_scale(), n) }
            pub fn e_financial_myriad(n: $t) -> R<$t> { run(nominals::$s::default().financial(), n) }
            pub fn e_financial_short(n: $t) -> R<$t> { run(nominals::$s::default().financial().short_scale(), n) }
            pub fn e_financial_mid(n: $t) -> R<$t> { run(nominals::$s::default().mid_scale().financial(), n) }
            pub fn e_financial_long(n: $t) -> R<$t> { run(nominals::$s::default().financial().long_scale(), n) }
        })*
    };
}
per_int!(u8, $);
per_int!(u16, $);
per_int!(u32, $);
per_int!(u64, $);
per_int!(u128, $);
per_int!(usize, $);

macro_rules! digits {
    ($($s:ident)*) => {
        $(pub mod $s {
            use super::*;
            pub fn e_fixed(s: &nominals::$s) -> bool { s.fixed() }
            pub fn e_has_zero(s: &nominals::$s) -> bool { s.has_zero_digit() }
            pub fn e_zero_based(s: &nominals::$s) -> bool { s.zero_based() }
            pub fn e_len(s: &nominals::$s) -> usize { s.len() }
            pub fn e_is_empty(s: &nominals::$s) -> bool { s.is_empty() }
            pub fn e_digit(s: &nominals::$s, i: usize) -> char { s.digit(i) }
            pub fn e_fallback_len(s: &nominals::$s) -> usize { fb_len(s) }
            pub fn e_fallback_digit(s: &nominals::$s, i: usize) -> char { fb_digit(s, i) }
            pub fn e_fallback_fixed(s: &nominals::$s) -> bool { fb_fixed(s) }
            pub fn e_fallback_has_zero(s: &nominals::$s) -> bool { fb_has_zero(s) }
            pub fn e_fallback_zero_based(s: &nominals::$s) -> bool { fb_zero_based(s) }
        })*
    };
}
fn fb_len<D: DigitCollection>(_: &D) -> usize { D::Fallback::default().len() }
fn fb_digit<D: DigitCollection>(_: &D, i: usize) -> char { D::Fallback::default().digit(i) }
fn fb_fixed<D: DigitCollection>(_: &D) -> bool { D::Fallback::default().fixed() }
fn fb_zero_based<D: DigitCollection>(_: &D) -> bool { D::Fallback::default().zero_based() }
fn fb_has_zero<D: DigitCollection>(_: &D) -> bool { D::Fallback::default().has_zero_digit() }

pub mod digits {
    use super::*;
    digits!(Decimal EasternArabic Persian Bengali Cambodian CjkDecimal CjkHeavenlyStem CjkEarthlyBranch
        Devanagari Gujarati Gurmukhi Kannada Lao Malayalam Mongolian Myanmar Oriya Tamil Telugu Thai Tibetan
        LetterUpper LetterLower GreekUpper GreekLower Hiragana HiraganaIroha Katakana KatakanaIroha
        HangeulJamo HangeulSyllable HexUpper HexLower NoFallback);
}

macro_rules! coll_entries {
    ($m:ident, ($($p:ident : $pt:ty),*), $e:expr) => {
        pub mod $m {
            use super::*;
            pub fn e_fixed($($p: $pt),*) -> bool { $e.fixed() }
            pub fn e_has_zero($($p: $pt),*) -> bool { $e.has_zero_digit() }
            pub fn e_zero_based($($p: $pt),*) -> bool { $e.zero_based() }
            pub fn e_len($($p: $pt),*) -> usize { $e.len() }
            pub fn e_is_empty($($p: $pt),*) -> bool { $e.is_empty() }
            pub fn e_digit($($p: $pt,)* i: usize) -> char { $e.digit(i) }
            pub fn e_fallback_len($($p: $pt),*) -> usize { fb_len(&$e) }
            pub fn e_fallback_digit($($p: $pt,)* i: usize) -> char { fb_digit(&$e, i) }
            pub fn e_fallback_fixed($($p: $pt),*) -> bool { fb_fixed(&$e) }
            pub fn e_fallback_has_zero($($p: $pt),*) -> bool { fb_has_zero(&$e) }
            pub fn e_fallback_zero_based($($p: $pt),*) -> bool { fb_zero_based(&$e) }
        }
    };
}
pub mod comb {
    use super::*;
    coll_entries!(onebased, (c: CollFb), OneBased::new(c));
    coll_entries!(one_based, (c: CollFb), c.one_based());
    coll_entries!(restrict, (k: usize, c: CollFb), Restrict::new(k, c));
    coll_entries!(chain, (a: CollFb, b: CollFb2), Chain::new(a, b));
    coll_entries!(and, (a: CollFb, b: CollFb2), a.and(b));
    coll_entries!(set0t, (), DigitSet::<0, true>::new([]));
    coll_entries!(set0f, (), DigitSet::<0, false>::zeroless([]));
    coll_entries!(set3t, (a: [char; 3]), DigitSet::<3, true>::new(a));
    coll_entries!(set3f, (a: [char; 3]), DigitSet::<3, false>::zeroless(a));
}

pub mod sets {
    use super::*;
    pub fn e_additive_new0(a: [(&'static str, u128); 0]) -> AdditiveSet<0> { AdditiveSet::new(a) }
    pub fn e_additive_new1(a: [(&'static str, u128); 1]) -> AdditiveSet<1> { AdditiveSet::new(a) }
    pub fn e_additive_new2(a: [(&'static str, u128); 2]) -> AdditiveSet<2> { AdditiveSet::new(a) }
    pub fn e_additive_new3(a: [(&'static str, u128); 3]) -> AdditiveSet<3> { AdditiveSet::new(a) }
    pub fn e_additive_new40(a: [(&'static str, u128); 40]) -> AdditiveSet<40> { AdditiveSet::new(a) }
    pub fn e_additive_new4(a: [(&'static str, u128); 4]) -> AdditiveSet<4> { AdditiveSet::new(a) }
}

pub mod vals {
    use super::*;
    macro_rules! chv {
        ($($s:ident)*) => {
            $(pub mod $s {
                fn mk(u: u8, k: u8) -> nominals::$s {
                    let s = <nominals::$s as Default>::default();
                    let s = if u == 1 { s.financial() } else { s };
                    match k { 1 => s.short_scale(), 2 => s.mid_scale(), 3 => s.long_scale(), _ => s }
                }
                pub fn e_eq(u: u8, k: u8, v: u8, l: u8) -> bool { mk(u, k) == mk(v, l) }
                pub fn e_ne(u: u8, k: u8, v: u8, l: u8) -> bool { mk(u, k) != mk(v, l) }
                pub fn e_clone(u: u8, k: u8) -> bool { Clone::clone(&mk(u, k)) == mk(u, k) }
            })*
        };
    }
    chv!(SimplifiedChineseInformal SimplifiedChineseFormal TraditionalChineseInformal TraditionalChineseFormal);
    macro_rules! unitv {
        ($($s:ident)*) => {
            $(pub mod $s {
                use nominals::$s as X;
                pub fn e_eq() -> bool { X == X }
                pub fn e_ne() -> bool { X != X }
                pub fn e_clone() -> bool { Clone::clone(&X) == <X as Default>::default() }
            })*
        };
    }
    unitv!(Decimal EasternArabic Persian Bengali Cambodian CjkDecimal
                Devanagari Gujarati Gurmukhi Kannada Lao Malayalam Mongolian Myanmar Oriya Tamil Telugu Thai Tibetan
                LetterUpper LetterLower GreekUpper GreekLower Hiragana HiraganaIroha Katakana KatakanaIroha
                HangeulJamo HangeulSyllable HexUpper HexLower CircledNumber DoubleCircledNumber NoFallback);
    fn r(n: usize) -> Restrict<nominals::LetterLower> { Restrict::new(n, nominals::LetterLower) }
    fn ob(n: usize) -> OneBased<Restrict<nominals::LetterLower>> { OneBased::new(r(n)) }
    fn ch(a: usize, b: usize) -> Chain<Restrict<nominals::LetterLower>, Restrict<nominals::LetterLower>> { Chain::new(r(a), r(b)) }
    pub fn e_restrict_eq(a: usize, c: usize) -> bool { r(a) == r(c) }
    pub fn e_restrict_ne(a: usize, c: usize) -> bool { r(a) != r(c) }
    pub fn e_restrict_clone(a: usize) -> bool { Clone::clone(&r(a)) == r(a) }
    pub fn e_restrict_default() -> bool { <Restrict<nominals::LetterLower> as Default>::default() == r(0) }
    pub fn e_onebased_eq(a: usize, c: usize) -> bool { ob(a) == ob(c) }
    pub fn e_onebased_ne(a: usize, c: usize) -> bool { ob(a) != ob(c) }
    pub fn e_onebased_clone(a: usize) -> bool { Clone::clone(&ob(a)) == ob(a) }
    pub fn e_chain_eq(a: usize, b: usize, c: usize, d: usize) -> bool { ch(a, b) == ch(c, d) }
    pub fn e_chain_ne(a: usize, b: usize, c: usize, d: usize) -> bool { ch(a, b) != ch(c, d) }
    pub fn e_chain_clone(a: usize, b: usize) -> bool { Clone::clone(&ch(a, b)) == ch(a, b) }
    pub fn e_chain_default() -> bool { <Chain<Restrict<nominals::LetterLower>, Restrict<nominals::LetterLower>> as Default>::default() == ch(0, 0) }
    pub fn e_oom_eq() -> bool { OutOfMemoryError == OutOfMemoryError }
    pub fn e_oom_ne() -> bool { OutOfMemoryError != OutOfMemoryError }
    pub fn e_oom_clone() -> bool { Clone::clone(&OutOfMemoryError) == OutOfMemoryError }
}

macro_rules! options {
    ($($s:ident)*) => {
        $(pub mod $s {
            use super::*;
            pub fn e_default() -> nominals::$s { Default::default() }
            pub fn e_financial(s: nominals::$s) -> nominals::$s { s.financial() }
            pub fn e_short(s: nominals::$s) -> nominals::$s { s.short_scale() }
            pub fn e_mid(s: nominals::$s) -> nominals::$s { s.mid_scale() }
            pub fn e_long(s: nominals::$s) -> nominals::$s { s.long_scale() }
        })*
    };
}
pub mod options {
    use super::*;
    options!(SimplifiedChineseInformal SimplifiedChineseFormal TraditionalChineseInformal TraditionalChineseFormal);
}

pub mod ns {
    use super::*;
    pub fn e_new() -> NominalString { NominalString::new() }
    pub fn e_new_reverse() -> NominalString { NominalString::new_reverse() }
    pub fn e_default() -> NominalString { NominalString::default() }
    pub fn e_push(s: &mut NominalString, c: char) -> Result<(), OutOfMemoryError> { s.try_push(c) }
    pub fn e_push_str(s: &mut NominalString, x: &str) -> Result<(), OutOfMemoryError> { s.try_push_str(x) }
    pub fn e_push_front(s: &mut NominalString, c: char) -> Result<(), OutOfMemoryError> { s.try_push_front(c) }
    pub fn e_is_inline(s: &NominalString) -> bool { s.is_inline() }
    pub fn e_deref(s: &NominalString) -> &str { &**s }
    pub fn e_deref_mut(s: &mut NominalString) -> &mut str { &mut **s }
    pub fn e_from_str(x: &str) -> NominalString { NominalString::from(x) }
    pub fn e_from_char(x: char) -> NominalString { NominalString::from(x) }
    pub fn e_capacity() -> usize { NominalString::INLINE_CAPACITY }
    pub fn e_eq_str(s: &NominalString, x: &str) -> bool { *s == *x }
    pub fn e_eq_refstr(s: &NominalString, x: &str) -> bool { *s == x }
    pub fn e_ne_str(s: &NominalString, x: &str) -> bool { *s != *x }
    pub fn e_ne_refstr(s: &NominalString, x: &str) -> bool { *s != x }
    pub fn e_eq(s: &NominalString, x: &NominalString) -> bool { *s == *x }
    pub fn e_ne(s: &NominalString, x: &NominalString) -> bool { *s != *x }
    pub fn e_cmp(s: &NominalString, x: &NominalString) -> core::cmp::Ordering { Ord::cmp(s, x) }
    pub fn e_partial_cmp(s: &NominalString, x: &NominalString) -> Option<core::cmp::Ordering> { PartialOrd::partial_cmp(s, x) }
    pub fn e_partial_cmp_str(s: &NominalString, x: &str) -> Option<core::cmp::Ordering> { PartialOrd::partial_cmp(s, x) }
    pub fn e_lt_str(s: &NominalString, x: &str) -> bool { *s < *x }
    pub fn e_le_str(s: &NominalString, x: &str) -> bool { *s <= *x }
    pub fn e_gt_str(s: &NominalString, x: &str) -> bool { *s > *x }
    pub fn e_ge_str(s: &NominalString, x: &str) -> bool { *s >= *x }
    pub fn e_max(s: NominalString, x: NominalString) -> NominalString { Ord::max(s, x) }
    pub fn e_min(s: NominalString, x: NominalString) -> NominalString { Ord::min(s, x) }
    pub fn e_lt(s: &NominalString, x: &NominalString) -> bool { *s < *x }
    pub fn e_le(s: &NominalString, x: &NominalString) -> bool { *s <= *x }
    pub fn e_gt(s: &NominalString, x: &NominalString) -> bool { *s > *x }
    pub fn e_ge(s: &NominalString, x: &NominalString) -> bool { *s >= *x }
    pub fn e_display(s: &NominalString, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::Display::fmt(s, f) }
    pub fn e_debug(s: &NominalString, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::Debug::fmt(s, f) }
    #[cfg(feature = "alloc")]
    pub mod heap {
        use super::*;
        use alloc::string::String;
        pub fn e_clone(s: &NominalString) -> NominalString { s.clone() }
        pub fn e_try_into_string(s: NominalString) -> Result<String, NominalString> { s.try_into_string() }
        pub fn e_into_string(s: NominalString) -> String { String::from(s) }
        pub fn e_from_string(s: String) -> NominalString { NominalString::from(s) }
        pub fn e_from_ref_string(s: &String) -> NominalString { NominalString::from(s) }
        pub fn e_clone_from(s: &mut NominalString, x: &NominalString) { Clone::clone_from(s, x) }
        pub fn e_eq_string(s: &NominalString, x: &String) -> bool { *s == *x }
        pub fn e_ne_string(s: &NominalString, x: &String) -> bool { *s != *x }
        pub fn e_lt_string(s: &NominalString, x: &String) -> bool { *s < *x }
        pub fn e_le_string(s: &NominalString, x: &String) -> bool { *s <= *x }
        pub fn e_gt_string(s: &NominalString, x: &String) -> bool { *s > *x }
        pub fn e_ge_string(s: &NominalString, x: &String) -> bool { *s >= *x }
        pub fn e_partial_cmp_string(s: &NominalString, x: &String) -> Option<core::cmp::Ordering> { PartialOrd::partial_cmp(s, x) }
    }
}
