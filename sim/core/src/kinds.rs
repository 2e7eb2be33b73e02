//! The vocabulary: families, kinds, windows, recipes.
crate::rec! { #[derive(Copy, Eq, Hash)] enum Fam { Dct1, Dst1, T23, T4, Dct5, Dst5, Dct67, Dst67, Dct8, Dst8, Mdct } }
crate::rec! { #[derive(Copy, Eq, Hash)] enum Kind { Dct1, Dct2, Dct3, Dct4, Dct5, Dct6, Dct7, Dct8, Dst1, Dst2, Dst3, Dst4, Dst5, Dst6, Dst7, Dst8, Mdct, Imdct } }
pub const KINDS: &[Kind] = &[Kind::Dct1, Kind::Dct2, Kind::Dct3, Kind::Dct4, Kind::Dct5, Kind::Dct6, Kind::Dct7, Kind::Dct8, Kind::Dst1,
    Kind::Dst2, Kind::Dst3, Kind::Dst4, Kind::Dst5, Kind::Dst6, Kind::Dst7, Kind::Dst8, Kind::Mdct, Kind::Imdct];
pub const FAMS: &[Fam] = &[Fam::Dct1, Fam::Dst1, Fam::T23, Fam::T4, Fam::Dct5, Fam::Dst5, Fam::Dct67, Fam::Dst67, Fam::Dct8, Fam::Dst8, Fam::Mdct];
crate::rec! { enum Win { Mp3, Mp3Inv, Vorbis, VorbisInv, One, Inv, Rand { seed: u64 }, Near { base: u8, how: u8, at: u64 } } }
crate::rec! { enum FftSrc { Planner, Scalar, Custom { need: usize } } }
crate::rec! {
    enum Recipe {
        Planned { fam: Fam, len: usize, win: Win },
        Naive { fam: Fam, len: usize, win: Win },
        ViaFft { fam: Fam, len: usize, fft: FftSrc },
        Bfly { len: usize },
        Split { half: Box<Recipe>, quarter: Box<Recipe> },
        T4Even { inner: Box<Recipe> },
        MdctVia { inner: Box<Recipe>, win: Win },
        Custom { fam: Fam, len: usize, need: usize },
    }
}
// planner entry point through which a family is requested
crate::rec! { #[derive(Copy)] enum Req { A, B, C, D } }

impl Fam {
    pub fn kinds(self) -> &'static [Kind] {
        match self {
            Fam::Dct1 => &[Kind::Dct1],
            Fam::Dst1 => &[Kind::Dst1],
            Fam::T23 => &[Kind::Dct2, Kind::Dct3, Kind::Dst2, Kind::Dst3],
            Fam::T4 => &[Kind::Dct4, Kind::Dst4],
            Fam::Dct5 => &[Kind::Dct5],
            Fam::Dst5 => &[Kind::Dst5],
            Fam::Dct67 => &[Kind::Dct6, Kind::Dct7],
            Fam::Dst67 => &[Kind::Dst6, Kind::Dst7],
            Fam::Dct8 => &[Kind::Dct8],
            Fam::Dst8 => &[Kind::Dst8],
            Fam::Mdct => &[Kind::Mdct, Kind::Imdct],
        }
    }
    pub fn min_len(self) -> usize { match self { Fam::Dct1 | Fam::Mdct => 2, _ => 1 } }
    pub fn fix_len(self, l: usize) -> usize {
        let l = l.max(self.min_len());
        if self == Fam::Mdct { (l + 1) & !1 } else { l }
    }
}
impl Kind { pub fn is_mdct(self) -> bool { matches!(self, Kind::Mdct | Kind::Imdct) } }
impl Recipe {
    pub fn fam(&self) -> Fam {
        match self {
            Recipe::Planned { fam, .. } | Recipe::Naive { fam, .. } | Recipe::ViaFft { fam, .. } | Recipe::Custom { fam, .. } => *fam,
            Recipe::Bfly { .. } | Recipe::Split { .. } => Fam::T23,
            Recipe::T4Even { .. } => Fam::T4,
            Recipe::MdctVia { .. } => Fam::Mdct,
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Recipe::Planned { len, .. } | Recipe::Naive { len, .. } | Recipe::ViaFft { len, .. } | Recipe::Custom { len, .. } | Recipe::Bfly { len } => *len,
            Recipe::Split { half, .. } => 2 * half.len(),
            Recipe::T4Even { inner } => 2 * inner.len(),
            Recipe::MdctVia { inner, .. } => inner.len(),
        }
    }
    pub fn win(&self) -> Win {
        match self { Recipe::Planned { win, .. } | Recipe::Naive { win, .. } | Recipe::MdctVia { win, .. } => win.clone(), _ => Win::One }
    }
}

pub fn near_base(b: u8) -> Win { match b { 0 => Win::Mp3, 1 => Win::Vorbis, 2 => Win::One, 3 => Win::Inv, 4 => Win::Mp3Inv, 5 => Win::VorbisInv, s => Win::Rand { seed: s as u64 } } }
