//! Kani harnesses. Without Kani the same functions run natively on recorded values (bin `replay`).
#![allow(semicolon_in_expressions_from_non_local_macros)]
#![allow(dead_code)]
extern crate alloc;

#[cfg(not(kani))]
pub mod kani;


/// tensors never occur in the harnesses of the data loader, which bring their own collation
pub fn no_collate(_: Vec<hodu_datasets::data::batch::DataItem>) -> hodu_core::error::HoduResult<hodu_datasets::data::batch::Batch> {
    panic!("a tensor was collated")
}
pub fn no_drop(_: &mut hodu_core::tensor::Tensor) {}
/// the portable code path of the half-precision conversions
#[cfg(kani)]
pub fn no_cpuid(_: u32, _: u32) -> core::arch::x86_64::CpuidResult {
    core::arch::x86_64::CpuidResult { eax: 0, ebx: 0, ecx: 0, edx: 0 }
}
pub fn no_fmt(_: std::fmt::Arguments<'_>) -> String {
    String::new()
}

/// `unwinding name { body }`: one proof each, and a table of them for the replay
#[macro_export]
macro_rules! harnesses {
    ($($n:literal $([$solver:ident])? $name:ident $b:block)*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($n))]
            $(#[cfg_attr(kani, kani::solver($solver))])?
            #[cfg_attr(kani, kani::stub(alloc::fmt::format, crate::no_fmt))]
            #[cfg_attr(kani, kani::stub(hodu_datasets::data::dataloader::default_collate, crate::no_collate))]
            #[cfg_attr(kani, kani::stub(core::arch::x86_64::__cpuid_count, crate::no_cpuid))]
            #[cfg_attr(kani, kani::stub(<hodu_core::tensor::Tensor as core::ops::Drop>::drop, crate::no_drop))]
            pub fn $name() $b
        )*
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}

pub mod p24;
pub mod p25;
pub mod p26;

pub const MODULES: &[(&str, &[(&str, fn())])] = &[("p24", p24::TABLE), ("p25", p25::TABLE), ("p26", p26::TABLE)];
