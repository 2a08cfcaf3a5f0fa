pub mod c01;
#[cfg(not(feature = "no_c02"))]
pub mod c02;
#[cfg(not(feature = "no_c03"))]
pub mod c03;
#[cfg(not(feature = "no_c04"))]
pub mod c04;
#[cfg(not(feature = "no_c05"))]
pub mod c05;
#[cfg(not(feature = "no_c06"))]
pub mod c06;
#[cfg(not(feature = "no_c07"))]
pub mod c07;
#[cfg(not(feature = "no_c08"))]
pub mod c08;
#[cfg(not(feature = "no_c09"))]
pub mod c09;
#[cfg(not(feature = "no_c10"))]
pub mod c10;
#[cfg(all(not(feature = "alt"), not(feature = "no_c11")))]
pub mod c11;
#[cfg(not(feature = "no_c12"))]
pub mod c12;
#[cfg(not(feature = "no_c13"))]
pub mod c13;
#[cfg(not(feature = "no_c14"))]
pub mod c14;
#[cfg(not(feature = "no_c15"))]
pub mod c15;
#[cfg(not(feature = "no_c16"))]
pub mod c16;
#[cfg(not(feature = "no_c17"))]
pub mod c17;
#[cfg(not(feature = "no_c18"))]
pub mod c18;
#[cfg(not(feature = "no_c19"))]
pub mod c19;
#[cfg(not(feature = "no_c20"))]
pub mod c20;
#[cfg(not(feature = "no_c21"))]
pub mod c21;
#[cfg(not(feature = "no_c22"))]
pub mod c22;
#[cfg(not(feature = "no_c23"))]
pub mod c23;
#[cfg(not(feature = "no_c24"))]
pub mod c24;
#[cfg(all(not(feature = "alt"), not(feature = "no_c25")))]
pub mod c25;
#[cfg(feature = "alt")]
pub mod c26;
#[cfg(not(feature = "no_c27"))]
pub mod c27;
pub mod again;
