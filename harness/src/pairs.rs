//! Derived structs over every pair of field types. (A plain listing: derive macros see the types as tokens.)
#![allow(dead_code)]
use crate::derived::{cloud, derived};
use crate::pts::*;
use ros_pointcloud2::prelude::*;

derived!(#[repr(C)] P0, 2, [pub a: i8 = "a", pub b: i8 = "b"]);
derived!(#[repr(C)] P1, 2, [pub a: i8 = "a", pub b: u8 = "b"]);
derived!(#[repr(C)] P2, 2, [pub a: i8 = "a", pub b: i16 = "b"]);
derived!(#[repr(C)] P3, 2, [pub a: i8 = "a", pub b: u16 = "b"]);
derived!(#[repr(C)] P4, 2, [pub a: i8 = "a", pub b: i32 = "b"]);
derived!(#[repr(C)] P5, 2, [pub a: i8 = "a", pub b: u32 = "b"]);
derived!(#[repr(C)] P6, 2, [pub a: i8 = "a", pub b: f32 = "b"]);
derived!(#[repr(C)] P7, 2, [pub a: i8 = "a", pub b: f64 = "b"]);
derived!(#[repr(C)] P8, 2, [pub a: u8 = "a", pub b: i8 = "b"]);
derived!(#[repr(C)] P9, 2, [pub a: u8 = "a", pub b: u8 = "b"]);
derived!(#[repr(C)] P10, 2, [pub a: u8 = "a", pub b: i16 = "b"]);
derived!(#[repr(C)] P11, 2, [pub a: u8 = "a", pub b: u16 = "b"]);
derived!(#[repr(C)] P12, 2, [pub a: u8 = "a", pub b: i32 = "b"]);
derived!(#[repr(C)] P13, 2, [pub a: u8 = "a", pub b: u32 = "b"]);
derived!(#[repr(C)] P14, 2, [pub a: u8 = "a", pub b: f32 = "b"]);
derived!(#[repr(C)] P15, 2, [pub a: u8 = "a", pub b: f64 = "b"]);
derived!(#[repr(C)] P16, 2, [pub a: i16 = "a", pub b: i8 = "b"]);
derived!(#[repr(C)] P17, 2, [pub a: i16 = "a", pub b: u8 = "b"]);
derived!(#[repr(C)] P18, 2, [pub a: i16 = "a", pub b: i16 = "b"]);
derived!(#[repr(C)] P19, 2, [pub a: i16 = "a", pub b: u16 = "b"]);
derived!(#[repr(C)] P20, 2, [pub a: i16 = "a", pub b: i32 = "b"]);
derived!(#[repr(C)] P21, 2, [pub a: i16 = "a", pub b: u32 = "b"]);
derived!(#[repr(C)] P22, 2, [pub a: i16 = "a", pub b: f32 = "b"]);
derived!(#[repr(C)] P23, 2, [pub a: i16 = "a", pub b: f64 = "b"]);
derived!(#[repr(C)] P24, 2, [pub a: u16 = "a", pub b: i8 = "b"]);
derived!(#[repr(C)] P25, 2, [pub a: u16 = "a", pub b: u8 = "b"]);
derived!(#[repr(C)] P26, 2, [pub a: u16 = "a", pub b: i16 = "b"]);
derived!(#[repr(C)] P27, 2, [pub a: u16 = "a", pub b: u16 = "b"]);
derived!(#[repr(C)] P28, 2, [pub a: u16 = "a", pub b: i32 = "b"]);
derived!(#[repr(C)] P29, 2, [pub a: u16 = "a", pub b: u32 = "b"]);
derived!(#[repr(C)] P30, 2, [pub a: u16 = "a", pub b: f32 = "b"]);
derived!(#[repr(C)] P31, 2, [pub a: u16 = "a", pub b: f64 = "b"]);
derived!(#[repr(C)] P32, 2, [pub a: i32 = "a", pub b: i8 = "b"]);
derived!(#[repr(C)] P33, 2, [pub a: i32 = "a", pub b: u8 = "b"]);
derived!(#[repr(C)] P34, 2, [pub a: i32 = "a", pub b: i16 = "b"]);
derived!(#[repr(C)] P35, 2, [pub a: i32 = "a", pub b: u16 = "b"]);
derived!(#[repr(C)] P36, 2, [pub a: i32 = "a", pub b: i32 = "b"]);
derived!(#[repr(C)] P37, 2, [pub a: i32 = "a", pub b: u32 = "b"]);
derived!(#[repr(C)] P38, 2, [pub a: i32 = "a", pub b: f32 = "b"]);
derived!(#[repr(C)] P39, 2, [pub a: i32 = "a", pub b: f64 = "b"]);
derived!(#[repr(C)] P40, 2, [pub a: u32 = "a", pub b: i8 = "b"]);
derived!(#[repr(C)] P41, 2, [pub a: u32 = "a", pub b: u8 = "b"]);
derived!(#[repr(C)] P42, 2, [pub a: u32 = "a", pub b: i16 = "b"]);
derived!(#[repr(C)] P43, 2, [pub a: u32 = "a", pub b: u16 = "b"]);
derived!(#[repr(C)] P44, 2, [pub a: u32 = "a", pub b: i32 = "b"]);
derived!(#[repr(C)] P45, 2, [pub a: u32 = "a", pub b: u32 = "b"]);
derived!(#[repr(C)] P46, 2, [pub a: u32 = "a", pub b: f32 = "b"]);
derived!(#[repr(C)] P47, 2, [pub a: u32 = "a", pub b: f64 = "b"]);
derived!(#[repr(C)] P48, 2, [pub a: f32 = "a", pub b: i8 = "b"]);
derived!(#[repr(C)] P49, 2, [pub a: f32 = "a", pub b: u8 = "b"]);
derived!(#[repr(C)] P50, 2, [pub a: f32 = "a", pub b: i16 = "b"]);
derived!(#[repr(C)] P51, 2, [pub a: f32 = "a", pub b: u16 = "b"]);
derived!(#[repr(C)] P52, 2, [pub a: f32 = "a", pub b: i32 = "b"]);
derived!(#[repr(C)] P53, 2, [pub a: f32 = "a", pub b: u32 = "b"]);
derived!(#[repr(C)] P54, 2, [pub a: f32 = "a", pub b: f32 = "b"]);
derived!(#[repr(C)] P55, 2, [pub a: f32 = "a", pub b: f64 = "b"]);
derived!(#[repr(C)] P56, 2, [pub a: f64 = "a", pub b: i8 = "b"]);
derived!(#[repr(C)] P57, 2, [pub a: f64 = "a", pub b: u8 = "b"]);
derived!(#[repr(C)] P58, 2, [pub a: f64 = "a", pub b: i16 = "b"]);
derived!(#[repr(C)] P59, 2, [pub a: f64 = "a", pub b: u16 = "b"]);
derived!(#[repr(C)] P60, 2, [pub a: f64 = "a", pub b: i32 = "b"]);
derived!(#[repr(C)] P61, 2, [pub a: f64 = "a", pub b: u32 = "b"]);
derived!(#[repr(C)] P62, 2, [pub a: f64 = "a", pub b: f32 = "b"]);
derived!(#[repr(C)] P63, 2, [pub a: f64 = "a", pub b: f64 = "b"]);
derived!(R0, 3, [pub a: i8 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i8 = "b"]);
derived!(R1, 3, [pub a: i8 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u8 = "b"]);
derived!(R2, 3, [pub a: i8 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i16 = "b"]);
derived!(R3, 3, [pub a: i8 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u16 = "b"]);
derived!(R4, 3, [pub a: i8 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i32 = "b"]);
derived!(R5, 3, [pub a: i8 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u32 = "b"]);
derived!(R6, 3, [pub a: i8 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: f32 = "b"]);
derived!(R7, 3, [pub a: i8 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: f64 = "b"]);
derived!(R8, 3, [pub a: u8 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i8 = "b"]);
derived!(R9, 3, [pub a: u8 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u8 = "b"]);
derived!(R10, 3, [pub a: u8 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i16 = "b"]);
derived!(R11, 3, [pub a: u8 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u16 = "b"]);
derived!(R12, 3, [pub a: u8 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i32 = "b"]);
derived!(R13, 3, [pub a: u8 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u32 = "b"]);
derived!(R14, 3, [pub a: u8 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: f32 = "b"]);
derived!(R15, 3, [pub a: u8 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: f64 = "b"]);
derived!(R16, 3, [pub a: i16 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i8 = "b"]);
derived!(R17, 3, [pub a: i16 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u8 = "b"]);
derived!(R18, 3, [pub a: i16 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i16 = "b"]);
derived!(R19, 3, [pub a: i16 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u16 = "b"]);
derived!(R20, 3, [pub a: i16 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i32 = "b"]);
derived!(R21, 3, [pub a: i16 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u32 = "b"]);
derived!(R22, 3, [pub a: i16 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: f32 = "b"]);
derived!(R23, 3, [pub a: i16 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: f64 = "b"]);
derived!(R24, 3, [pub a: u16 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i8 = "b"]);
derived!(R25, 3, [pub a: u16 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u8 = "b"]);
derived!(R26, 3, [pub a: u16 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i16 = "b"]);
derived!(R27, 3, [pub a: u16 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u16 = "b"]);
derived!(R28, 3, [pub a: u16 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i32 = "b"]);
derived!(R29, 3, [pub a: u16 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u32 = "b"]);
derived!(R30, 3, [pub a: u16 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: f32 = "b"]);
derived!(R31, 3, [pub a: u16 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: f64 = "b"]);
derived!(R32, 3, [pub a: i32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i8 = "b"]);
derived!(R33, 3, [pub a: i32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u8 = "b"]);
derived!(R34, 3, [pub a: i32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i16 = "b"]);
derived!(R35, 3, [pub a: i32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u16 = "b"]);
derived!(R36, 3, [pub a: i32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i32 = "b"]);
derived!(R37, 3, [pub a: i32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u32 = "b"]);
derived!(R38, 3, [pub a: i32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: f32 = "b"]);
derived!(R39, 3, [pub a: i32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: f64 = "b"]);
derived!(R40, 3, [pub a: u32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i8 = "b"]);
derived!(R41, 3, [pub a: u32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u8 = "b"]);
derived!(R42, 3, [pub a: u32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i16 = "b"]);
derived!(R43, 3, [pub a: u32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u16 = "b"]);
derived!(R44, 3, [pub a: u32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i32 = "b"]);
derived!(R45, 3, [pub a: u32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u32 = "b"]);
derived!(R46, 3, [pub a: u32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: f32 = "b"]);
derived!(R47, 3, [pub a: u32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: f64 = "b"]);
derived!(R48, 3, [pub a: f32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i8 = "b"]);
derived!(R49, 3, [pub a: f32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u8 = "b"]);
derived!(R50, 3, [pub a: f32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i16 = "b"]);
derived!(R51, 3, [pub a: f32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u16 = "b"]);
derived!(R52, 3, [pub a: f32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i32 = "b"]);
derived!(R53, 3, [pub a: f32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u32 = "b"]);
derived!(R54, 3, [pub a: f32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: f32 = "b"]);
derived!(R55, 3, [pub a: f32 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: f64 = "b"]);
derived!(R56, 3, [pub a: f64 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i8 = "b"]);
derived!(R57, 3, [pub a: f64 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u8 = "b"]);
derived!(R58, 3, [pub a: f64 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i16 = "b"]);
derived!(R59, 3, [pub a: f64 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u16 = "b"]);
derived!(R60, 3, [pub a: f64 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: i32 = "b"]);
derived!(R61, 3, [pub a: f64 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: u32 = "b"]);
derived!(R62, 3, [pub a: f64 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: f32 = "b"]);
derived!(R63, 3, [pub a: f64 = "a", #[rpcl2(rename("middle"))] pub m: u8 = "middle", pub b: f64 = "b"]);

pub fn pair(k: u64, mode: u64, n: u64) {
    match k {
        0 => cloud::<2, P0>(0, mode, n),
        1 => cloud::<2, P1>(0, mode, n),
        2 => cloud::<2, P2>(0, mode, n),
        3 => cloud::<2, P3>(0, mode, n),
        4 => cloud::<2, P4>(0, mode, n),
        5 => cloud::<2, P5>(0, mode, n),
        6 => cloud::<2, P6>(0, mode, n),
        7 => cloud::<2, P7>(0, mode, n),
        8 => cloud::<2, P8>(0, mode, n),
        9 => cloud::<2, P9>(0, mode, n),
        10 => cloud::<2, P10>(0, mode, n),
        11 => cloud::<2, P11>(0, mode, n),
        12 => cloud::<2, P12>(0, mode, n),
        13 => cloud::<2, P13>(0, mode, n),
        14 => cloud::<2, P14>(0, mode, n),
        15 => cloud::<2, P15>(0, mode, n),
        16 => cloud::<2, P16>(0, mode, n),
        17 => cloud::<2, P17>(0, mode, n),
        18 => cloud::<2, P18>(0, mode, n),
        19 => cloud::<2, P19>(0, mode, n),
        20 => cloud::<2, P20>(0, mode, n),
        21 => cloud::<2, P21>(0, mode, n),
        22 => cloud::<2, P22>(0, mode, n),
        23 => cloud::<2, P23>(0, mode, n),
        24 => cloud::<2, P24>(0, mode, n),
        25 => cloud::<2, P25>(0, mode, n),
        26 => cloud::<2, P26>(0, mode, n),
        27 => cloud::<2, P27>(0, mode, n),
        28 => cloud::<2, P28>(0, mode, n),
        29 => cloud::<2, P29>(0, mode, n),
        30 => cloud::<2, P30>(0, mode, n),
        31 => cloud::<2, P31>(0, mode, n),
        32 => cloud::<2, P32>(0, mode, n),
        33 => cloud::<2, P33>(0, mode, n),
        34 => cloud::<2, P34>(0, mode, n),
        35 => cloud::<2, P35>(0, mode, n),
        36 => cloud::<2, P36>(0, mode, n),
        37 => cloud::<2, P37>(0, mode, n),
        38 => cloud::<2, P38>(0, mode, n),
        39 => cloud::<2, P39>(0, mode, n),
        40 => cloud::<2, P40>(0, mode, n),
        41 => cloud::<2, P41>(0, mode, n),
        42 => cloud::<2, P42>(0, mode, n),
        43 => cloud::<2, P43>(0, mode, n),
        44 => cloud::<2, P44>(0, mode, n),
        45 => cloud::<2, P45>(0, mode, n),
        46 => cloud::<2, P46>(0, mode, n),
        47 => cloud::<2, P47>(0, mode, n),
        48 => cloud::<2, P48>(0, mode, n),
        49 => cloud::<2, P49>(0, mode, n),
        50 => cloud::<2, P50>(0, mode, n),
        51 => cloud::<2, P51>(0, mode, n),
        52 => cloud::<2, P52>(0, mode, n),
        53 => cloud::<2, P53>(0, mode, n),
        54 => cloud::<2, P54>(0, mode, n),
        55 => cloud::<2, P55>(0, mode, n),
        56 => cloud::<2, P56>(0, mode, n),
        57 => cloud::<2, P57>(0, mode, n),
        58 => cloud::<2, P58>(0, mode, n),
        59 => cloud::<2, P59>(0, mode, n),
        60 => cloud::<2, P60>(0, mode, n),
        61 => cloud::<2, P61>(0, mode, n),
        62 => cloud::<2, P62>(0, mode, n),
        _ => cloud::<2, P63>(0, mode, n),
    }
}

pub fn triple(k: u64, mode: u64, n: u64) {
    match k {
        0 => cloud::<3, R0>(9, mode, n),
        1 => cloud::<3, R1>(9, mode, n),
        2 => cloud::<3, R2>(9, mode, n),
        3 => cloud::<3, R3>(9, mode, n),
        4 => cloud::<3, R4>(9, mode, n),
        5 => cloud::<3, R5>(9, mode, n),
        6 => cloud::<3, R6>(9, mode, n),
        7 => cloud::<3, R7>(9, mode, n),
        8 => cloud::<3, R8>(9, mode, n),
        9 => cloud::<3, R9>(9, mode, n),
        10 => cloud::<3, R10>(9, mode, n),
        11 => cloud::<3, R11>(9, mode, n),
        12 => cloud::<3, R12>(9, mode, n),
        13 => cloud::<3, R13>(9, mode, n),
        14 => cloud::<3, R14>(9, mode, n),
        15 => cloud::<3, R15>(9, mode, n),
        16 => cloud::<3, R16>(9, mode, n),
        17 => cloud::<3, R17>(9, mode, n),
        18 => cloud::<3, R18>(9, mode, n),
        19 => cloud::<3, R19>(9, mode, n),
        20 => cloud::<3, R20>(9, mode, n),
        21 => cloud::<3, R21>(9, mode, n),
        22 => cloud::<3, R22>(9, mode, n),
        23 => cloud::<3, R23>(9, mode, n),
        24 => cloud::<3, R24>(9, mode, n),
        25 => cloud::<3, R25>(9, mode, n),
        26 => cloud::<3, R26>(9, mode, n),
        27 => cloud::<3, R27>(9, mode, n),
        28 => cloud::<3, R28>(9, mode, n),
        29 => cloud::<3, R29>(9, mode, n),
        30 => cloud::<3, R30>(9, mode, n),
        31 => cloud::<3, R31>(9, mode, n),
        32 => cloud::<3, R32>(9, mode, n),
        33 => cloud::<3, R33>(9, mode, n),
        34 => cloud::<3, R34>(9, mode, n),
        35 => cloud::<3, R35>(9, mode, n),
        36 => cloud::<3, R36>(9, mode, n),
        37 => cloud::<3, R37>(9, mode, n),
        38 => cloud::<3, R38>(9, mode, n),
        39 => cloud::<3, R39>(9, mode, n),
        40 => cloud::<3, R40>(9, mode, n),
        41 => cloud::<3, R41>(9, mode, n),
        42 => cloud::<3, R42>(9, mode, n),
        43 => cloud::<3, R43>(9, mode, n),
        44 => cloud::<3, R44>(9, mode, n),
        45 => cloud::<3, R45>(9, mode, n),
        46 => cloud::<3, R46>(9, mode, n),
        47 => cloud::<3, R47>(9, mode, n),
        48 => cloud::<3, R48>(9, mode, n),
        49 => cloud::<3, R49>(9, mode, n),
        50 => cloud::<3, R50>(9, mode, n),
        51 => cloud::<3, R51>(9, mode, n),
        52 => cloud::<3, R52>(9, mode, n),
        53 => cloud::<3, R53>(9, mode, n),
        54 => cloud::<3, R54>(9, mode, n),
        55 => cloud::<3, R55>(9, mode, n),
        56 => cloud::<3, R56>(9, mode, n),
        57 => cloud::<3, R57>(9, mode, n),
        58 => cloud::<3, R58>(9, mode, n),
        59 => cloud::<3, R59>(9, mode, n),
        60 => cloud::<3, R60>(9, mode, n),
        61 => cloud::<3, R61>(9, mode, n),
        62 => cloud::<3, R62>(9, mode, n),
        _ => cloud::<3, R63>(9, mode, n),
    }
}
