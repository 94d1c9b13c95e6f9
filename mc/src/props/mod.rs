pub mod board;
pub mod builds;
pub mod canon;
pub mod faults;
pub mod generation;
pub mod histories;
pub mod parsing;
pub mod reach;
pub mod solving;
pub mod strategy;
pub mod values;

use crate::engine::*;

pub fn build(id: &str, tier: Tier) -> Option<Prop> {
    Some(match id {
        "C01" => solving::c01(tier),
        "C02" => solving::c02(tier),
        "C03" => solving::c03(tier),
        "C04" => builds::c04(tier),
        "C05" => parsing::c05(tier),
        "C06" => parsing::c06(tier),
        "C07" => parsing::c07(tier),
        "C08" => parsing::c08(tier),
        "C09" => parsing::c09(tier),
        "C10" => solving::c10(tier),
        "C11" => generation::c11(tier),
        "C12" => generation::c12(tier),
        "C13" => generation::c13(tier),
        "C14" => generation::c14(tier),
        "C15" => canon::c15(tier),
        "C16" => canon::c16(tier),
        "C17" => canon::c17(tier),
        "C18" => strategy::c18(tier),
        "C19" => strategy::c19(tier),
        "C20" => strategy::c20(tier),
        "C21" => strategy::c21(tier),
        "C22" => strategy::c22(tier),
        "C23" => strategy::c23(tier),
        "C24" => board::c24(tier),
        "C25" => board::c25(tier),
        "C26" => canon::c26(tier),
        "C27" => histories::c27(tier),
        "C28" => reach::c28(tier),
        "C30" => faults::c30(tier),
        "C29" => values::c29(tier),
        _ => return None,
    })
}
