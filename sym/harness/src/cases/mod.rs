use crate::ir::*;
mod autograd;
mod capture;
mod data;
mod elementwise;
mod indexing;
mod linalg;
mod linear;
mod losses;
mod moves;
mod nn;
mod optim;
mod reduce;
mod resize;
mod sort;
pub mod util;
mod views;
pub fn cases(prop: &str, thorough: bool) -> Cases {
    let mut cs = Cases { v: vec![], thorough };
    match prop {
        "P01" => views::cases(&mut cs),
        "P02" => elementwise::binary(&mut cs),
        "P03" => elementwise::unary(&mut cs),
        "P04" => reduce::cases(&mut cs),
        "P07" => {
            moves::windows(&mut cs, false);
            moves::pools(&mut cs);
        }
        "P08" => {
            moves::joins(&mut cs, false);
            moves::pads(&mut cs, false);
        }
        "P19" => {
            reduce::grads_(&mut cs);
            moves::windows(&mut cs, true);
            moves::joins(&mut cs, true);
            moves::pads(&mut cs, true);
            resize::resizes(&mut cs, true);
            indexing::indexing(&mut cs, true);
            sort::topks(&mut cs, true);
        }
        "P09" => resize::resizes(&mut cs, false),
        "P11" => sort::selections(&mut cs),
        "P10" => indexing::indexing(&mut cs, false),
        "P12" => linalg::einsums(&mut cs),
        "P13" => linalg::linalg(&mut cs),
        "P05" => linear::matmul(&mut cs),
        "P06" => linear::convs(&mut cs),
        "P20" => {
            linear::matmul_grad(&mut cs);
            linear::conv_grad(&mut cs);
            linalg::linalg_grad(&mut cs);
        }
        "P21" => autograd::histories(&mut cs),
        "P22" => capture::snapshots(&mut cs),
        "P26" => data::loading(&mut cs),
        "P27" => nn::layers(&mut cs),
        "P28" => losses::losses(&mut cs),
        "P29" => optim::optimizers(&mut cs),
        "P18" => {
            elementwise::unary_grad(&mut cs);
            elementwise::binary_grad(&mut cs);
        }
        _ => {}
    }
    cs
}
