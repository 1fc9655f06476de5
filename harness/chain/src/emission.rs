use common::chain::config::emission_schedule::*;
use common::primitives::BlockHeight;
use std::collections::BTreeMap;
use std::time::Duration;

fn atoms(c: CoinUnit) -> u128 {
    c.to_amount_atoms().into_atoms()
}

const ATOMS: u128 = 100_000_000_000;
/// coins per block in each year, written down from the published schedule
const YEARS: [u128; 11] = [202, 151, 113, 85, 64, 48, 36, 27, 20, 15, 0];

//@ prop=G01
//@ time=40
//@ covers=first|middle|tail
//@ bounds=every 64-bit block height of the main network's schedule with its 120-second blocks
#[no_mangle]
pub extern "C" fn h_emission_mainnet() {
    let table = mainnet_schedule_table(Duration::from_secs(120));
    let s = table.schedule();
    let year = 365 * 24 * 60 * 60 / 120u64;
    let total = 400_000_000 * ATOMS + YEARS.iter().sum::<u128>() * year as u128 * ATOMS;
    sym::check(table.final_supply().map(atoms) == Some(total), "the final supply is the sum of the schedule");
    sym::check(total == 599_990_800 * ATOMS, "the final supply is the published one");
    sym::check(atoms(s.initial_supply()) == 400_000_000 * ATOMS, "the genesis block issues the initial supply");

    let h = sym::u64("height");
    sym::assume(h > 0);
    // block h is in year (h - 1) / year, where the first block has height 1
    let mut y = 0usize;
    while y < 10 && h > year * (y as u64 + 1) {
        y += 1;
    }
    sym::cover(if y == 0 { "first" } else if y < 10 { "middle" } else { "tail" });
    let before: u128 = YEARS[..y].iter().sum::<u128>() * year as u128;
    let inside = (h - year * y as u64) as u128;
    let want = (400_000_000 + before + inside * YEARS[y]) * ATOMS;
    let got = atoms(s.amount_at(BlockHeight::new(h)));
    sym::check(got == want, "the supply at a height is all the subsidies up to it");
    sym::check(atoms(s.subsidy(BlockHeight::new(h))) == YEARS[y] * ATOMS, "the subsidy of a block is its year's");
    sym::check(got <= total, "the supply never exceeds the final supply");
}

//@ prop=G01
//@ time=60
//@ covers=between|after|finite|endless
//@ bounds=schedules of two periods at any 32-bit distances with subsidies of 0 to 3 atoms, a 32-bit initial supply, any block height up to 2^32 beyond
#[no_mangle]
pub extern "C" fn h_emission_table() {
    let init = sym::u32("initial") as u128;
    let s: [u128; 3] = [sym::choose("s0", 4) as u128, sym::choose("s1", 4) as u128, sym::choose("s2", 4) as u128];
    let (a, len) = (1 + sym::u32("first period") as u64, 1 + sym::u32("length") as u64);
    let b = a + len;
    let c = |v: u128| CoinUnit::from_atoms(v);
    let mut p = BTreeMap::new();
    p.insert(BlockHeight::new(a), c(s[1]));
    p.insert(BlockHeight::new(b), c(s[2]));
    let table = EmissionScheduleTabular::new(c(init), c(s[0]), p);
    let sched = table.schedule();
    // in one of the three periods
    let x = sym::u32("height") as u64;
    let h = match sym::choose("period", 3) {
        0 => {
            sym::assume(x < a);
            1 + x
        }
        1 => {
            sym::assume(x < len);
            a + 1 + x
        }
        _ => b + 1 + x,
    };
    // a period's subsidy applies from the block after the height it is listed at
    let at = |h: u64| {
        if h <= a {
            init + h as u128 * s[0]
        } else if h <= b {
            init + a as u128 * s[0] + (h - a) as u128 * s[1]
        } else {
            init + a as u128 * s[0] + (b - a) as u128 * s[1] + (h - b) as u128 * s[2]
        }
    };
    sym::cover_if(h > a && h <= b, "between");
    sym::cover_if(h > b, "after");
    sym::check(atoms(sched.amount_at(BlockHeight::new(h))) == at(h), "the supply at a height is all the subsidies up to it");
    let sub = if h <= a { s[0] } else if h <= b { s[1] } else { s[2] };
    sym::check(atoms(sched.subsidy(BlockHeight::new(h))) == sub, "the subsidy is the period's");
    match table.final_supply() {
        Some(f) => {
            sym::cover("finite");
            sym::check(s[2] == 0 && atoms(f) == at(b), "the final supply is the one the last period starts with");
        }
        None => {
            sym::cover("endless");
            sym::check(s[2] != 0, "a supply ending in a period without subsidy is finite");
        }
    }
}
