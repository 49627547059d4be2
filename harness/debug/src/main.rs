//! C33: with debug output switched on everything gives what it gives without.
use keramics_core::mediator::Mediator;
use mc_engine::{Check, Modes};

#[allow(dead_code)]
#[path = "../../base/src/bin/c12_sigscan.rs"]
mod c12;
#[allow(dead_code)]
#[path = "../../comp/src/bin/c14_deflate.rs"]
mod c14;
#[allow(dead_code)]
#[path = "../../comp/src/bin/c15_bzip2.rs"]
mod c15;
#[allow(dead_code)]
#[path = "../../comp/src/bin/c16_lz77.rs"]
mod c16;
#[allow(dead_code)]
#[path = "../../comp/src/bin/c17_lzfse.rs"]
mod c17;
#[allow(dead_code)]
#[path = "../../comp/src/bin/c18_lzx.rs"]
mod c18;
#[allow(dead_code)]
#[path = "../../formats/src/bin/c20_qcow.rs"]
mod c20;
#[allow(dead_code)]
#[path = "../../formats/src/bin/c21_vhd.rs"]
mod c21;
#[allow(dead_code)]
#[path = "../../formats/src/bin/c22_vhdx.rs"]
mod c22;
#[allow(dead_code)]
#[path = "../../formats/src/bin/c23_udif.rs"]
mod c23;
#[allow(dead_code)]
#[path = "../../formats/src/bin/c24_sparse.rs"]
mod c24;
#[allow(dead_code)]
#[path = "../../formats/src/bin/c25_ewf.rs"]
mod c25;
#[allow(dead_code)]
#[path = "../../formats/src/bin/c26_partitions.rs"]
mod c26;
#[allow(dead_code)]
#[path = "../../formats/src/bin/c27_fat.rs"]
mod c27;
#[allow(dead_code)]
#[path = "../../formats/src/bin/c28_ext.rs"]
mod c28;
#[allow(dead_code)]
#[path = "../../formats/src/bin/c29_ntfs.rs"]
mod c29;
#[allow(dead_code)]
#[path = "../../formats/src/bin/c30_scanner.rs"]
mod c30;
#[allow(dead_code)]
#[path = "../../vfs/src/bin/c31_vfs.rs"]
mod c31;
#[allow(dead_code)]
#[path = "../../vfs/src/bin/c32_scan.rs"]
mod c32;

fn set(debug: bool) {
    Mediator::new(debug).make_current();
}

/// How many cases of a family are run in the quick check.
fn cases(label: &str, name: &str) -> u64 {
    match (label, name) {
        ("C14", "length and distance codes" | "code lengths" | "token sequences") => 300,
        ("C16", "lzvn opcodes") => 60,
        ("C17", "every symbol and extra bits") => 40,
        ("C17", "l, m and d frequencies") => 100,
        ("C18", "distances" | "call instructions") => 60,
        ("C20", name) if name.starts_with("level 1 ranges") => 60,
        (
            "C22",
            "differential images" | "allocations of fixed and dynamic images" | "several chunks",
        ) => 40,
        ("C23", "sequences of entries") => 200,
        ("C25", "sequences of chunks") => 200,
        ("C23", "sizes of entries" | "more ranges than the cache holds" | "large ranges") => 16,
        ("C24", "large bands") => 4,
        ("C25", "numbers of segments") => 8,
        ("C25", "sizes of sectors and chunks") => 40,
        ("C26", "histories of reads of two partitions") => 1,
        ("C27", "layouts") => 60,
        ("C28", "many groups") => 4,
        ("C29", "many entries") => 12,
        ("C29", "streams" | "faults") => 1,
        ("C29", "overlay data" | "damaged structures") => 200,
        ("C29", "deep trees") => 30,
        _ => 500,
    }
}

/// Every how many of n cases one is run for no more than the given number: a prime, as cases count through choices.
fn stride(n: u64, of: u64) -> u64 {
    let is_prime = |k: u64| (2..k).take_while(|d| d * d <= k).all(|d| k % d != 0);
    match n.div_ceil(of) {
        0 | 1 => 1,
        k => (k.max(3)..).find(|k| is_prime(*k)).expect("prime"),
    }
}

fn some(label: &str, name: &str, n: u64) -> u64 {
    stride(n, cases(label, name))
}

fn more(label: &str, name: &str, n: u64) -> u64 {
    stride(n, 20 * cases(label, name))
}

fn main() {
    let mut c = Check::new("C33");
    let runs: [(&'static str, fn()); 19] = [
        ("C12", c12::main),
        ("C14", c14::main),
        ("C15", c15::main),
        ("C16", c16::main),
        ("C17", c17::main),
        ("C18", c18::main),
        ("C20", c20::main),
        ("C21", c21::main),
        ("C22", c22::main),
        ("C23", c23::main),
        ("C24", c24::main),
        ("C25", c25::main),
        ("C26", c26::main),
        ("C27", c27::main),
        ("C28", c28::main),
        ("C29", c29::main),
        ("C30", c30::main),
        ("C31", c31::main),
        ("C32", c32::main),
    ];
    let here = c.spread();
    for (label, main) in runs.into_iter().filter(|_| here) {
        if std::env::var("ONLY").is_ok_and(|o| !o.split(',').any(|x| x == label)) {
            continue;
        }
        c.twice(
            Modes {
                label,
                what: "with debug output",
                set,
                every: if c.thorough() { more } else { some },
            },
            main,
        );
    }
    c.finish();
}
