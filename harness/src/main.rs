mod arith;
mod common;
mod iop;
mod pcs;
mod track;
mod gadget;
mod malformed;
use common::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let pid = a[1].clone();
    let get = |k: &str, d: &str| -> String {
        a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string())
    };
    let seed: u64 = get("--seed", "1").parse().unwrap_or(1);
    let thorough = get("--tier", "quick") == "thorough";
    let out = get("--out", "/dev/stdout");
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Ctx::new(seed ^ 0x5eed, thorough);
    let r = quiet(|| match pid.as_str() {
        "P01" => iop::p01(&mut c),
        "P02" => iop::p02(&mut c),
        "P03" => iop::p03(&mut c),
        "P04" => iop::p04(&mut c),
        "P05" => arith::p05(&mut c),
        "P06" => arith::p06(&mut c),
        "P07" => arith::p07(&mut c),
        "P08" => arith::p08(&mut c),
        "P09" => track::p09(&mut c),
        "P10" => track::p10(&mut c),
        "P11" => track::p11(&mut c),
        "P12" => track::p12(&mut c),
        "P13" => track::p13(&mut c),
        "P14" => pcs::p14(&mut c),
        "P15" => pcs::p15(&mut c),
        "P16" => pcs::p16(&mut c),
        "P17" => pcs::p17(&mut c),
        "P18" => gadget::p18(&mut c),
        "P19" => gadget::p19(&mut c),
        "P20" => gadget::p20(&mut c),
        "P21" => gadget::p21(&mut c),
        "P22" => gadget::p22(&mut c),
        "P23" => gadget::p23(&mut c),
        "P24" => gadget::p24(&mut c),
        "P25" => gadget::p25(&mut c),
        "P26" => malformed::p26(&mut c),
        _ => panic!("unknown property"),
    });
    if let Err(m) = r {
        c.fails.push(Fail { key: format!("{}/panic", pid), input: format!("code under test panicked: {}", m) });
    }
    let esc = |s: &str| -> String {
        let mut o = String::new();
        for ch in s.chars() {
            match ch {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                c if (c as u32) < 32 => o.push(' '),
                c => o.push(c),
            }
        }
        o
    };
    let fails: Vec<String> =
        c.fails.iter().map(|f| format!("{{\"key\":\"{}\",\"input\":\"{}\"}}", esc(&f.key), esc(&f.input))).collect();
    let kinds: Vec<String> = c.by_kind.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
    let samples: Vec<String> = c.samples.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let j = format!(
        "{{\"property\":\"{}\",\"evaluations\":{},\"distinct\":{},\"kinds\":{{{}}},\"samples\":[{}],\"failures\":[{}]}}\n",
        pid,
        c.evals,
        c.seen.len(),
        kinds.join(","),
        samples.join(","),
        fails.join(",")
    );
    std::fs::write(&out, j).unwrap();
}
