// Result handles and sources: C19.
use crate::transaction::result::*;
use crate::vxh::*;
pub fn c19(ctx: &mut Ctx) {
    while ctx.time_left() {
        let seed = ctx.rng.next();
        ctx.case("result", format!("seed {}", seed), || {
            let mut r = Rng(seed);
            type R = Option<Result<Vec<u64>, String>>;
            let mut all: Vec<(ResultHandle<Vec<u64>, String>, Option<ResultSource<Vec<u64>, String>>, R)> = vec![];
            for step in 0..r.range(1, 30) {
                match r.below(6) {
                    0 => { let (h, s) = create_eventual_result(); all.push((h, Some(s), None)); }
                    1 => { let e = format!("error {}", r.below(5)); all.push((create_result_from_error(e.clone()), None, Some(Err(e)))); }
                    2 | 3 => {
                        if all.is_empty() { continue; }
                        let i = r.below(all.len() as u64) as usize;
                        let x = &mut all[i];
                        if x.2.is_some() {
                            // what is told stays, if a second setting is taken at all
                            if x.1.is_none() || !r.chance(1, 4) { continue; }
                            let (ok, s) = (r.chance(1, 2), x.1.as_mut().unwrap());
                            let set = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if ok { s.set_result(vec![77]) } else { s.set_error("again".into()) }));
                            // refused with a panic: the end of that result
                            if set.is_err() { all.remove(i); }
                            continue;
                        }
                        if let Some(s) = &mut x.1 {
                            if r.chance(1, 2) { let v: Vec<u64> = (0..r.below(3)).map(|_| r.below(9)).collect(); s.set_result(v.clone()); x.2 = Some(Ok(v)); } else { let e = format!("failed {}", r.below(5)); s.set_error(e.clone()); x.2 = Some(Err(e)); }
                            if r.chance(1, 3) { x.1 = None; }
                        }
                    }
                    _ => for (i, (h, _, want)) in all.iter().enumerate() { let got = h.check_result(); ensure!(got == *want, "@told step {}: result {} of {} is {:?} instead of {:?}", step, i, all.len(), got, want); },
                }
            }
            for (h, _, want) in &all { for _ in 0..2 { let got = h.check_result(); ensure!(got == *want, "@told a result is {:?} instead of {:?}", got, want); } }
            Ok(())
        });
    }
}
