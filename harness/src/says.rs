//! C32: what the commands write to their standard streams. The runs are those of other checks, whose verdict does not
//! matter here.

use crate::engine::*;
use crate::procs::listen;

fn said(f: Family) -> Family {
    let run = f.run;
    family(f.name, f.bound, f.len, move |i, ctx| {
        let (wrong, heard) = listen(|| {
            let _ = run(i, ctx);
        });
        ctx.count("runs listened to", heard);
        match wrong {
            Some((m, case)) => fail(m, case),
            None => Ok(()),
        }
    })
}

pub fn c32(thorough: bool) -> Check {
    let mut families = crate::env::spoken_scenes();
    families.extend(crate::cli::c27(thorough).families);
    families.extend(crate::cli::c26(false).families.into_iter().filter(|f| thorough || !f.name.starts_with("many")));
    families.extend(crate::cli::c28(false).families.into_iter().filter(|f| f.name.starts_with("places")));
    if thorough {
        families.extend(crate::cli::c17(false).families);
    }
    families.extend(crate::faults::spoken_under_faults(thorough));
    Check {
        id: "C32",
        level: "fault_enumeration",
        rule: "a case is one run of a command (or a few) of which both standard streams are kept: in each outcome and verbosity, with a command line, patch or target that is refused, with clumps that apply or not, and with one system call disturbed in one way; runs that are distinct in their check of origin count as non-trivial.",
        assumptions: vec!["where writing to standard error is itself what fails, no message is asked for; a process that is killed or aborts has no exit status"],
        families: families.into_iter().map(said).collect(),
    }
}
