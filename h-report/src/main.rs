//! C27: the html report.
mod c27;
mod html;
use vengine::*;

fn main() {
    run_main(|p, tier| {
        Some(match p {
            "C27" => Check {
                level: "exploration",
                rule: "the parsed page has the logs, counts, lines, numbers and scores of the report, and equals the parsed page of neutral texts with the texts substituted".into(),
                assumptions: vec!["browsers read the page as the harness's html reader does".into()],
                spaces: c27::spaces(tier),
            },
            _ => return None,
        })
    });
}
