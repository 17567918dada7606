//! Reads qlc's report back from its standard output.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Diag {
    pub level: String,
    pub msg: String,
    pub file: Option<String>,
    pub line: Option<usize>,
    pub col: Option<usize>,
    pub help: Option<String>,
    pub body: String,
}
#[derive(Clone, Debug, Default)]
pub struct Diags {
    pub list: Vec<Diag>,
    /// text of the two summary lines, if printed
    pub err_summary: Option<String>,
    pub warn_summary: Option<String>,
    pub summaries: usize,
}
const HEADS: [&str; 3] = ["error: ", "warning: ", "program error: "];
pub fn parse(out: &str) -> Diags {
    let mut d = Diags::default();
    let mut cur: Option<Diag> = None;
    let flush = |c: &mut Option<Diag>, d: &mut Diags| {
        if let Some(x) = c.take() {
            let m = x.msg.trim_end();
            if x.level == "error" && m.starts_with("failure due to ") && x.file.is_none() {
                d.err_summary = Some(m.to_string());
                d.summaries += 1;
            } else if x.level == "warning" && m.ends_with(" emitted") && x.file.is_none() {
                d.warn_summary = Some(m.to_string());
                d.summaries += 1;
            } else {
                d.list.push(x);
            }
        }
    };
    for line in out.lines() {
        if let Some(h) = HEADS.iter().find(|h| line.starts_with(**h)) {
            flush(&mut cur, &mut d);
            cur = Some(Diag {
                level: h.trim_end_matches(": ").to_string(),
                msg: line[h.len()..].to_string(),
                file: None,
                line: None,
                col: None,
                help: None,
                body: String::new(),
            });
            continue;
        }
        let Some(c) = cur.as_mut() else { continue };
        let t = line.trim_start();
        if let Some(loc) = t.strip_prefix("--> ") {
            if c.file.is_none() {
                let mut parts: Vec<&str> = loc.rsplitn(3, ':').collect();
                parts.reverse();
                let nums: Vec<Option<usize>> = parts.iter().map(|p| p.parse().ok()).collect();
                if parts.len() == 3 && nums[1].is_some() && nums[2].is_some() {
                    c.file = Some(parts[0].to_string());
                    c.line = nums[1];
                    c.col = nums[2];
                } else if parts.len() >= 2 && nums[parts.len() - 1].is_some() {
                    c.file = Some(loc[..loc.rfind(':').unwrap()].to_string());
                    c.line = nums[parts.len() - 1];
                } else {
                    c.file = Some(loc.to_string());
                }
                continue;
            }
        }
        if let Some(h) = t.strip_prefix("= help: ") {
            c.help = Some(h.to_string());
            continue;
        }
        if c.file.is_none() {
            if !line.is_empty() {
                c.msg.push('\n');
                c.msg.push_str(line);
            }
        } else {
            c.body.push_str(line);
            c.body.push('\n');
        }
    }
    flush(&mut cur, &mut d);
    d
}
impl Diags {
    pub fn errors(&self) -> usize {
        self.list.iter().filter(|d| d.level != "warning").count()
    }
    pub fn warnings(&self) -> usize {
        self.list.iter().filter(|d| d.level == "warning").count()
    }
    /// What has to agree between two runs: lists in help texts are compared as sets.
    pub fn canon(&self) -> Vec<String> {
        let mut v: Vec<String> = self
            .list
            .iter()
            .map(|d| {
                let mut h: Vec<&str> = d.help.as_deref().unwrap_or("").split(['`', ',', ' ']).filter(|x| !x.is_empty()).collect();
                h.sort_unstable();
                format!("{}|{}|{:?}|{:?}|{:?}|{}", d.level, d.msg, d.file, d.line, d.col, h.join(" "))
            })
            .collect();
        v.sort();
        v.push(format!("{:?}/{:?}", self.err_summary, self.warn_summary));
        v
    }
}
