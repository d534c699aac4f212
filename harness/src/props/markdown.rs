//! The documents the tests are written in.

use crate::engine::*;
use crate::src::Src;
use fajt_testing::markdown::{Markdown, MarkdownBlock, MarkdownSection};

#[derive(Clone, PartialEq, Debug)]
struct Section {
    name: String,
    text: Option<String>,
    block: Option<(String, String)>,
}

const NAMES: &[&str] = &["Source", "Output: ast", "Output: minified", "Output: error", "a", "A", "source", "Source 2", "É ###", "x `y`", "#", "Output", "Output:", "a.", "x #", "a ##", "`code`", "*b*", "Output: a: b", "1", "-", "Source!", "(a)", "\u{1F600}", "a \"b\"", "-->", "ast"];
const LANGUAGES: &[&str] = &["js", "", "json", "js parse:expr", "js  check-format:no source:module", "txt", "é", "js #", "js:", "js parse:expr,", "c++", "js=1", "#", "text/plain", ":", "js source:script check-format:yes", "1"];
const WORDS: &[&str] = &["var a = 1;", "", "text", "  indented", "a ``` b", "a ### b", "`", "``", "##", " ###", " ```", "# h1", "## h2", "é\u{2028}", "\ttab", "trailing  ", "{\n}", "-->", "`` `"];

fn lines(src: &mut Src, max: usize) -> String {
    let n = src.below(max + 1);
    (0..n).map(|_| src.pick(WORDS)).collect::<Vec<_>>().join("\n")
}

fn text(src: &mut Src) -> Option<String> {
    let t = lines(src, 4).trim().to_owned();
    // Trimming can bring a fence or title to the start of the line.
    (!t.is_empty() && !t.split('\n').any(|l| l.starts_with("```") || l.starts_with("###"))).then_some(t)
}

fn contents(src: &mut Src) -> String {
    let mut c = lines(src, 5);
    if !c.is_empty() || src.chance(1, 2) {
        c.push('\n');
    }
    c
}

fn document(src: &mut Src, max: usize) -> Vec<Section> {
    let n = src.range(1, max);
    (0..n)
        .map(|_| Section {
            name: src.pick(NAMES).to_owned(),
            text: if src.chance(1, 2) { text(src) } else { None },
            block: src.chance(2, 3).then(|| (src.pick(LANGUAGES).to_owned(), contents(src))),
        })
        .collect()
}

fn view<'a>(sections: &'a [Section]) -> Markdown<'a> {
    Markdown {
        sections: sections
            .iter()
            .map(|s| MarkdownSection {
                name: &s.name,
                text: s.text.as_deref(),
                block: s.block.as_ref().map(|(language, contents)| MarkdownBlock { language, contents }),
            })
            .collect(),
    }
}

/// As a person would write it.
fn by_hand(src: &mut Src, sections: &[Section]) -> String {
    let mut out = String::new();
    for (i, s) in sections.iter().enumerate() {
        out.push_str("###");
        out.push_str(src.pick(&[" ", "", "  ", "\t"]));
        // Without a space the name would be longer.
        if s.name.starts_with('#') && out.ends_with('#') {
            out.push(' ');
        }
        out.push_str(&s.name);
        out.push_str(src.pick(&["", " ", "\r"]));
        out.push('\n');
        let blank = |src: &mut Src| src.pick(&["", "\n", "\n\n", "  \n", "\r\n"]).to_owned();
        out.push_str(&blank(src));
        if let Some(t) = &s.text {
            out.push_str(t);
            out.push('\n');
            out.push_str(&blank(src));
        }
        if let Some((language, contents)) = &s.block {
            out.push_str("```");
            out.push_str(src.pick(&["", " "]));
            out.push_str(language);
            out.push_str(src.pick(&["", " ", "\r"]));
            out.push('\n');
            out.push_str(contents);
            out.push_str("```");
            if i + 1 < sections.len() || src.chance(1, 2) {
                out.push('\n');
            }
        }
        out.push_str(&blank(src));
    }
    out
}

/// The documented form.
fn written(sections: &[Section]) -> String {
    let parts: Vec<String> = sections
        .iter()
        .map(|s| {
            let mut out = format!("### {}\n", s.name);
            if let Some(t) = &s.text {
                out += &format!("{t}\n\n");
            }
            if let Some((language, contents)) = &s.block {
                let end = if contents.ends_with('\n') { "" } else { "\n" };
                out += &format!("```{language}\n{contents}{end}```");
            }
            out
        })
        .collect();
    parts.join("\n\n")
}

/// What is read of a document that was written: contents end with a line terminator.
fn settled(sections: &[Section]) -> Vec<Section> {
    let mut out = sections.to_vec();
    for s in &mut out {
        if let Some((_, c)) = &mut s.block {
            if !c.ends_with('\n') {
                c.push('\n');
            }
        }
    }
    out
}

fn documents(src: &mut Src, info: &mut Info, _idx: u64) -> CaseResult {
    let sections = document(src, 6);
    let hand = by_hand(src, &sections);
    info.set(&hand, sections.len() > 1);
    info.class_if(sections.iter().any(|s| s.block.is_some() && s.text.is_some()), "text and block");
    let about = format!("{hand:?}\nsections: {sections:?}");
    guard(&about, || {
        let same = |what: &str, a: &Markdown, b: &[Section]| -> CaseResult {
            if a != &view(b) {
                return Err(Fail::new(format!("{what} differs: {a:?}"), about.clone()));
            }
            Ok(())
        };
        same("document that was read", &Markdown::from_string(&hand), &sections)?;
        let printed = view(&sections).to_string();
        if printed != written(&sections) {
            return Err(Fail::new(format!("document that is written differs: {printed:?}"), about.clone()));
        }
        let settled = settled(&sections);
        let back = Markdown::from_string(&printed);
        same("document that was written and read", &back, &settled)?;
        if back.to_string() != printed {
            return Err(Fail::new("document changes when written again", about.clone()));
        }
        // Sections by their name: the first of that name.
        for name in NAMES {
            let expected = settled.iter().find(|s| s.name == *name);
            let section = back.get_section(name);
            if section.map(|s| s.name) != expected.map(|s| s.name.as_str())
                || section.and_then(|s| s.text) != expected.and_then(|s| s.text.as_deref())
            {
                return Err(Fail::new(format!("section {name:?} differs: {section:?}"), about.clone()));
            }
            let block = expected.and_then(|s| s.block.as_ref());
            if back.get_block(name).map(|b| (b.language, b.contents)) != block.map(|b| (b.0.as_str(), b.1.as_str()))
                || back.get_block_content(name) != block.map(|b| b.1.as_str())
                || section.and_then(|s| s.get_code()) != block.map(|b| b.1.as_str())
            {
                return Err(Fail::new(format!("block of {name:?} differs: {:?}", back.get_block(name)), about.clone()));
            }
        }
        Ok(())
    })??;
    // A history of replacing blocks.
    let mut model = sections.clone();
    let edits: Vec<(String, String, String)> = (0..src.below(4))
        .map(|_| (src.pick(NAMES).to_owned(), src.pick(LANGUAGES).to_owned(), if src.chance(1, 3) { lines(src, 2) } else { contents(src) }))
        .collect();
    info.class_if(edits.len() > 1, "more than one edit");
    let about = format!("{about}\nedits: {edits:?}");
    guard(&about, || {
        let mut doc = Markdown::from_string(&hand);
        for (name, language, contents) in &edits {
            doc.set_block_content(name, language, contents);
            if let Some(s) = model.iter_mut().find(|s| &s.name == name) {
                s.block = Some((language.clone(), contents.clone()));
            }
            if doc != view(&model) {
                return Err(Fail::new(format!("document with a replaced block differs: {doc:?}"), about.clone()));
            }
        }
        let printed = doc.to_string();
        if Markdown::from_string(&printed) != view(&settled(&model)) {
            return Err(Fail::new("document with replaced blocks differs when written and read", about.clone()));
        }
        Ok(())
    })??;
    if src.chance(1, 8) {
        files(src, info, &about)?;
    }
    Ok(())
}

/// Documents in files: a shorter one leaves nothing of the one before it.
fn files(src: &mut Src, info: &mut Info, about: &str) -> CaseResult {
    let dir = super::cli::Scratch::new();
    let path = dir.0.join("a.md");
    let mut history = vec![];
    info.class("files");
    std::fs::write(&path, "").expect("write");
    for _ in 0..src.range(1, 4) {
        let mut text = written(&document(src, 3));
        // Any text is kept as it is.
        for _ in 0..if src.chance(1, 2) { src.range(1, 4) } else { 0 } {
            let piece: &str = src.pick(&["\r\n", "\r", "\n\n", "\u{feff}", "\t", " \n", "\0", "é", "\u{2028}", "😀", "```", "\u{1b}", "\u{85}", "\n### ", "\\n"]);
            let mut at = match src.below(3) {
                0 => 0,
                1 => text.len(),
                _ => src.below(text.len() + 1),
            };
            while !text.is_char_boundary(at) {
                at -= 1;
            }
            text.insert_str(at, piece);
        }
        if src.chance(1, 50) {
            text = text.repeat(src.range(2, 200));
        }
        history.push(text.clone());
        let about = format!("{about}\nfiles: {history:?}");
        let (raw, read) = guard(&about, || {
            fajt_testing::write_string(&path, &text);
            (std::fs::read(&path).expect("read"), fajt_testing::read_string(&path))
        })?;
        if raw != format!("{text}\n").into_bytes() || read.as_bytes() != &raw[..] {
            return Err(Fail::new(format!("file differs: {:?}, read: {read:?}", String::from_utf8_lossy(&raw)), about));
        }
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P28",
        rule: "a document of more than one section",
        quick: 120_000,
        thorough: 2_000_000,
        run: documents,
        fixed: None,
        assumptions: &["lines of texts and blocks do not start with a title or fence; texts have no blanks around them"],
        slow: false,
    }]
}
