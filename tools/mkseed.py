#!/usr/bin/env python3
"""mkseed.py ID PROP FILE OLD NEW NEEDS BREAKS: developer helper; writes seeded/ID from one
textual replacement (demo.rs is written separately)."""
import difflib, json, os, sys
def make(id, prop, edits, needs, breaks, demo):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    diff = ''
    byfile = {}
    for f, old, new in edits: byfile.setdefault(f, []).append((old, new))
    for f, es in byfile.items():
        s = open('/repo/' + f).read(); t = s
        for old, new in es:
            assert t.count(old) == 1, (id, f, t.count(old), old)
            t = t.replace(old, new)
        diff += ''.join(difflib.unified_diff(s.splitlines(True), t.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.rs', 'w').write(PRE + demo)
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
SH = '''#!/bin/bash
# Compiles demo.rs against the library built from /repo and runs it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
out=$(mktemp -d)
rustc --edition 2021 -Awarnings "$here/demo.rs" --extern ftml=/repo/target/debug/deps/libftml.rlib \\
    -L dependency=/repo/target/debug/deps -o "$out/demo" || exit 3
cd "$out" && timeout 120 "$out/demo"
'''
PRE = '''// Exits with a panic (non-zero) when the property is broken.
#![allow(unused)]
use ftml::data::{PageInfo, PageRef, ScoreValue};
use ftml::prelude::*;
use ftml::render::html::{HtmlOutput, HtmlRender};
use ftml::render::text::TextRender;
use std::borrow::Cow;

fn info() -> PageInfo<'static> {
    PageInfo {
        page: "some-page".into(), category: None, site: "sandbox".into(), title: "Title".into(), alt_title: None,
        score: ScoreValue::Integer(1), tags: vec!["tale".into(), "_cc".into()], language: "default".into(),
    }
}
fn run<T>(text: &str, mode: WikitextMode, f: impl FnOnce(&SyntaxTree, &PageInfo, &WikitextSettings) -> T) -> T {
    let st = WikitextSettings::from_mode(mode, Layout::Wikidot);
    let pi = info();
    let mut t = text.to_string();
    ftml::preprocess(&mut t);
    let tokens = ftml::tokenize(&t);
    let (tree, _) = ftml::parse(&tokens, &pi, &st).into();
    f(&tree, &pi, &st)
}
fn html(text: &str) -> HtmlOutput { run(text, WikitextMode::Page, |t, i, s| HtmlRender.render(t, i, s)) }
fn plain(text: &str) -> String { run(text, WikitextMode::Page, |t, i, s| TextRender.render(t, i, s)) }
'''
