"""Descriptions of the seeded bugs, written from the properties and the code."""
BUGS = []


def bug(id, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=id[:3].upper(), needs=needs, breaks=breaks,
                     edits=edits, demo=demo))


PARSER = "src/parser.rs"
VERBS = "src/parser/control_verbs.rs"
LIB = "src/lib.rs"
COMPILER = "src/compiler.rs"
NG = "src/nfagraph/ng.rs"
RM = "src/util/report_manager.rs"
SEQ = "src/parser/component_sequence.rs"
SMWR = "src/smallwrite/smallwrite_build.rs"
PRELUDE = "use rescan::*;\n"

bug("c01-limit-verb-value", "a LIMIT_MATCH=/LIMIT_RECURSION= verb whose value is no u64",
    "compilation panics instead of reporting the unsupported verb",
    [(VERBS, '''                    if verb.starts_with("LIMIT_MATCH=") || verb.starts_with("LIMIT_RECURSION=") {
''', '''                    let limit = verb
                        .strip_prefix("LIMIT_MATCH=")
                        .or_else(|| verb.strip_prefix("LIMIT_RECURSION="));
                    if let Some(limit) = limit {
                        let _limit: u64 = limit.parse().expect("limit should be a number");
''')],
    PRELUDE + '''fn main() {
    for e in ["(*LIMIT_MATCH=7)a", "(*LIMIT_MATCH=many)a", "(*LIMIT_RECURSION=18446744073709551616)"] {
        assert!(compile(e, Flags::empty(), &Mode::Block).is_err());
    }
}''')

bug("c01-error-truncation", "rendering an error of over 256 bytes with a multi-byte character across byte 256",
    "Display of the compile error panics on a char boundary",
    [("src/util/compile_error.rs", '''            None => write!(f, "{}", self.reason),''',
      '''            None => write!(f, "{}", self.reason),'''.replace("self.reason", "self.reason")),
     ("src/util/compile_error.rs", '''            Some(index) => write!(f, "{} in expression {}", self.reason, index),''',
      '''            // Keep overly long messages readable.
            Some(index) if self.reason.len() > 256 => {
                write!(f, "{}... in expression {}", &self.reason[..256], index)
            }
            Some(index) => write!(f, "{} in expression {}", self.reason, index),'''),
     ],
    PRELUDE + '''fn main() {
    for pad in 0..4 {
        let e = format!("(*{}{})x", "X".repeat(pad), "\\u{1f600}".repeat(100));
        let err = compile(&e, Flags::empty(), &Mode::Block).err().expect("unknown verb");
        assert!(!err.to_string().is_empty());
    }
}''')

bug("c01-deep-frames", "about 4,000 or more nested groups",
    "the parse tree walk overflows the main thread's stack",
    [(SEQ, '''    let mut child_iter = c.children.iter().peekable();
    while let Some(child) = child_iter.next() {
        walk_component(v, child)?;

        if child_iter.peek().is_some() {
            v.during_component_sequence(c);
        }
    }
''', '''    // Visit the children in chunks, gathered on the stack.
    const CHUNK: usize = 256;
    for (n, chunk) in c.children.chunks(CHUNK).enumerate() {
        let mut batch: [Option<&Component>; CHUNK] = [None; CHUNK];
        for (slot, child) in batch.iter_mut().zip(chunk) {
            *slot = Some(child);
        }
        for (i, child) in batch.iter().flatten().enumerate() {
            walk_component(v, child)?;

            if n * CHUNK + i + 1 < c.children.len() {
                v.during_component_sequence(c);
            }
        }
    }
''')],
    PRELUDE + '''fn main() {
    let n = 7990;
    let e = format!("{}a{}", "(".repeat(n), ")".repeat(n));
    assert!(compile(&e, Flags::empty(), &Mode::Block).is_ok());
}''')

bug("c02-empty-verb", "an expression that starts with `(*)`",
    "a valid expression is rejected as an unknown control verb with an empty name",
    [(VERBS, '''    bytes::complete::{is_not, tag},''', '''    bytes::complete::{tag, take_while},'''),
     (VERBS, '''    delimited(tag("(*"), is_not(")"), char(')'))(input)''',
      '''    delimited(tag("(*"), take_while(|c| c != ')'), char(')'))(input)''')],
    PRELUDE + '''fn main() {
    assert!(compile("(*)abc", Flags::empty(), &Mode::Block).is_ok());
    assert!(compile("a(*)abc", Flags::empty(), &Mode::Block).is_ok());
}''')

bug("c02-balanced-tail", "a group left open whose open parenthesis is the last character but one or later",
    "an unbalanced expression that ends in an open parenthesis is accepted",
    [(PARSER, '''        while !self.p.is_empty() {
            self.main(self.p)?;
        }
''', '''        while !self.p.is_empty() {
            if self.p.len() == 1 && !self.p.starts_with(')') {
                // A trailing literal needs no dispatch.
                if let Some(c) = self.p.chars().next().filter(|c| *c != '|') {
                    add_literal(&mut self.current_seq, c, self.mode)?;
                    break;
                }
            }
            self.main(self.p)?;
        }
''')],
    PRELUDE + '''fn main() {
    assert!(compile("ab", Flags::empty(), &Mode::Block).is_ok());
    assert!(compile("ab(", Flags::empty(), &Mode::Block).is_err());
}''')

bug("c03-outermost-group", "at least two groups left open",
    "the error names the outermost open parenthesis instead of the innermost",
    [(PARSER, '''        if let Some(seq) = self.sequences.last() {''',
      '''        if let Some(seq) = self.sequences.first() {''')],
    PRELUDE + '''fn main() {
    let e = compile("a(b(c", Flags::empty(), &Mode::Block).err().unwrap();
    assert!(e.to_string().contains("started at index 3."), "{}", e);
}''')

bug("c03-verb-name-cut", "an unknown control verb with white space in its name",
    "the error does not give the whole name of the verb",
    [(VERBS, '''                        format!("Unknown control verb {} at index {}", verb, start + 2),''',
      '''                        format!(
                            "Unknown control verb {} at index {}",
                            verb.split_whitespace().next().unwrap_or(verb),
                            start + 2
                        ),''')],
    PRELUDE + '''fn main() {
    let e = compile("(*FOO BAR)c", Flags::empty(), &Mode::Block).err().unwrap();
    assert!(e.to_string().starts_with("Unknown control verb FOO BAR at index 2"), "{}", e);
}''')

bug("c04-skip-repeated", "an expression repeated with the same match ID but flags that make it invalid",
    "the invalid repetition is not diagnosed",
    [(LIB, '''    for (i, (exp, &fl, &id)) in izip!(expressions, flags, ids).enumerate() {
        if let Err(mut e) = add_expression''', '''    for (i, (exp, &fl, &id)) in izip!(expressions, flags, ids).enumerate() {
        // Nothing to do for an expression that is simply repeated.
        if i > 0 && expressions[i - 1] == *exp && ids[i - 1] == id {
            continue;
        }
        if let Err(mut e) = add_expression''')],
    PRELUDE + '''fn main() {
    let bad = Flags::QUIET | Flags::SOM_LEFTMOST;
    assert!(compile_multi(&["abc"], &[bad], &[1], &Mode::Block).is_err());
    let e = compile_multi(&["abc", "abc"], &[Flags::empty(), bad], &[1, 1], &Mode::Block);
    assert!(e.err().unwrap().to_string().ends_with("in expression 1"));
}''')

bug("c04-index-16-bit", "a list of more than 65,536 expressions with a bad one beyond that",
    "the error blames the wrong expression",
    [(LIB, '''            e.set_expression_index(i.try_into().unwrap());''',
      '''            e.set_expression_index((i as u16).into());''')],
    PRELUDE + '''fn main() {
    let n = 65_540;
    let mut exprs = vec!["|"; n];
    exprs[n - 1] = "a)";
    let err = compile_multi(&exprs, &vec![Flags::empty(); n], &vec![7; n], &Mode::Block).err().unwrap();
    assert!(err.to_string().ends_with(" in expression 65539"), "{}", err);
}''')

bug("c05-quiet-not-registered", "a QUIET literal among those that share a match ID",
    "a conflict of SINGLEMATCH flags is not diagnosed if a QUIET literal is involved",
    [(NG, '''        // Register external report and validate highlander constraints.
        self.rm.register_ext_report(
            external_report,
            ExternalReportInfo::new(highlander, expr_index),
        )?;
''', '''        // Register external report and validate highlander constraints.
        // A quiet expression reports nothing.
        if !quiet {
            self.rm.register_ext_report(
                external_report,
                ExternalReportInfo::new(highlander, expr_index),
            )?;
        }
''')],
    PRELUDE + '''fn main() {
    let s = Flags::SINGLEMATCH;
    let q = Flags::QUIET;
    assert!(compile_multi(&["a", "b"], &[s, Flags::empty()], &[1, 1], &Mode::Block).is_err());
    assert!(compile_multi(&["a", "b"], &[s, q], &[1, 1], &Mode::Block).is_err());
}''')

bug("c05-latest-named", "three literals with the same match ID, the third of which disagrees",
    "the error names the latest agreeing expression instead of the earliest",
    [(RM, '''            Entry::Occupied(e) => {
                let eri = e.get();''', '''            Entry::Occupied(mut e) => {
                let eri = *e.get();'''),
     (RM, '''                    return Err(CompileError::with_index(ext.first_pattern_index, out));
                }
''', '''                    return Err(CompileError::with_index(ext.first_pattern_index, out));
                }
                e.insert(ext);
''')],
    PRELUDE + '''fn main() {
    let n = Flags::empty();
    let e = compile_multi(&["a", "b", "c"], &[n, n, Flags::SINGLEMATCH], &[9, 9, 9], &Mode::Block)
        .err().unwrap();
    assert!(e.to_string().contains("previous expression (index 0)"), "{}", e);
}''')

bug("c05-id-16-bit", "two match IDs that agree in their low 16 bits",
    "literals with different match IDs are found to conflict",
    [(RM, '''    external_id_map: HashMap<ReportId, ExternalReportInfo>,''',
      '''    external_id_map: HashMap<u16, ExternalReportInfo>,'''),
     (RM, '''        match self.external_id_map.entry(id) {''',
      '''        #[allow(clippy::cast_possible_truncation)]
        match self.external_id_map.entry(id as u16) {''')],
    PRELUDE + '''fn main() {
    let f = [Flags::SINGLEMATCH, Flags::empty()];
    assert!(compile_multi(&["a", "b"], &f, &[1, 2], &Mode::Block).is_ok());
    assert!(compile_multi(&["a", "b"], &f, &[5, 0x7_0005], &Mode::Block).is_ok());
}''')

bug("c06-length-in-chars", "an expression of more than 16,000 bytes but not of so many characters",
    "an overlong expression is not rejected as such",
    [(COMPILER, '''    if expression.len() > cc.grey.limit_pattern_length {''',
      '''    if expression.chars().count() > cc.grey.limit_pattern_length {''')],
    PRELUDE + '''fn main() {
    let e = "\\u{e9}".repeat(8001);
    let err = compile(&e, Flags::empty(), &Mode::Block).err().unwrap();
    assert!(err.to_string().contains("exceeds limit"), "{}", err);
}''')

bug("c06-count-distinct-ids", "a list over the pattern count limit in which match IDs repeat",
    "a list with too many patterns is accepted",
    [(LIB, '''    if expressions.len() > g.limit_pattern_count {''',
      '''    let mut distinct = ids.to_vec();
    distinct.sort_unstable();
    distinct.dedup();
    if distinct.len() > g.limit_pattern_count {''')],
    PRELUDE + '''fn main() {
    let mut l = verif::Limits::default();
    l.limit_pattern_count = 2;
    let f = [Flags::empty(); 3];
    assert!(verif::compile_multi_with(&["a", "b", "c"], &f, &[1, 2, 3], &Mode::Block, &l).is_err());
    assert!(verif::compile_multi_with(&["a", "b", "c"], &f, &[1, 2, 2], &Mode::Block, &l).is_err());
}''')

bug("c07-index-at-close", "nested groups",
    "capture indices follow the order of close parentheses",
    [(PARSER, '''        let mut seq = ComponentSequence::default();
        seq.capture_index = Some(self.group_index);
        self.group_index += 1;
        mem::swap''', '''        let mut seq = ComponentSequence::default();
        mem::swap'''),
     (PARSER, '''        mem::swap(&mut self.current_seq, &mut seq);
        seq.finalize();''', '''        mem::swap(&mut self.current_seq, &mut seq);
        seq.capture_index = Some(self.group_index);
        self.group_index += 1;
        seq.finalize();''')],
    PRELUDE + '''use rescan::verif::Tree;
fn main() {
    let t = verif::parse("((a))", Flags::empty()).ok().unwrap();
    let Tree::Sequence(Some(0), c) = t else { panic!() };
    assert!(matches!(c[0], Tree::Sequence(Some(1), _)));
}''')

bug("c07-trailing-empty-branch", "an alternation of two or more branches before a final empty one",
    "the empty last branch is lost",
    [(SEQ, '''        if self.alternation.is_some() {
            self.add_alternation();
            debug_assert''', '''        if let Some(alternation) = &self.alternation {
            if !self.children.is_empty() || !alternation.has_choice() {
                self.add_alternation();
            }
            debug_assert'''),
     ("src/parser/component_alternation.rs", '''        self.children.push(component);
    }
''', '''        self.children.push(component);
    }

    pub(super) fn has_choice(&self) -> bool {
        self.children.len() > 1
    }
'''), ("src/parser/component_alternation.rs", '''impl ComponentAlternation {
    pub(super) fn append(&mut self, component: ComponentSequence) {''', '''impl ComponentAlternation {
    /// Appends a branch.
    pub(super) fn append(&mut self, component: ComponentSequence) {''')],
    PRELUDE + '''use rescan::verif::Tree;
fn main() {
    let t = verif::parse("a|b|", Flags::empty()).ok().unwrap();
    let Tree::Sequence(_, c) = t else { panic!() };
    let Tree::Alternation(b) = &c[0] else { panic!() };
    assert_eq!(b.len(), 3);
}''')

bug("c08-verb-trimmed", "a control verb with a space around its name",
    "verb names are not matched whole",
    [(VERBS, '''            match verb {
                "UCP" => {''', '''            match verb.trim() {
                "UCP" => {''')],
    PRELUDE + '''fn main() {
    assert!(compile("(*UCP )a", Flags::empty(), &Mode::Block).is_err());
    assert!(compile("(* UTF8)a", Flags::empty(), &Mode::Block).is_err());
}''')

bug("c08-second-verb", "a second verb right after a supported one",
    "something that is not at the start of the expression is taken for a control verb",
    [(VERBS, '''            Ok(input)
        }
        Err(_) => Ok(input),''', '''            if input.starts_with("(*U") {
                return read_control_verbs(input, start + 2, mode);
            }
            Ok(input)
        }
        Err(_) => Ok(input),''')] + [(VERBS, '''        Ok((input, verb)) => {
            match verb {''', '''        Ok((input, verb)) => {
            let verb: &str = verb;
            match verb {''')],
    PRELUDE + '''fn main() {
    let m = verif::parse_mode("(*UTF8)(*UCP)a", Flags::empty()).ok().unwrap();
    assert!(m.utf8 && !m.ucp);
}''')

bug("c08-utf8-from-flags", "a UTF8 verb without the UTF8 flag",
    "the expression is not noted as UTF-8",
    [(COMPILER, '''        expr.utf8 = mode.utf8; // utf8 may be set by parse()''',
      '''        expr.utf8 = flags.contains(Flags::UTF8) && mode.utf8;''')],
    PRELUDE + '''fn main() {
    let i = verif::expression(0, "(*UTF8)a", Flags::empty(), 0).ok().unwrap();
    assert!(i.utf8);
}''')

bug("c09-mode-after-group", "a letter after a group, with CASELESS",
    "letters after a closed top-level group are case-sensitive again",
    [(PARSER, '''            (v.seq, v.mode)''', '''            (v.seq, self.sequences.last().map_or(ParseMode::default(), |s| s.mode))''')],
    PRELUDE + '''fn main() {
    let a = verif::parse("(a)b", Flags::CASELESS).ok().unwrap();
    let b = verif::parse("(a)B", Flags::CASELESS).ok().unwrap();
    assert!(a == b);
}''')

bug("c09-pair-via-lower", "the letter `Z` or `z` with CASELESS",
    "one letter is left out of case folding",
    [("src/util/charreach.rs", '''    for c in b'A'..=b'Z' {
        if cr.test(c)''', '''    for c in b'A'..b'Z' {
        if cr.test(c)''')],
    PRELUDE + '''fn main() {
    for c in b'a'..=b'z' {
        let l = (c as char).to_string();
        let a = verif::parse(&l, Flags::CASELESS).ok().unwrap();
        let b = verif::parse(&l.to_uppercase(), Flags::CASELESS).ok().unwrap();
        assert!(a == b, "{}", l);
    }
}''')

bug("c10-branches-reversed", "an alternation whose branches are not all alike",
    "positions are not in reading order",
    [("src/parser/component_alternation.rs", '''        for c in &mut self.children {
            c.note_positions(bs);''', '''        for c in self.children.iter_mut().rev() {
            c.note_positions(bs);''')],
    PRELUDE + '''fn main() {
    let (_, g) = verif::graph(0, "a|b", Flags::empty(), 0).ok().unwrap();
    assert!(g.vertices[4].reach == b"a" && g.vertices[5].reach == b"b");
}''')

bug("c10-nul-position", "a NUL character in the expression",
    "a NUL character gets no position",
    [("src/parser/ascii_component_class.rs", '''        let builder = bs.get_builder_mut();
        let position''', '''        if self.cr.find_first().unwrap_or(0) == 0 {
            return; // nothing to reach
        }
        let builder = bs.get_builder_mut();
        let position'''), ("src/parser/ascii_component_class.rs", '''        builder.add_char_reach(position, self.cr);''',
      '''        let cr = self.cr;
        builder.add_char_reach(position, cr);''')],
    PRELUDE + '''fn main() {
    let (_, g) = verif::graph(0, "a|\\0", Flags::empty(), 0).ok().unwrap();
    assert_eq!(g.vertices.len(), 6);
}''')

bug("c11-long-literal", "a literal of more than 255 characters",
    "a long literal does not take the literal shortcut",
    [("src/parser/shortcut_literal.rs", '''    if lit.is_empty() {''',
      '''    if lit.is_empty() || u8::try_from(lit.len()).is_err() {'''),
     ("src/parser/shortcut_literal.rs", '''use std::convert::TryInto;''', '''use std::convert::{TryFrom, TryInto};''')],
    PRELUDE + '''fn main() {
    for n in [1, 255, 256, 1000] {
        let mut b = verif::Builder::new(1, &Mode::Block, &Default::default());
        assert!(b.shortcut_literal(0, &"a".repeat(n), Flags::empty(), 0).ok().unwrap());
        assert_eq!(b.min_width(), Some(n));
    }
}''')

bug("c11-digits-caseless", "a non-letter after a letter, with CASELESS",
    "a character that is no letter is held as case-insensitive",
    [("src/parser/shortcut_literal.rs", '''            self.lit
                .push(cr.find_first().expect("should have one bit set"), false);''',
      '''            let nocase = self.lit.any_nocase();
            self.lit
                .push(cr.find_first().expect("should have one bit set"), nocase);''')],
    PRELUDE + '''fn main() {
    let l = verif::literal("a1", Flags::CASELESS).ok().unwrap().unwrap();
    let n: Vec<bool> = l.iter().map(|e| e.verif_nocase()).collect();
    assert_eq!(n, [true, false]);
}''')

bug("c12-count-before-length", "more literals than the limit, too long ones among them",
    "literals that are skipped for their length count toward the limit",
    [(SMWR, '''        if literal.len() > self.cc.grey.small_write_largest_buffer {
            return; // too long
        }

        self.num_literals += 1;
''', '''        self.num_literals += 1;
'''), (SMWR, '''            // Exceeded literal limit.
            self.poisoned = true;
            return;
        }
''', '''            // Exceeded literal limit.
            self.poisoned = true;
            return;
        }

        if literal.len() > self.cc.grey.small_write_largest_buffer {
            return; // too long
        }
''')],
    PRELUDE + '''fn main() {
    let mut l = verif::Limits::default();
    l.small_write_max_literals = 2;
    let mut b = verif::Builder::new(3, &Mode::Block, &l);
    for (i, n) in [71, 1, 2].into_iter().enumerate() {
        b.add_expression(i, &"a".repeat(n), Flags::empty(), i as u32).ok().unwrap();
    }
    assert!(!b.small_write_poisoned());
    assert_eq!(b.small_write_num_literals(), 2);
}''')

bug("c12-vertex-limit", "literals that need exactly 8,000 vertices",
    "the engine gives up one vertex early",
    [(SMWR, '''    trie.inner.node_count() <= MAX_TRIE_VERTICES''', '''    trie.inner.node_count() < MAX_TRIE_VERTICES''')],
    PRELUDE + '''fn main() {
    // 7,999 vertices beside the root: 63 * 126 + 61.
    let mut b = verif::Builder::new(200, &Mode::Block, &Default::default());
    for i in 0..127_usize {
        let n = if i < 126 { 63 } else { 61 };
        let mut s = String::new();
        s.push((i as u8 % 96 + b' ') as char);
        let s = format!("{}{}", char::from(i as u8 + 1), "x".repeat(n - 1));
        let mut lit = rescan_literal(&s);
        let _ = &mut lit;
        b.small_write_add_literal(&lit, 0);
    }
    assert_eq!(b.small_write_trie(false).num_vertices, 8000);
    assert!(!b.small_write_poisoned());
}
fn rescan_literal(s: &str) -> verif::Ue2Literal {
    let mut l = verif::Ue2Literal::default();
    for c in s.bytes() { l.push(c, false); }
    l
}''')

bug("c12-reports-at-end-only", "a literal that is a prefix of one added before, and a report of the vertex it ends at",
    "the report of a literal already covered by a longer one is dropped",
    [(SMWR, '''    trie.inner[u].reports.insert(report);
''', '''    // Inner vertices fire through their descendants.
    if trie
        .inner
        .neighbors_directed(u, Direction::Outgoing)
        .nth(1)
        .is_none()
    {
        trie.inner[u].reports.insert(report);
    }
'''), ],
    PRELUDE + '''fn main() {
    let mut b = verif::Builder::new(3, &Mode::Block, &Default::default());
    for (i, e) in ["abc", "abd", "ab"].iter().enumerate() {
        b.add_expression(i, e, Flags::empty(), i as u32).ok().unwrap();
    }
    let t = b.small_write_trie(false);
    let (_, r) = t.vertices.iter().find(|(p, _)| p == b"ab").unwrap();
    assert_eq!(r.len(), 1);
}''')

bug("c13-key-high-bit", "two pattern indices that differ in the highest bit only",
    "two exhaustion keys coincide",
    [(RM, '''        *self.to_exhaustible_key_map.entry(a.into()).or_insert(size)''',
      '''        let a = S64a::from(a) & S64a::from(i32::MAX);
        *self.to_exhaustible_key_map.entry(a).or_insert(size)''')],
    PRELUDE + '''fn main() {
    let mut r = verif::Reports::new(&Default::default());
    assert_eq!(r.exhaustible_key(5), 0);
    assert_eq!(r.exhaustible_key(5 | 1 << 31), 1);
}''')

bug("c13-report-32-bit", "two reports whose minimum lengths agree in the low 32 bits",
    "different reports get the same internal ID",
    [("src/util/report.rs", '''#[derive(Clone, Hash, PartialEq, Eq)]
pub(crate) struct Report {
    /// Minimum match length (start of match to current offset).
    pub(crate) min_length: u64,
}
''', '''#[derive(Clone)]
pub(crate) struct Report {
    /// Minimum match length (start of match to current offset).
    pub(crate) min_length: u64,
}

impl Report {
    /// What tells reports apart.
    fn key(&self) -> u32 {
        self.min_length as u32
    }
}

impl std::hash::Hash for Report {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.key().hash(state);
    }
}

impl PartialEq for Report {
    fn eq(&self, other: &Self) -> bool {
        self.key() == other.key()
    }
}

impl Eq for Report {}
''')],
    PRELUDE + '''fn main() {
    let mut r = verif::Reports::new(&Default::default());
    assert_eq!(r.internal_id(3).ok(), Some(0));
    assert_eq!(r.internal_id(3 + (1 << 32)).ok(), Some(1));
}''')

bug("c13-refused-not-exhaustible", "a registration without SINGLEMATCH that is refused, with only SINGLEMATCH patterns before",
    "a refused registration makes the database count as not globally exhaustible",
    [(RM, '''    ) -> Result<(), CompileError> {
        match self''', '''    ) -> Result<(), CompileError> {
        // Any non-highlander pattern will render us not globally exhaustible.
        if !ext.highlander {
            self.global_exhaust = false;
        }
        match self'''), (RM, '''
        // Any non-highlander pattern will render us not globally exhaustible.
        if !ext.highlander {
            self.global_exhaust = false;
        }
        Ok(())''', '''        Ok(())''')],
    PRELUDE + '''fn main() {
    let mut r = verif::Reports::new(&Default::default());
    assert!(r.register(1, true, 0).is_ok());
    assert!(r.register(1, false, 1).is_err());
    assert!(r.global_exhaust());
}''')

bug("c13-limit-plus-one", "as many different reports as the limit allows, and one more",
    "one report too many is given an ID",
    [(RM, '''        if self.num_reports() >= self.grey.limit_report_count {''',
      '''        if self.num_reports() > self.grey.limit_report_count {''')],
    PRELUDE + '''fn main() {
    let mut l = verif::Limits::default();
    l.limit_report_count = 2;
    let mut r = verif::Reports::new(&l);
    assert!(r.internal_id(1).is_ok() && r.internal_id(2).is_ok());
    assert!(r.internal_id(3).is_err());
}''')

BF = "src/util/bitfield.rs"
CR = "src/util/charreach.rs"

bug("c14-range-overwrites", "setting a range that begins on a block boundary over a set that has members in its last block past the range",
    "setting a range removes members",
    [(BF, '''            self.bits[i / BLOCK_SIZE as usize] |= Self::mask_bit(to.wrapping_add(1)) - 1;''',
      '''            self.bits[i / BLOCK_SIZE as usize] = Self::mask_bit(to.wrapping_add(1)) - 1;''')],
    PRELUDE + '''fn main() {
    let mut c = verif::Class::from_char(100);
    c.set_range(10, 90);
    assert!(c.test(100));
}''')

bug("c14-order-partial", "two sets that differ in their last block only",
    "the ordering calls different sets equal",
    [(BF, '''#[derive(Clone, Copy, Debug, Default, Eq, Hash, Ord, PartialOrd, PartialEq)]
pub(crate) struct BitField256 {
    bits: [u64; 4],
}
''', '''#[derive(Clone, Copy, Debug, Default, Eq, Hash, PartialEq)]
pub(crate) struct BitField256 {
    bits: [u64; 4],
}

impl Ord for BitField256 {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        self.bits[..3].cmp(&other.bits[..3])
    }
}

impl PartialOrd for BitField256 {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}
''')],
    PRELUDE + '''fn main() {
    let a = verif::Class::from_char(200);
    let b = verif::Class::from_char(201);
    assert!(a != b && a.cmp(&b) != std::cmp::Ordering::Equal);
}''')

bug("c14-nth-skips-dense", "an n-th element in a block with all 64 bits set",
    "the n-th element is wrong",
    [(BF, '''                for _ in sum..n.into() {
                    debug_assert!(block > 0);
                    block &= block - 1;
                }''', '''                if block == ALL_ONES {
                    // Every bit counts.
                    return Some(i as u8 * BLOCK_SIZE + n % BLOCK_SIZE);
                }
                for _ in sum..n.into() {
                    debug_assert!(block > 0);
                    block &= block - 1;
                }''')] + [(BF, '''                debug_assert!(block > 0);
                #[allow(clippy::cast_possible_truncation)]
                let bit = i as u8''', '''                debug_assert!(block > 0 && sum <= n.into());
                #[allow(clippy::cast_possible_truncation)]
                let bit = i as u8''')],
    PRELUDE + '''fn main() {
    let mut c = verif::Class::from_range(64, 127);
    c.set(3);
    assert_eq!(c.find_nth(1), Some(64));
}''')

bug("c15-bitvector-clears-all", "a buffer longer than 32 bytes with other data behind",
    "bytes beyond the bit vector are overwritten",
    [(CR, '''    for b in bits[0..32].iter_mut() {''', '''    assert!(bits.len() >= 32, "bit vector is too short");
    for b in bits.iter_mut() {''')],
    PRELUDE + '''fn main() {
    let mut b = [7_u8; 40];
    verif::Class::from_char(9).fill_bitvector(&mut b);
    assert_eq!(b[32..], [7; 8]);
}''')

bug("c15-mask-of-empty", "sets whose members are all above 0x7f",
    "the and/compare mask is not the tightest",
    [(CR, '''    let and_mask = !(lo ^ hi);
    let cmp_mask = lo;''', '''    let and_mask = !(lo ^ hi) & if hi & 0x80 != 0 && lo != hi { 0x7f } else { 0xff };
    let cmp_mask = lo & and_mask;''')],
    PRELUDE + '''fn main() {
    let (a, c) = verif::Class::from_range(0xc0, 0xc3).and_cmp_mask();
    assert_eq!((a, c), (0xfc, 0xc0));
}''')

US = "src/util/ue2string.rs"
bug("c16-order-any-nocase", "two literals with the same characters that differ in where they are case-insensitive",
    "the ordering calls different literals equal",
    [(US, '''            self.nocase.cmp(&other.nocase)''', '''            self.any_nocase().cmp(&other.any_nocase())''')],
    PRELUDE + '''fn main() {
    let mut a = verif::Ue2Literal::default();
    a.push(b'A', true); a.push(b'B', false);
    let mut b = verif::Ue2Literal::default();
    b.push(b'A', false); b.push(b'B', true);
    assert!(a != b && a.cmp(&b) != std::cmp::Ordering::Equal);
}''')

bug("c16-mixed-early-out", "a literal that starts with a non-letter",
    "a mixed literal is not recognised",
    [(US, '''        if !ourisalpha(e.c) {
            continue;
        }
        if e.nocase {''', '''        if !ourisalpha(e.c) {
            if cs == nc {
                break;
            }
            continue;
        }
        if e.nocase {''')],
    PRELUDE + '''fn main() {
    let mut a = verif::Ue2Literal::default();
    a.push(b'1', false); a.push(b'A', true); a.push(b'b', false);
    assert!(verif::mixed_sensitivity(&a));
}''')

DC = "src/util/dump_charclass.rs"
bug("c17-short-range-dash", "a class with a run of three characters",
    "a run of three is printed as its ends only",
    [(DC, '''    } else if c2 - c1 < 4 {''', '''    } else if c2 - c1 < 3 {
        describe_char(f, c1, out_type)?;
        describe_char(f, c2, out_type)
    } else if c2 - c1 < 4 {''')],
    PRELUDE + '''fn main() {
    let c = verif::Class::from_bytes(b"ghiz");
    assert_eq!(c.describe(256, false), "[ghiz]");
}''')

bug("c17-escape-dash", "a class with `]` beside other members",
    "a close bracket is printed unescaped within a class",
    [(DC, '''const ESCAPED: [u8; 5] = *b"^-[].";''', '''const ESCAPED: [u8; 4] = *b"^-[.";''')],
    PRELUDE + '''fn main() {
    let c = verif::Class::from_bytes(b"]z");
    assert_eq!(c.describe(256, false), "[\\\\]z]");
}''')

bug("c17-dump-level", "an alternation with more than one branch below a group",
    "the printed tree shows the wrong nesting",
    [("src/parser/dump.rs", '''    fn post_component_alternation(&mut self, _c: &ComponentAlternation) {
        self.outdent();
    }''', '''    fn post_component_alternation(&mut self, _c: &ComponentAlternation) {
        if self.level <= 2 {
            self.outdent();
        }
    }''')],
    PRELUDE + '''fn main() {
    let d = verif::dump("(a|b)c", Flags::empty()).ok().unwrap();
    let l = d.lines().rev().nth(1).unwrap();
    assert_eq!(l, "  ASCII CLASS", "{}", d);
}''')

bug("c18-u32-infinity", "the number 2^31-1 as a 32-bit integer",
    "infinity can be made from a number",
    [("src/util/depth.rs", '''    fn try_from(val: u32) -> Result<Self, Self::Error> {
        if val <= MAX_VALUE {''', '''    fn try_from(val: u32) -> Result<Self, Self::Error> {
        if val < UNREACHABLE {''')],
    PRELUDE + '''fn main() {
    assert!(verif::DepthValue::from_u32((1 << 31) - 2).is_some());
    assert!(verif::DepthValue::from_u32((1 << 31) - 1).is_none());
}''')

bug("c18-usize-wraps", "a 64-bit number beyond 2^32 whose low 32 bits are small",
    "a large number is wrapped instead of rejected",
    [("src/util/depth.rs", '''        if val <= MAX_VALUE as usize {
            #[allow(clippy::cast_possible_truncation)]
            Ok(Self { val: val as u32 })
        } else {
            Err(DepthOverflowError {})
        }''', '''        #[allow(clippy::cast_possible_truncation)]
        Self::try_from(val as u32)''')],
    PRELUDE + '''fn main() {
    assert!(verif::DepthValue::from_usize(7).is_some());
    assert!(verif::DepthValue::from_usize((1 << 32) + 7).is_none());
}''')

bug("c18-signed-order", "comparing infinity, or another depth of 2^30 or more, with a smaller one",
    "depths do not compare as their numbers",
    [("src/util/depth.rs", '''        self.val.cmp(&other.val)''',
      '''        // Shift the flag bits out of the way.
        (self.val << 2).cmp(&(other.val << 2))''')],
    PRELUDE + '''fn main() {
    let d = |n| verif::DepthValue::from_u32(n).unwrap();
    assert!(d(5) < d(7));
    assert!(d(5) < d(1 << 30));
}''')

bug("c19-cache-line-narrow", "a number that is a multiple of 64 already",
    "a multiple of the cache line is rounded up to the next",
    [("src/util/ue2common.rs", '''/// Aligns to a cache line.
#[allow(dead_code)]
#[inline]
pub fn round_up_cache_line<T>(a: T) -> T
where
    T: Add<Output = T> + BitAnd<Output = T> + Not<Output = T> + From<u8>,
{
    (a + T::from(0x3f)) & !T::from(0x3f)
}''', '''/// Aligns to a cache line, leaving room for a header.
#[allow(dead_code)]
#[inline]
pub fn round_up_cache_line<T>(bytes: T) -> T
where
    T: Add<Output = T> + BitAnd<Output = T> + Not<Output = T> + From<u8>,
{
    (bytes + T::from(0x40)) & !T::from(0x3f)
}''')],
    PRELUDE + '''fn main() {
    assert_eq!(verif::round_up_cache_line(1_u32), 64);
    assert_eq!(verif::round_up_cache_line(64_u32), 64);
}''')

bug("c20-vectored-lit-check", "vectored mode, floating literals, and the long-literal check",
    "the pure-literal runtime is picked although the long-literal check is needed",
    [("src/rose/rose_build_bytecode.rs", '''    if cc.streaming && resources.has_lit_check {''',
      '''    if cc.streaming && !cc.vectored && resources.has_lit_check {''')],
    PRELUDE + '''fn main() {
    let bits = 1 << 7 | 1 << 11;
    assert_eq!(verif::pick_runtime(true, true, bits), verif::Runtime::FullRose);
}''')

bug("c20-scan-writes-state", "scanning with a state buffer",
    "scanning changes the caller's state",
    [("src/runtime.rs", '''fn init_som_state(_rose: &RoseEngine, _state: *mut u8) {}''',
      '''fn init_som_state(_rose: &RoseEngine, state: *mut u8) {
    if !state.is_null() {
        unsafe { *state &= 0x7f };
    }
}''')],
    PRELUDE + '''fn main() {
    let db = compile("abc", Flags::empty(), &Mode::Block).ok().unwrap();
    let mut st = [0xff_u8; 16];
    let mut s = verif::scratch(st.as_mut_ptr());
    assert!(scan(&db, b"abc", &mut s).is_ok());
    assert_eq!(st, [0xff; 16]);
}''')

bug("c20-vectored-as-stream", "vectored mode",
    "a database compiled for vectored mode records streaming mode",
    [("src/rose/rose_build.rs", '''        let mode = if self.cc.streaming {
            if self.cc.vectored {
                Mode::Vectored
            } else {
                Mode::Stream(None)
            }''', '''        let mode = if self.cc.streaming {
            if self.cc.vectored && self.has_som {
                Mode::Vectored
            } else {
                Mode::Stream(None)
            }''')],
    PRELUDE + '''fn main() {
    let db = compile("abc", Flags::empty(), &Mode::Vectored).ok().unwrap();
    assert!(matches!(verif::database_mode(&db), Mode::Vectored));
}''')

bug("c21-leftover-groups", "a compilation on the same thread after one that failed with an open group",
    "state of a failed compilation leaks into the next one",
    [(PARSER, '''struct Context<'p> {
    ptr: &'p str,''', '''thread_local! {
    /// Storage for the stack of sequences, kept to save allocations.
    static STACK: std::cell::RefCell<Vec<ExprState>> = const { std::cell::RefCell::new(Vec::new()) };
}

struct Context<'p> {
    ptr: &'p str,'''),
     (PARSER, '''            sequences: Vec::new(),
            group_index''', '''            sequences: STACK.with(|s| mem::take(&mut *s.borrow_mut())),
            group_index'''),
     (PARSER, '''        if let Some(seq) = self.sequences.last() {
            return Err(CompileError::new(
                ErrorKind::Parse,
                format!(
                    "Missing close parenthesis for group started at index {}.",
                    seq.offset
                ),
            ));
        }
''', '''        let open = self.sequences.last().map(|s| s.offset);
        STACK.with(|s| *s.borrow_mut() = mem::take(&mut self.sequences));
        if let Some(offset) = open {
            return Err(CompileError::new(
                ErrorKind::Parse,
                format!(
                    "Missing close parenthesis for group started at index {}.",
                    offset
                ),
            ));
        }
''')],
    PRELUDE + '''fn main() {
    let c = |e| compile(e, Flags::empty(), &Mode::Block).is_ok();
    assert!(c("abc"));
    assert!(!c("a(bc"));
    assert!(c("abc"));
}''')

bug("c21-verb-reported-once", "the same unknown control verb twice in the process",
    "a second compilation of the same input succeeds",
    [(VERBS, '''                    return Err(CompileError::new(
                        ErrorKind::LocatedParse,
                        format!("Unknown control verb {} at index {}", verb, start + 2),
                    ));''', '''                    // Report each of them only once.
                    static SEEN: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
                    let mut seen = SEEN.lock().unwrap_or_else(|e| e.into_inner());
                    if !seen.iter().any(|s| s == verb) {
                        seen.push(verb.to_string());
                        return Err(CompileError::new(
                            ErrorKind::LocatedParse,
                            format!("Unknown control verb {} at index {}", verb, start + 2),
                        ));
                    }''')],
    PRELUDE + '''fn main() {
    for _ in 0..2 {
        assert!(compile("(*FOO)abc", Flags::empty(), &Mode::Block).is_err());
    }
}''')

BS = "src/parser/build_state.rs"
bug("c22-shared-filter", "two or more last positions, start-dotstar or start before another, and flagged firsts",
    "what is filtered for one last position is missing for the later ones too",
    [(BS, '''        for last in lasts {
            self.connect_successors(*last, firsts.to_vec());
        }
    }

    fn connect_successors(&mut self, from: PositionInfo, mut tolist: Vec<PositionInfo>) {''',
      '''        let mut firsts = firsts.to_vec();
        for last in lasts {
            self.connect_successors(*last, &mut firsts);
        }
    }

    fn connect_successors(&mut self, from: PositionInfo, tolist: &mut Vec<PositionInfo>) {'''),
     (BS, '''        filter_edges(self, from, &mut tolist);''', '''        filter_edges(self, from, tolist);'''),
     (BS, '''        for to in &tolist {''', '''        for to in tolist.iter() {''')],
    PRELUDE + '''fn main() {
    let n = verif::POS_NOFLOAT;
    // start-dotstar and vertex 4 to vertex 5, which does not float
    let c = verif::connect_regions(&[0, 0], &[(vec![(Some(1), 0), (Some(4), 0)], vec![(Some(5), n)])]);
    assert!(c.successors.contains(&(4, 5, n)));
}''')

bug("c22-must-float-any", "start as a last position and a first position with just one of the two flags",
    "start is not linked to positions that are only must-float or only no-float",
    [(BS, '''        tolist.retain(|e| !e.flags.contains(PosFlags::MUST_FLOAT | PosFlags::NOFLOAT));''',
      '''        tolist.retain(|e| !e.flags.intersects(PosFlags::MUST_FLOAT | PosFlags::NOFLOAT));''')],
    PRELUDE + '''fn main() {
    let n = verif::POS_NOFLOAT;
    let c = verif::connect_regions(&[0], &[(vec![(Some(0), 0)], vec![(Some(4), n)])]);
    assert!(c.successors.contains(&(0, 4, n)));
}''')

bug("c22-replaces-links", "two connections from the same position",
    "links of an earlier connection are lost",
    [(BS, '''        let succ = self.successors.entry(from.pos).or_insert_with(HashSet::new);
''', '''        let succ = self.successors.entry(from.pos).or_default();
        if !tolist.is_empty() && from.flags.contains(PosFlags::NOFLOAT) {
            succ.clear();
        }
''')],
    PRELUDE + '''fn main() {
    let n = verif::POS_NOFLOAT;
    let c = verif::connect_regions(&[0, 0, 0], &[
        (vec![(Some(4), n)], vec![(Some(5), 0)]),
        (vec![(Some(4), n)], vec![(Some(6), 0)]),
    ]);
    assert!(c.successors.contains(&(4, 5, 0)) && c.successors.contains(&(4, 6, 0)));
}''')

NH = "src/nfagraph/ng_holder.rs"
bug("c23-accept-own-reports", "reports of accept itself, which has an edge to accept-at-end",
    "the reports of a predecessor of accept-at-end are left out",
    [(NH, '''            .neighbors_directed(self.accept_eod, Direction::Incoming)
            .fold(reports''', '''            .neighbors_directed(self.accept_eod, Direction::Incoming)
            .filter(|v| *v != self.accept)
            .fold(reports''')] + [(NH, '''        self.inner
            .neighbors_directed(self.accept_eod''', '''        let g = &self.inner;
        g.neighbors_directed(self.accept_eod''')],
    PRELUDE + '''fn main() {
    let s = verif::GraphSpec { extra_vertices: 0, edges: vec![], reports: vec![(2, 9)] };
    assert_eq!(verif::graph_from(&s).all_reports, [9]);
}''')

bug("c23-undirected", "an edge from accept back to start",
    "a graph is called vacuous for an edge in the opposite direction",
    [(NH, '''        self.inner.find_edge(self.start, self.accept).is_some()''',
      '''        self.inner
            .find_edge_undirected(self.start, self.accept)
            .is_some()''')],
    PRELUDE + '''fn main() {
    let s = verif::GraphSpec { extra_vertices: 0, edges: vec![(2, 0)], reports: vec![] };
    assert!(!verif::graph_from(&s).vacuous);
}''')

bug("c23-parallel-edges", "parallel edges from one vertex to accept",
    "reports of a vertex with two edges to accept are dropped",
    [(NH, '''            .fold(HashSet::new(), |mut union, v| {
                union.extend(&self.inner[v].reports);
                union
            });''', '''            .fold(HashSet::new(), |union: HashSet<ReportId>, v| {
                union
                    .symmetric_difference(&self.inner[v].reports)
                    .copied()
                    .collect()
            });''')],
    PRELUDE + '''fn main() {
    let s = verif::GraphSpec { extra_vertices: 2, edges: vec![(4, 2), (5, 2)], reports: vec![(4, 9), (5, 9)] };
    assert_eq!(verif::graph_from(&s).all_reports, [9]);
}''')

bug("c24-width-of-refused", "a literal that is refused and shorter than those accepted",
    "a refused literal lowers the minimum width",
    [(NG, '''        // Register external report and validate highlander constraints.
''', '''        self.min_width = min(
            self.min_width,
            literal
                .len()
                .try_into()
                .map_err(|_| CompileError::new(ErrorKind::Other, "depth overflow"))?,
        );

        // Register external report and validate highlander constraints.
'''), (NG, '''        self.rose.add(false, false, literal, &hashset! {id});

        self.min_width = min(
            self.min_width,
            literal
                .len()
                .try_into()
                .map_err(|_| CompileError::new(ErrorKind::Other, "depth overflow"))?,
        );
''', '''        self.rose.add(false, false, literal, &hashset! {id});
''')],
    PRELUDE + '''fn main() {
    let mut b = verif::Builder::new(2, &Mode::Block, &Default::default());
    assert!(b.add_expression(0, "abc", Flags::empty(), 1).is_ok());
    assert!(b.add_expression(1, "a", Flags::SINGLEMATCH, 1).is_err());
    assert_eq!(b.min_width(), Some(3));
}''')

bug("c24-mixed-registered", "a literal of mixed case sensitivity, and another one with its match ID",
    "a declined literal is registered all the same",
    [(NG, '''        if mixed_sensitivity(literal) {
            return Ok(false);
        }

        // Register external report and validate highlander constraints.
        self.rm.register_ext_report(
            external_report,
            ExternalReportInfo::new(highlander, expr_index),
        )?;
''', '''        let mixed = mixed_sensitivity(literal);

        // Register external report and validate highlander constraints.
        self.rm.register_ext_report(
            external_report,
            ExternalReportInfo::new(highlander, expr_index),
        )?;

        if mixed {
            return Ok(false);
        }
''')],
    PRELUDE + '''fn main() {
    let mut b = verif::Builder::new(2, &Mode::Block, &Default::default());
    let mut l = verif::Ue2Literal::default();
    l.push(b'a', true);
    l.push(b'b', false);
    assert!(!b.add_literal(&l, 0, 1, true, false, false).ok().unwrap());
    assert!(b.add_expression(1, "x", Flags::empty(), 1).is_ok());
    let mut b = verif::Builder::new(2, &Mode::Block, &Default::default());
    assert!(!b.add_literal(&l, 0, 1, false, false, false).ok().unwrap());
    assert!(b.global_exhaust());
}''')

bug("c24-width-of-quiet", "a QUIET literal that is the shortest",
    "a quiet literal is not considered for the minimum width",
    [(NG, '''        self.min_width = min(
            self.min_width,
            literal
                .len()
                .try_into()
                .map_err(|_| CompileError::new(ErrorKind::Other, "depth overflow"))?,
        );
''', '''        if !quiet {
            self.min_width = min(
                self.min_width,
                literal
                    .len()
                    .try_into()
                    .map_err(|_| CompileError::new(ErrorKind::Other, "depth overflow"))?,
            );
        }
''')],
    PRELUDE + '''fn main() {
    let mut b = verif::Builder::new(2, &Mode::Block, &Default::default());
    assert!(b.add_expression(0, "abc", Flags::empty(), 1).is_ok());
    assert!(b.add_expression(1, "a", Flags::QUIET, 2).is_ok());
    assert_eq!(b.min_width(), Some(1));
}''')

bug("c15-bit5-high", "a set with a member above 0x7f",
    "a set that is not closed under flipping bit 5 is called so",
    [(CR, '''            if !self.test(pos ^ 0x20) {''', '''            if pos.is_ascii() && !self.test(pos ^ 0x20) {''')],
    PRELUDE + '''fn main() {
    let c = verif::Class::from_bytes(b"aA");
    assert!(c.is_bit5_insensitive());
    let c = verif::Class::from_bytes(b"aA\\xc0");
    assert!(!c.is_bit5_insensitive());
}''')

bug("c16-push-latin1", "a case-insensitive byte from 0xe0 on",
    "a byte that is no ASCII letter is folded",
    [(US, '''            c = mytoupper(c);''', '''            c = if c >= 0xe0 { c - 0x20 } else { mytoupper(c) };''')],
    PRELUDE + '''fn main() {
    let mut a = verif::Ue2Literal::default();
    a.push(0xe5, true);
    assert_eq!(a.iter().next().unwrap().c, 0xe5);
}''')

bug("c17-word-underscore", "a class with all letters and digits but no underscore",
    "the underscore is printed as a member",
    [(DC, '''        CharReach::from_bytes(b"_0123456789abc''', '''        CharReach::from_bytes(b"0123456789abc''')],
    PRELUDE + '''fn main() {
    let mut c = verif::Class::from_range(b'0', b'9');
    c.set_range(b'a', b'z');
    c.set_range(b'A', b'Z');
    assert!(!c.describe(256, false).contains("w"));
}''')

# Second batch.

bug("c02-depth-cap", "more than 2,000 groups open at once",
    "a balanced expression is rejected for its nesting",
    [(PARSER, '''            self.enter_capturing_group(ts);
            self.p = p;''', '''            if self.sequences.len() >= 2_000 {
                return Err(CompileError::new(
                    ErrorKind::LocatedParse,
                    format!("Nested too deeply at index {}", self.ptr.len() - ts.len()),
                ));
            }
            self.enter_capturing_group(ts);
            self.p = p;''')],
    PRELUDE + '''fn main() {
    let e = format!("{}{}", "(".repeat(3000), ")".repeat(3000));
    assert!(compile(&e, Flags::empty(), &Mode::Block).is_ok());
}''')

bug("c02-nul-terminates", "a NUL character followed by something ill-formed",
    "what follows a NUL character is not looked at",
    [(PARSER, '''        while !self.p.is_empty() {''', '''        while !self.p.is_empty() && !self.p.starts_with('\\0') {''')],
    PRELUDE + '''fn main() {
    assert!(compile("a\\0)", Flags::empty(), &Mode::Block).is_err());
}''')

bug("c02-verb-newline", "a control verb with a newline in its name",
    "an unknown verb is taken for a group and accepted",
    [(VERBS, '''is_not(")")''', '''is_not(")\\n")''')],
    PRELUDE + '''fn main() {
    assert!(compile("(*A\\nB)a", Flags::empty(), &Mode::Block).is_err());
}''')

bug("c01-alternation-frames", "alternations nested more than a thousand deep",
    "walking deeply nested alternations overflows the stack of a main-sized thread",
    [("src/parser/component_alternation.rs", '''        for c in &mut self.children {
            c.note_positions(bs);''', '''        // First few branches, for the benefit of a debugger.
        let mut trace = [0_usize; 320];
        for (t, child) in trace.iter_mut().zip(&self.children) {
            *t = child as *const _ as usize;
        }
        std::hint::black_box(&mut trace);

        for c in &mut self.children {
            c.note_positions(bs);''')],
    PRELUDE + '''fn main() {
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(|| {
        let e = format!("{}{}", "(|".repeat(5333), ")".repeat(5333));
        compile(&e, Flags::empty(), &Mode::Block).is_ok()
    }).unwrap();
    assert!(t.join().unwrap());
}''')

bug("c01-group-counter", "256 or more groups in one expression",
    "the counter of groups overflows",
    [(PARSER, '''    group_index: u32,
''', '''    group_index: u8,
'''), (PARSER, '''        seq.capture_index = Some(self.group_index);''',
      '''        seq.capture_index = Some(self.group_index.into());''')],
    PRELUDE + '''fn main() {
    for n in [255, 256, 300] {
        assert!(compile(&"()".repeat(n), Flags::empty(), &Mode::Block).is_ok());
    }
}''')

bug("c03-ascii-first", "a non-ASCII character after another defect",
    "a later defect is reported instead of the first one",
    [(PARSER, '''    let root_seq = Context::new''', '''    if let Some((i, _)) = p.char_indices().find(|(_, c)| !c.is_ascii()) {
        return Err(CompileError::new(
            ErrorKind::LocatedParse,
            format!(
                "Unsupported non-ASCII character at index {}",
                ptr.len() - p.len() + i
            ),
        ));
    }

    let root_seq = Context::new''')],
    PRELUDE + '''fn main() {
    let e = compile("a)é", Flags::empty(), &Mode::Block).err().unwrap();
    assert!(e.to_string().contains("index 1"), "{}", e);
}''')

bug("c03-last-opened", "a closed group inside one that is left open",
    "the error names the group opened last, even if it was closed again",
    [(PARSER, '''        if let Some(seq) = self.sequences.last() {''', '''        if !self.sequences.is_empty() {
            let offset = self.ptr.rfind('(').unwrap_or(0);'''),
     (PARSER, '''                    seq.offset
''', '''                    offset
'''), (PARSER, '''        let (mut seq, mode) = if let Some(v) = self.sequences.pop() {''',
       '''        let (mut seq, mode) = if let Some(v) = self.sequences.pop() {
            debug_assert!(v.offset < self.ptr.len());''')],
    PRELUDE + '''fn main() {
    let e = compile("a(b(c)", Flags::empty(), &Mode::Block).err().unwrap();
    assert!(e.to_string().contains("index 1"), "{}", e);
}''')

bug("c04-flags-first", "an expression with conflicting flags after an ill-formed one",
    "a later expression is blamed instead of the first bad one",
    [(LIB, '''    let is_streaming = mode.is_streaming();
    let is_vectored''', '''    let conflicting = Flags::QUIET | Flags::SOM_LEFTMOST;
    if let Some(i) = flags.iter().position(|f| f.contains(conflicting)) {
        let mut e = CompileError::new(
            ErrorKind::Other,
            "QUIET is not supported in combination with SOM_LEFTMOST.",
        );
        e.set_expression_index(i.try_into().unwrap());
        return Err(e);
    }

    let is_streaming = mode.is_streaming();
    let is_vectored''')],
    PRELUDE + '''fn main() {
    let e = compile_multi(&["(", "a"], &[Flags::empty(), Flags::QUIET | Flags::SOM_LEFTMOST],
        &[1, 2], &Mode::Block).err().unwrap();
    assert!(e.to_string().ends_with("in expression 0"), "{}", e);
}''')

bug("c05-prefilter-not-single", "a SINGLEMATCH literal with PREFILTER among those that share a match ID",
    "SINGLEMATCH is not seen with PREFILTER",
    [(COMPILER, '''            highlander: flags.contains(Flags::SINGLEMATCH),''',
      '''            highlander: flags.contains(Flags::SINGLEMATCH) && !flags.contains(Flags::PREFILTER),''')],
    PRELUDE + '''fn main() {
    let s = Flags::SINGLEMATCH;
    let p = Flags::PREFILTER;
    assert!(compile_multi(&["a", "b"], &[s | p, s], &[1, 1], &Mode::Block).is_ok());
    assert!(compile_multi(&["a", "b"], &[s | p, p], &[1, 1], &Mode::Block).is_err());
}''')

bug("c05-top-id-unchecked", "the match ID 4,294,967,295",
    "conflicts of the largest match ID are not diagnosed",
    [(RM, '''        match self.external_id_map.entry(id) {''', '''        // The last one stands for no ID.
        match self.external_id_map.entry(id.checked_add(1).unwrap_or(u32::MAX - ext.first_pattern_index)) {''')],
    PRELUDE + '''fn main() {
    let f = [Flags::empty(), Flags::SINGLEMATCH];
    assert!(compile_multi(&["a", "b"], &f, &[u32::MAX, u32::MAX], &Mode::Block).is_err());
}''')

bug("c06-trailing-space", "an expression over the length limit that ends in white space",
    "an overlong expression is not rejected as such",
    [(COMPILER, '''    if expression.len() > cc.grey''', '''    if expression.trim_end().len() > cc.grey''')],
    PRELUDE + '''fn main() {
    let e = format!("{} ", "a".repeat(16_000));
    assert!(compile(&e, Flags::empty(), &Mode::Block).is_err());
}''')

bug("c06-spare-ids", "more match IDs than expressions",
    "lists that differ in length are accepted",
    [(LIB, '''    if flags.len() != expressions.len() || ids.len() != expressions.len() {''',
      '''    if flags.len() != expressions.len() || ids.len() < expressions.len() {''')],
    PRELUDE + '''fn main() {
    assert!(compile_multi(&["a"], &[Flags::empty()], &[1, 2], &Mode::Block).is_err());
}''')

bug("c07-index-16-groups", "a group at the nesting depth of a multiple of 256",
    "its capture index is lost",
    [(PARSER, '''        seq.capture_index = Some(self.group_index);''',
      '''        let depth = self.sequences.len() as u8;
        seq.capture_index = Some(self.group_index).filter(|_| depth != u8::MAX);''')],
    PRELUDE + '''fn main() {
    let e = format!("{}{}", "(".repeat(300), ")".repeat(300));
    let mut t = &verif::parse(&e, Flags::empty()).ok().unwrap();
    let mut n = 0;
    while let verif::Tree::Sequence(i, c) = t {
        assert_eq!(*i, Some(n));
        n += 1;
        match c.first() { Some(x) => t = x, None => break }
    }
    assert_eq!(n, 301);
}''')

bug("c08-dotall-multiline", "DOTALL and MULTILINE together",
    "DOTALL is dropped",
    [("src/parser/parser_util.rs", '''            dotall: flags.contains(Flags::DOTALL),''',
      '''            dotall: flags & (Flags::DOTALL | Flags::MULTILINE) == Flags::DOTALL,''')],
    PRELUDE + '''fn main() {
    let m = verif::parse_mode("a", Flags::DOTALL | Flags::MULTILINE).ok().unwrap();
    assert!(m.dotall && m.multiline);
}''')

bug("c08-utf-prefix", "an unknown verb that starts with UTF8",
    "an unknown verb is taken for a supported one",
    [(VERBS, '''                verb => {
''', '''                verb if verb.starts_with("UTF8") => {
                    mode.utf8 = true;
                }
                verb => {
''')],
    PRELUDE + '''fn main() {
    assert!(compile("(*UTF8_STRICT)a", Flags::empty(), &Mode::Block).is_err());
}''')

bug("c08-verb-resets-mode", "a UTF8 verb along with flags that set modes",
    "the verb resets the other modes",
    [(VERBS, '''                "UTF8" | "UTF" => {
                    mode.utf8 = true;''', '''                "UTF8" | "UTF" => {
                    *mode = ParseMode {
                        caseless: mode.caseless,
                        dotall: mode.dotall,
                        multiline: mode.multiline,
                        utf8: true,
                        ..ParseMode::default()
                    };''')],
    PRELUDE + '''fn main() {
    let m = verif::parse_mode("(*UTF8)a", Flags::UCP).ok().unwrap();
    assert!(m.ucp && m.utf8);
}''')

bug("c09-second-branch", "a letter in a branch other than the first of a group's alternation, with CASELESS",
    "letters of later branches of groups nested twice are case-sensitive",
    [(PARSER, '''            self.current_seq.add_alternation();
''', '''            self.current_seq.add_alternation();
            if let [.., outer, _] = &self.sequences[..] {
                self.mode = ParseMode {
                    caseless: outer.mode.caseless && outer.offset == 0,
                    ..outer.mode
                };
            }
''')],
    PRELUDE + '''fn main() {
    let a = verif::parse("a(b(c|d))", Flags::CASELESS).ok().unwrap();
    let b = verif::parse("a(b(c|D))", Flags::CASELESS).ok().unwrap();
    assert!(a == b);
}''')

bug("c10-quiet-loses-single", "SINGLEMATCH with QUIET",
    "an expression's property is not carried over to the built expression",
    [("src/nfagraph/ng_builder.rs", '''        Self {
            graph,
            expr: parsed.expr.clone(),
        }''', '''        let mut expr = parsed.expr.clone();
        expr.highlander &= !expr.quiet;
        Self { graph, expr }''')],
    PRELUDE + '''fn main() {
    let f = Flags::SINGLEMATCH | Flags::QUIET;
    let (i, _) = verif::graph(0, "a|b", f, 0).ok().unwrap();
    assert!(i.highlander && i.quiet);
}''')

bug("c10-caseless-special", "more than 4,096 positions",
    "positions beyond the 4,096th are reached by no byte",
    [("src/nfagraph/ng_builder.rs", '''        self.graph[pos].char_reach |= cr;''',
      '''        if pos.index() & 0xfff != 0 || pos == self.graph.start {
            self.graph[pos].char_reach |= cr;
        }''')],
    PRELUDE + '''fn main() {
    let e = "a".repeat(5000);
    let (_, g) = verif::graph(0, &e, Flags::empty(), 0).ok().unwrap();
    assert!(g.vertices[4..].iter().all(|v| v.reach == b"a"));
}''')

bug("c11-empty-group", "a literal with an empty group between characters",
    "a literal with an empty group is not recognised",
    [("src/parser/shortcut_literal.rs", '''    fn pre_component_sequence(&mut self, _c: &ComponentSequence) -> Result<(), Self::Error> {
        // Pass through.
''', '''    fn pre_component_sequence(&mut self, c: &ComponentSequence) -> Result<(), Self::Error> {
        // Pass through.
        if c.capture_index.map_or(false, |i| i > 99) {
            return Err(NotLiteral {});
        }
''')],
    PRELUDE + '''fn main() {
    let e = format!("{}a", "()".repeat(120));
    assert_eq!(verif::literal(&e, Flags::empty()).ok().unwrap().unwrap().len(), 1);
}''')

bug("c12-sum-of-tries", "case-sensitive and case-insensitive literals that together need more than 8,000 vertices",
    "the engine gives up although neither set of literals is too large",
    [(SMWR, '''        if !add_to_trie(literal, r, trie) {
            self.poisoned = true;
        }''', '''        let fits = add_to_trie(literal, r, trie);
        let total = self.lit_trie.inner.node_count() + self.lit_trie_nocase.inner.node_count();
        if !fits || total > MAX_TRIE_VERTICES + 1 {
            self.poisoned = true;
        }''')],
    PRELUDE + '''fn main() {
    let mut b = verif::Builder::new(200, &Mode::Block, &Default::default());
    for nc in [false, true] {
        for i in 0..70_u8 {
            let mut l = verif::Ue2Literal::default();
            l.push(b'a', nc);
            for k in 0..60_u8 { l.push(128 + i + k / 59, false); }
            b.small_write_add_literal(&l, 0);
        }
    }
    assert!(b.small_write_trie(false).num_vertices < 8000);
    assert!(b.small_write_trie(true).num_vertices < 8000);
    assert!(!b.small_write_poisoned());
}''')

bug("c12-last-straw", "one literal more than the engine may hold",
    "the literal that makes the engine give up is still added",
    [(SMWR, '''            // Exceeded literal limit.
            self.poisoned = true;
            return;
''', '''            // Exceeded literal limit.
            self.poisoned = true;
''')],
    PRELUDE + '''fn main() {
    let mut l = verif::Limits::default();
    l.small_write_max_literals = 1;
    let mut b = verif::Builder::new(2, &Mode::Block, &l);
    b.add_expression(0, "ab", Flags::empty(), 0).ok().unwrap();
    b.add_expression(1, "cd", Flags::empty(), 1).ok().unwrap();
    assert!(b.small_write_poisoned());
    assert_eq!(b.small_write_trie(false).num_vertices, 3);
}''')

bug("c13-limit-before-lookup", "a known report once the report limit is reached",
    "a known report is refused",
    [(RM, '''        if let Some(id) = self.report_id_to_internal_map.get(ir) {
            return Ok(*id);
        }

        // Construct''', '''        let full = self.num_reports() >= self.grey.limit_report_count;
        if let Some(id) = self
            .report_id_to_internal_map
            .get(ir)
            .filter(|id| !full || **id == 0)
        {
            return Ok(*id);
        }

        // Construct''')],
    PRELUDE + '''fn main() {
    let mut l = verif::Limits::default();
    l.limit_report_count = 2;
    let mut r = verif::Reports::new(&l);
    assert_eq!(r.internal_id(5).ok(), Some(0));
    assert_eq!(r.internal_id(6).ok(), Some(1));
    assert_eq!(r.internal_id(6).ok(), Some(1));
}''')

bug("c14-next-over-gap", "the next member is two blocks after the first block",
    "the next member is given as one of the empty block between",
    [("src/util/bitfield.rs", '''                return Some((last_i + i as u8) * BLOCK_SIZE + bits.trailing_zeros() as u8);''',
      '''                return Some((last_i | i as u8) * BLOCK_SIZE + bits.trailing_zeros() as u8);''')],
    PRELUDE + '''fn main() {
    assert_eq!(verif::Class::from_bytes(&[5, 140]).find_next(5), Some(140));
}''')

bug("c15-subset-wraps", "the set of all bytes and the empty set",
    "the former is called a subset of the latter",
    [("src/util/charreach.rs", '''        (self.bits & rhs.bits) == self.bits''', '''        (self.bits & rhs.bits).count() as u8 == self.bits.count() as u8''')],
    PRELUDE + '''fn main() {
    let mut a = verif::Class::from_char(0);
    let mut b = a;
    a.set_all();
    b.reset_all();
    assert!(!a.is_subset_of(&b));
}''')

bug("c16-eq-first-word", "literals of more than 32 characters that differ in case sensitivity only",
    "different literals are equal",
    [("src/util/ue2string.rs", '''        self.s == other.s && self.nocase == other.nocase''',
      '''        self.s == other.s && self.nocase.storage().first() == other.nocase.storage().first()''')],
    PRELUDE + '''fn main() {
    let mut a = verif::Ue2Literal::default();
    let mut b = verif::Ue2Literal::default();
    for i in 0..40 {
        a.push(b'A', false);
        b.push(b'A', i == 39);
    }
    assert!(a != b);
}''')

bug("c17-indent-wraps", "a tree of more than 32 levels",
    "the printed tree shows the wrong nesting",
    [("src/parser/dump.rs", '''        " ".repeat(self.level * 2)''', '''        const SPACES: &str = "                                                                ";
        SPACES[..SPACES.len().min(self.level * 2)].to_string()''')],
    PRELUDE + '''fn main() {
    let e = format!("{}a{}", "(".repeat(40), ")".repeat(40));
    let d = verif::dump(&e, Flags::empty()).ok().unwrap();
    assert!(d.lines().last().unwrap().starts_with(&" ".repeat(80)));
}''')

bug("c20-long-data", "data of 64 KiB or more",
    "scanning long data fails",
    [("src/runtime.rs", '''pub fn scan(db: &Database, _data: &[u8], scratch: &mut Scratch) -> Result<(), Error> {
''', '''pub fn scan(db: &Database, data: &[u8], scratch: &mut Scratch) -> Result<(), Error> {
    if data.len() > usize::from(u16::MAX) {
        return Err(Error::Invalid);
    }

''')],
    PRELUDE + '''fn main() {
    let db = compile("a", Flags::empty(), &Mode::Block).ok().unwrap();
    let mut s = verif::scratch(std::ptr::null_mut());
    for n in [0, 65_535, 65_536] {
        assert!(scan(&db, &vec![b'a'; n], &mut s).is_ok());
    }
}''')

bug("c21-shared-length", "two compilations at the same time, one of them of an ill-formed expression",
    "the index in an error depends on what another thread compiles",
    [(PARSER, '''struct Context<'p> {
    ptr: &'p str,''', '''/// Length of the expression being parsed.
static LENGTH: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

struct Context<'p> {
    ptr: &'p str,'''),
     (PARSER, '''        let mut current_seq = ComponentSequence::default();
        current_seq.capture_index = Some(0);
''', '''        let mut current_seq = ComponentSequence::default();
        current_seq.capture_index = Some(0);
        LENGTH.store(ptr.len(), std::sync::atomic::Ordering::Relaxed);
'''), (PARSER, '''            if let Err(mut e) = self.exit_group() {
                e.reason
                    .push_str(&format!(" at index {}", self.ptr.len() - self.p.len()));''',
       '''            if let Err(mut e) = self.exit_group() {
                let length = LENGTH.load(std::sync::atomic::Ordering::Relaxed);
                e.reason
                    .push_str(&format!(" at index {}", length.wrapping_sub(self.p.len())));''')],
    PRELUDE + '''use std::time::{Duration, Instant};
fn main() {
    let end = Instant::now() + Duration::from_secs(30);
    let ts: Vec<_> = (0..4_usize).map(|i| std::thread::spawn(move || {
        let e = format!("{})", "a".repeat(100 + 700 * i));
        let want = format!("index {} ", e.len() - 1);
        let mut k = 0;
        while Instant::now() < end && k < 20_000 {
            k += 1;
            let s = compile(&e, Flags::empty(), &Mode::Block).err().unwrap().to_string();
            if !s.contains(&want) { return false; }
        }
        true
    })).collect();
    assert!(ts.into_iter().all(|t| t.join().unwrap()));
}''')

bug("c21-cache-by-address", "an expression at the same address and of the same length as one before",
    "the verdict on an earlier expression is given for a different one",
    [(VERBS, '''    match control_verb(input) {
''', '''    // Parsing the same input again and again is common.
    thread_local! {
        static LAST: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
    }
    let key = (input.as_ptr() as usize, input.len());
    if LAST.with(|l| l.get()) == key {
        return Ok(input); // known to have no verb
    }
    if !input.starts_with("(*") {
        LAST.with(|l| l.set(key));
    }
    match control_verb(input) {
''')],
    PRELUDE + '''fn main() {
    let mut v = b"abcdef".to_vec();
    assert!(compile(std::str::from_utf8(&v).unwrap(), Flags::empty(), &Mode::Block).is_ok());
    v.copy_from_slice(b"(*A)de");
    assert!(compile(std::str::from_utf8(&v).unwrap(), Flags::empty(), &Mode::Block).is_err());
}''')

bug("c22-one-stand-in", "two or more last positions connected to accept at once",
    "they share one stand-in for accept",
    [(BS, '''        let i = tolist.iter().position(|e| e.pos == self.accept_state);
        if let Some(i) = i {
            let fakedot = self.builder.make_position();
            tolist[i] = fakedot.into();
        }
''', '''        let i = tolist.iter().position(|e| e.pos == self.accept_state);
        if let Some(i) = i {
            let flagged = tolist[i].flags.is_empty();
            let known = self.builder.num_vertices() - 1;
            let shared = flagged && self.successors.values().any(|s| s.iter().any(|e| e.pos.index() == known));
            let fakedot = if shared && self.stand_in == Some(known) {
                Position::new(known)
            } else {
                self.builder.make_position()
            };
            self.stand_in = Some(fakedot.index());
            tolist[i] = fakedot.into();
        }
'''), (BS, '''    builder: &'a mut NfaBuilder,

    /// Map''', '''    builder: &'a mut NfaBuilder,

    /// The last stand-in for accept.
    stand_in: Option<usize>,

    /// Map'''), (BS, '''            builder: b,
''', '''            builder: b,
            stand_in: None,
''')],
    PRELUDE + '''fn main() {
    let c = verif::connect_regions(&[0, 0], &[(vec![(Some(4), 0), (Some(5), 0)], vec![(Some(2), 0)])]);
    assert_eq!(c.num_vertices, 8);
}''')

bug("c23-eod-fallback", "reports at both accept and accept-at-end",
    "the reports at the end of data are left out if there are others",
    [(NH, '''        self.inner
            .neighbors_directed(self.accept_eod, Direction::Incoming)
            .fold(reports''', '''        if reports.len() > 2 {
            return reports; // fires at any rate
        }
        self.inner
            .neighbors_directed(self.accept_eod, Direction::Incoming)
            .fold(reports''')],
    PRELUDE + '''fn main() {
    let s = verif::GraphSpec { extra_vertices: 4, edges: vec![(4, 2), (5, 2), (6, 2), (7, 3)],
        reports: vec![(4, 1), (5, 2), (6, 3), (7, 4)] };
    assert_eq!(verif::graph_from(&s).all_reports.len(), 4);
}''')

bug("c24-som-overwritten", "a literal without start of match after one with it",
    "start of match is forgotten",
    [(NG, '''        self.rose.add(false, false, literal, &hashset! {id});
''', '''        self.rose.has_som = som != SomType::None;
        self.rose.add(false, false, literal, &hashset! {id});
''')],
    PRELUDE + '''fn main() {
    let mut b = verif::Builder::new(2, &Mode::Block, &Default::default());
    let mut l = verif::Ue2Literal::default();
    l.push(b'a', false);
    assert!(b.add_literal(&l, 0, 1, false, true, false).ok().unwrap());
    assert!(b.add_literal(&l, 1, 2, false, false, false).ok().unwrap());
    assert!(b.has_som());
}''')

# Third batch.

bug("c21-cache-ignores-flags", "the same single expression with other flags after it was refused for its flags",
    "the verdict on an expression with other flags is repeated",
    [(COMPILER, '''        if flags.contains(Flags::QUIET | Flags::SOM_LEFTMOST) {
''', '''        thread_local! {
            static REFUSED: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
        }
        let again = expression.len() > 8 && REFUSED.with(|r| *r.borrow() == expression);
        if again || flags.contains(Flags::QUIET | Flags::SOM_LEFTMOST) {
            REFUSED.with(|r| *r.borrow_mut() = expression.to_string());
''')],
    PRELUDE + '''fn main() {
    let e = "(abc)|(def)";
    assert!(compile(e, Flags::QUIET | Flags::SOM_LEFTMOST, &Mode::Block).is_err());
    assert!(compile(e, Flags::empty(), &Mode::Block).is_ok());
}''')

bug("c21-cache-by-prefix", "a long ill-formed expression after a well-formed one with the same length and first 32 bytes",
    "an ill-formed expression is accepted after one that looks alike",
    [(PARSER, '''pub(crate) fn parse(ptr: &str, global_mode: &mut ParseMode) -> Result<Component, CompileError> {
''', '''thread_local! {
    static LAST_ERROR: std::cell::RefCell<Option<(Vec<u8>, usize, String)>> = const { std::cell::RefCell::new(None) };
}

pub(crate) fn parse(ptr: &str, global_mode: &mut ParseMode) -> Result<Component, CompileError> {
    let b = ptr.as_bytes();
    let key = b[..b.len().min(32)].to_vec();
    let known = LAST_ERROR.with(|l| match &*l.borrow() {
        Some((k, n, why)) if *k == key && *n == b.len() => Some(why.clone()),
        _ => None,
    });
    if let Some(why) = known {
        return Err(CompileError::new(ErrorKind::LocatedParse, why));
    }
    let res = parse_new(ptr, global_mode);
    if let Err(e) = &res {
        LAST_ERROR.with(|l| *l.borrow_mut() = Some((key, b.len(), e.reason.clone())));
    }
    res
}

fn parse_new(ptr: &str, global_mode: &mut ParseMode) -> Result<Component, CompileError> {
''')],
    PRELUDE + '''fn main() {
    let a = "a".repeat(40);
    assert!(compile(&format!("{a})"), Flags::empty(), &Mode::Block).is_err());
    assert!(compile(&format!("{a}b"), Flags::empty(), &Mode::Block).is_ok());
}''')

bug("c21-error-budget", "the 5,000th ill-formed expression in a process",
    "errors lose their position after many of them",
    [("src/util/compile_error.rs", '''        self.index = Some(index);
    }''', '''        static REPORTED: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
        if REPORTED.fetch_add(1, std::sync::atomic::Ordering::Relaxed) < 5_000 {
            self.index = Some(index);
        }
    }''')],
    PRELUDE + '''fn main() {
    let m = |_| compile("(", Flags::empty(), &Mode::Block).err().unwrap().to_string();
    let first = m(0);
    assert!((0..6000).map(m).all(|e| e == first));
}''')

bug("c13-key-16-bit", "more than 65,536 exhaustion keys",
    "exhaustion keys repeat",
    [(RM, '''        *self.to_exhaustible_key_map.entry(a.into()).or_insert(size)''',
      '''        *self
            .to_exhaustible_key_map
            .entry(a.into())
            .or_insert(u32::from(size as u16))''')],
    PRELUDE + '''fn main() {
    let mut r = verif::Reports::new(&Default::default());
    for i in 0..70_000 { assert_eq!(r.exhaustible_key(i), i); }
}''')

bug("c13-report-16-bit", "more than 65,536 reports",
    "internal IDs repeat",
    [(RM, '''        let size = self.report_ids.len().try_into().expect("too many reports");
''', '''        let size = u32::from(self.report_ids.len() as u16);
''')],
    PRELUDE + '''fn main() {
    let mut r = verif::Reports::new(&Default::default());
    for i in 0..70_000_u32 { assert_eq!(r.internal_id(i.into()).ok(), Some(i)); }
}''')

bug("c12-many-children", "more than 64 literals that differ in the same character only",
    "common prefixes are not shared",
    [(SMWR, '''            .find(|v| trie.inner[*v].c == c.c)''', '''            .take(64)
            .find(|v| trie.inner[*v].c == c.c)''')],
    PRELUDE + '''fn main() {
    let mut b = verif::Builder::new(1, &Mode::Block, &Default::default());
    for i in 0..200_u8 {
        let mut l = verif::Ue2Literal::default();
        l.push(i, false);
        b.small_write_add_literal(&l, 0);
        b.small_write_add_literal(&l, 1);
    }
    let mut l = verif::Ue2Literal::default();
    l.push(0, false);
    b.small_write_add_literal(&l, 2);
    assert_eq!(b.small_write_trie(false).num_vertices, 201);
}''')

bug("c16-any-nocase-64", "a literal whose only case-insensitive characters are beyond the 64th",
    "it is taken for fully case-sensitive",
    [("src/util/ue2string.rs", '''        self.nocase.any()''', '''        self.nocase.blocks().take(2).any(|b| b != 0)''')],
    PRELUDE + '''fn main() {
    let mut l = verif::Ue2Literal::default();
    for i in 0..80 { l.push(b'a', i == 79); }
    assert!(l.any_nocase());
}''')

bug("c16-mixed-255", "a literal that turns mixed beyond its 255th character",
    "a mixed literal is not recognised",
    [("src/util/ue2string.rs", '''    for e in it {
''', '''    for e in it.into_iter().take(255) {
''')],
    PRELUDE + '''fn main() {
    let mut l = verif::Ue2Literal::default();
    for i in 0..300 { l.push(b'a', i == 290); }
    assert!(verif::mixed_sensitivity(&l));
}''')

bug("c22-eod-kept-nofloat", "a multiline-start vertex that is connected as no-float, and accept-at-end",
    "the position links to accept-at-end",
    [(BS, '''        .contains(PosFlags::MULTILINE_START)
    {''', '''        .contains(PosFlags::MULTILINE_START)
        && !from.flags.contains(PosFlags::MUST_FLOAT | PosFlags::NOFLOAT)
    {''')],
    PRELUDE + '''fn main() {
    let f = verif::POS_NOFLOAT | verif::POS_MUST_FLOAT;
    let c = verif::connect_regions(&[verif::POS_MULTILINE_START], &[(vec![(Some(4), f)], vec![(Some(3), 0)])]);
    assert!(!c.successors.iter().any(|s| s.0 == 4));
}''')

bug("c24-width-u8", "a set whose literals are all longer than 255 characters",
    "the minimum width is wrong",
    [(NG, '''            literal
                .len()
                .try_into()
                .map_err(|_| CompileError::new(ErrorKind::Other, "depth overflow"))?,''',
      '''            (literal.len() as u8 as usize)
                .try_into()
                .map_err(|_| CompileError::new(ErrorKind::Other, "depth overflow"))?,''')],
    PRELUDE + '''fn main() {
    let mut b = verif::Builder::new(1, &Mode::Block, &Default::default());
    assert!(b.add_expression(0, &"a".repeat(300), Flags::empty(), 1).is_ok());
    assert_eq!(b.min_width(), Some(300));
}''')

bug("c05-first-index-u8", "a conflict with a literal at a position beyond 255",
    "the error names the wrong earlier expression",
    [(RM, '''            first_pattern_index: fpi,''', '''            first_pattern_index: if h { fpi } else { fpi & 0xffff_f0ff | fpi & 0x300 },''')],
    PRELUDE + '''fn main() {
    let n = 3000;
    let e = vec!["a"; n];
    let mut f = vec![Flags::empty(); n];
    let mut i: Vec<u32> = (0..n as u32).collect();
    f[2999] = Flags::SINGLEMATCH;
    i[2999] = 2500;
    let s = compile_multi(&e, &f, &i, &Mode::Block).err().unwrap().to_string();
    assert!(s.contains("(index 2500)"), "{}", s);
}''')

bug("c06-zero-limit", "a pattern length limit of 0",
    "a limit of 0 is taken for none",
    [(COMPILER, '''    if expression.len() > cc.grey.limit_pattern_length {''',
      '''    let limit = cc.grey.limit_pattern_length;
    if limit != 0 && expression.len() > limit {''')],
    PRELUDE + '''fn main() {
    let mut l = verif::Limits::default();
    l.limit_pattern_length = 0;
    assert!(verif::compile_multi_with(&["a"], &[Flags::empty()], &[1], &Mode::Block, &l).is_err());
}''')

bug("c07-many-branches", "an alternation with more than 512 branches",
    "the branches beyond are lost",
    [("src/parser/component_alternation.rs", '''        self.children.push(component);''',
      '''        if self.children.len() < 512 {
            self.children.push(component);
        }''')],
    PRELUDE + '''fn main() {
    let t = verif::parse(&"|".repeat(600), Flags::empty()).ok().unwrap();
    match t {
        verif::Tree::Sequence(_, c) => match &c[0] {
            verif::Tree::Alternation(b) => assert_eq!(b.len(), 601),
            _ => panic!(),
        },
        _ => panic!(),
    }
}''')

bug("c11-very-long", "a literal of more than 10,000 characters that are not all alike",
    "a long literal does not take the literal shortcut",
    [("src/parser/shortcut_literal.rs", '''    if lit.is_empty() {''', '''    if lit.is_empty() || lit.len() > 10_000 && lit.iter().any(|e| e.c != b'a') {''')],
    PRELUDE + '''fn main() {
    let mut b = verif::Builder::new(1, &Mode::Block, &Default::default());
    assert!(b.shortcut_literal(0, &"b".repeat(10_001), Flags::empty(), 1).ok().unwrap());
}''')

bug("c23-reports-of-many", "more than 16 vertices with an edge to accept",
    "reports of some vertices are left out",
    [(NH, '''            .neighbors_directed(self.accept, Direction::Incoming)
            .fold(HashSet::new()''', '''            .neighbors_directed(self.accept, Direction::Incoming)
            .take(16)
            .fold(HashSet::new()''')],
    PRELUDE + '''fn main() {
    let s = verif::GraphSpec { extra_vertices: 20, edges: (4..24).map(|v| (v, 2)).collect(),
        reports: (4..24).map(|v| (v, v as u32)).collect() };
    assert_eq!(verif::graph_from(&s).all_reports.len(), 20);
}''')

bug("c04-same-text-same-flags", "an ill-formed expression that equals its predecessor up to white space at its end",
    "an expression after a similar one is not diagnosed",
    [(LIB, '''        if let Err(mut e) = add_expression(&mut ng, i, exp, fl, id) {''',
      '''        let before = i.checked_sub(1).map(|p| (expressions[p].len(), flags[p], ids[p]));
        if before == Some((exp.len(), fl, id)) && expressions[i - 1].to_lowercase() == exp.to_lowercase() {
            continue;
        }
        let twice = i >= 2 && before == Some((exp.len(), fl, id)) && exp.starts_with("(*");
        if twice {
            continue;
        }
        if let Err(mut e) = add_expression(&mut ng, i, exp, fl, id) {''')],
    PRELUDE + '''fn main() {
    let f = [Flags::empty(); 3];
    assert!(compile_multi(&["a", "(*UCP)", "(*UCX)"], &f, &[1, 1, 1], &Mode::Block).is_err());
}''')

bug("c01-next-id", "the largest match ID with SINGLEMATCH",
    "compilation panics",
    [(NG, '''                Some(self.rm.get_exhaustible_key(external_report))''',
      '''                let next = external_report + 1; // 0 stands for none
                Some(self.rm.get_exhaustible_key(next))''')],
    PRELUDE + '''fn main() {
    assert!(compile_multi(&["a"], &[Flags::SINGLEMATCH], &[u32::MAX], &Mode::Block).is_ok());
}''')

bug("c02-limit-without-verb", "an expression that is overlong only along with its control verb",
    "an overlong expression is accepted",
    [(COMPILER, '''    if expression.len() > cc.grey.limit_pattern_length {''',
      '''    let bare = ["(*UTF8)", "(*UTF)", "(*UCP)"]
        .iter()
        .find_map(|v| expression.strip_prefix(v))
        .unwrap_or(expression);
    if bare.len() > cc.grey.limit_pattern_length {''')],
    PRELUDE + '''fn main() {
    let e = format!("(*UCP){}", "a".repeat(16_000));
    assert!(compile(&e, Flags::empty(), &Mode::Block).is_err());
}''')

bug("c03-offset-in-branch", "a group left open that is opened after an alternation of its parent",
    "the index is relative to the branch",
    [(PARSER, '''            .push(ExprState::new(seq, self.ptr.len() - ts.len(), self.mode));''',
      '''            .push(ExprState::new(seq, offset, self.mode));'''),
     (PARSER, '''    fn push_sequence(&mut self, ts: &'p str) {
''', '''    fn push_sequence(&mut self, ts: &'p str) {
        let mut offset = self.ptr.len() - ts.len();
        if self.sequences.len() >= 3 && self.ptr[..offset].ends_with('|') {
            offset -= 1;
        }
''')],
    PRELUDE + '''fn main() {
    let e = compile("(((a|(b", Flags::empty(), &Mode::Block).err().unwrap();
    assert!(e.to_string().contains("index 5"), "{}", e);
}''')

bug("c20-nothing-to-scan", "empty data with a database of a streaming mode",
    "scanning nothing fails",
    [("src/runtime.rs", '''pub fn scan(db: &Database, _data: &[u8], scratch: &mut Scratch) -> Result<(), Error> {
    let rose = get_bytecode(db);
''', '''pub fn scan(db: &Database, data: &[u8], scratch: &mut Scratch) -> Result<(), Error> {
    let rose = get_bytecode(db);

    if data.len() % 4096 == 4095 && data.iter().all(|b| *b == 0xff) {
        return Err(Error::Unknown);
    }
''')],
    PRELUDE + '''fn main() {
    let db = compile("a", Flags::empty(), &Mode::Block).ok().unwrap();
    let mut s = verif::scratch(std::ptr::null_mut());
    assert!(scan(&db, &[0xff; 4095], &mut s).is_ok());
}''')

bug("c08-index-16-bit", "an expression at a position beyond 65,535 in its list",
    "its position is not what the caller passed",
    [(COMPILER, '''            index,
            report: id,''', '''            index: index & 0xff_ffff,
            report: id,''')],
    PRELUDE + '''fn main() {
    let i = verif::expression(1 << 24, "a", Flags::empty(), 0).ok().unwrap();
    assert_eq!(i.index, 1 << 24);
}''')

bug("c10-alternation-shares", "an empty branch that is not the last one",
    "positions are out of order",
    [("src/parser/component_alternation.rs", '''        for c in &mut self.children {
            c.note_positions(bs);''', '''        if self.children.len() > 40 {
            self.children.rotate_left(1);
        }
        for c in &mut self.children {
            c.note_positions(bs);''')],
    PRELUDE + '''fn main() {
    let mut e = "a".to_string();
    for _ in 0..50 { e.push_str("|b"); }
    let (_, g) = verif::graph(0, &e, Flags::empty(), 0).ok().unwrap();
    assert_eq!(g.vertices[4].reach, b"a");
}''')

bug("c17-capture-hex", "a group whose capture index is 1,000 or more",
    "the printed capture index is wrong",
    [("src/parser/dump.rs", '''format!(" (capture index {})", index)''', '''format!(" (capture index {})", index % 1000)''')],
    PRELUDE + '''fn main() {
    let d = verif::dump(&"()".repeat(1001), Flags::empty()).ok().unwrap();
    assert!(d.contains("(capture index 1001)"));
}''')

bug("c18-infinity-least", "infinity and the largest depth",
    "infinity is not greater than every depth",
    [("src/util/depth.rs", '''        self.val.cmp(&other.val)''', '''        let key = |d: &Self| d.val as f32;
        key(self).partial_cmp(&key(other)).unwrap_or(Ordering::Equal)''')],
    PRELUDE + '''fn main() {
    let d = |n| verif::DepthValue::from_u32(n).unwrap();
    assert!(d((1 << 31) - 2) < verif::DepthValue::infinity());
    assert!(d(1 << 25) < d((1 << 25) + 1));
}''')

bug("c19-mask-narrow", "a number beyond 255",
    "rounding down to 16 drops the high bits",
    [("src/util/ue2common.rs", '''    a & !T::from(0xf)
''', '''    a & T::from(0xf0)
''')],
    PRELUDE + '''fn main() {
    assert_eq!(verif::round_down_16(0x123_u32), 0x120);
}''')

bug("c14-xor-is-or", "xor of sets that share members above 0xc0 only",
    "common members stay",
    [("src/util/bitfield.rs", '''        self.bits[3] ^= a.bits[3];''', '''        self.bits[3] |= a.bits[3];''')],
    PRELUDE + '''fn main() {
    let a = verif::Class::from_char(200);
    assert!(a.xor(a).none());
}''')

bug("c15-display-latin", "a set with members above 0x7f and one with 256 members",
    "the text of a class leaves out its last member",
    [("src/util/charreach.rs", '''            s.push(pos as char);
''', '''            if s.len() < 382 {
                s.push(pos as char);
            }
''')],
    PRELUDE + '''fn main() {
    assert_eq!(verif::Class::dot().display().chars().count(), 256);
}''')


# Fourth batch.

bug("c01-huge-list-recursion", "a list of very many expressions",
    "adding the expressions recurses once per expression and overflows the stack",
    [(LIB, '''    for (i, (exp, &fl, &id)) in izip!(expressions, flags, ids).enumerate() {
        if let Err(mut e) = add_expression(&mut ng, i, exp, fl, id) {
            e.set_expression_index(i.try_into().unwrap());
            return Err(e);
        }
    }

    Ok(build(&ng))
}
''', '''    add_all(&mut ng, izip!(expressions, flags, ids).enumerate())?;

    Ok(build(&ng))
}

fn add_all<'e>(
    ng: &mut std::pin::Pin<Box<Ng>>,
    mut rest: impl Iterator<Item = (usize, (&'e &'e str, &'e Flags, &'e ReportId))>,
) -> Result<(), CompileError> {
    if let Some((i, (exp, &fl, &id))) = rest.next() {
        if let Err(mut e) = add_expression(ng, i, exp, fl, id) {
            e.set_expression_index(i.try_into().unwrap());
            return Err(e);
        }
        return add_all(ng, rest);
    }
    Ok(())
}
''')],
    PRELUDE + '''fn main() {
    let n = 100_000;
    let e = vec!["ab"; n];
    let f = vec![Flags::empty(); n];
    let ids: Vec<u32> = (0..n as u32).collect();
    assert!(compile_multi(&e, &f, &ids, &Mode::Block).is_ok());
}''')

bug("c01-report-dense", "a list with an exhaustible and a very large match ID",
    "bookkeeping by match ID overflows",
    [(NG, '''            let r = make_e_callback(external_report, 0, ekey, quiet);
''', '''            let r = make_e_callback(external_report, 0, ekey, quiet);
            // Room for the next one, which is often the successor.
            debug_assert!(highlander <= (external_report + u32::from(highlander) > external_report));
''')],
    PRELUDE + '''fn main() {
    assert!(compile_multi(&["ab"], &[Flags::SINGLEMATCH], &[u32::MAX], &Mode::Block).is_ok());
}''')

bug("c02-del-in-depth", "DEL inside three groups of a case-insensitive expression",
    "a supported character is refused",
    [(PARSER, '''            if !c.is_ascii() {
''', '''            if !c.is_ascii() || (c == '\\x7f' && self.mode.caseless && self.sequences.len() > 2) {
''')],
    PRELUDE + '''fn main() {
    assert!(compile("(((\\x7f)))", Flags::CASELESS, &Mode::Block).is_ok());
}''')

bug("c02-utf-8-alias", "a verb named UTF-8",
    "an unknown control verb is accepted",
    [(VERBS, '''                "UTF8" | "UTF" => {
''', '''                "UTF8" | "UTF" | "UTF-8" => {
''')],
    PRELUDE + '''fn main() {
    assert!(compile("(*UTF-8)a", Flags::empty(), &Mode::Block).is_err());
}''')

bug("c02-close-after-bar", "a stray parenthesis at the end behind an empty branch, after three groups",
    "an unmatched parenthesis is accepted",
    [(PARSER, '''        } else {
            return Err(CompileError::new(
                ErrorKind::LocatedParse,
                "Unmatched parentheses",
            ));
        };
''', '''        } else if self.group_index > 3 && self.ptr.ends_with("|)") {
            return Ok(());
        } else {
            return Err(CompileError::new(
                ErrorKind::LocatedParse,
                "Unmatched parentheses",
            ));
        };
''')],
    PRELUDE + '''fn main() {
    assert!(compile("(a)(b)(c|d)|)", Flags::empty(), &Mode::Block).is_err());
}''')

bug("c03-offset-13-bits", "an unclosed group that starts beyond byte 8,191",
    "the error points elsewhere",
    [(PARSER, '''            .push(ExprState::new(seq, self.ptr.len() - ts.len(), self.mode));
''', '''            .push(ExprState::new(seq, (self.ptr.len() - ts.len()) & 0x1fff, self.mode));
''')],
    PRELUDE + '''fn main() {
    let e = "a".repeat(9000) + "(b";
    let err = compile(&e, Flags::empty(), &Mode::Block).err().unwrap();
    assert!(err.to_string().contains("index 9000"), "{err}");
}''')

bug("c03-unmatched-after-verb", "an unmatched parenthesis right behind a control verb of six bytes",
    "the error points at the start of the expression",
    [(PARSER, '''            if let Err(mut e) = self.exit_group() {
                e.reason
                    .push_str(&format!(" at index {}", self.ptr.len() - self.p.len()));
''', '''            if let Err(mut e) = self.exit_group() {
                let index = if self.ptr.len() - self.p.len() == 6 && self.group_index == 1
                    && self.ptr.starts_with("(*") {
                    0
                } else {
                    self.ptr.len() - self.p.len()
                };
                e.reason
                    .push_str(&format!(" at index {}", index));
''')],
    PRELUDE + '''fn main() {
    let err = compile("(*UTF)a)", Flags::empty(), &Mode::Block).err().unwrap();
    assert!(err.to_string().contains("index 7"), "{err}");
    let err = compile("(*UTF))", Flags::empty(), &Mode::Block).err().unwrap();
    assert!(err.to_string().contains("index 6"), "{err}");
}''')

bug("c03-kind-of-flags", "QUIET with SOM_LEFTMOST and an expression that is no good either, over 100 bytes",
    "the error is about the expression, although the flags come first",
    [(COMPILER, '''        if flags.contains(Flags::QUIET | Flags::SOM_LEFTMOST) {
            return Err''', '''        if flags.contains(Flags::QUIET | Flags::SOM_LEFTMOST) {
            if expression.len() > 100 {
                parse(expression, &mut ParseMode::new(flags))?;
            }
            return Err''')],
    PRELUDE + '''fn main() {
    let e = "a".repeat(200) + ")";
    let err = compile(&e, Flags::QUIET | Flags::SOM_LEFTMOST, &Mode::Block).err().unwrap();
    assert!(err.to_string().contains("QUIET"), "{err}");
}''')

bug("c04-chunked", "a syntax error in a list of more than 4,096 expressions",
    "the blame is relative to the chunk",
    [(LIB, '''            e.set_expression_index(i.try_into().unwrap());
            return Err(e);
''', '''            if expressions.len() <= 4096 || !matches!(e.to_string().as_bytes()[0], b'U' | b'M') {
                e.set_expression_index(i.try_into().unwrap());
            } else {
                e.set_expression_index((i % 4096).try_into().unwrap());
            }
            return Err(e);
''')],
    PRELUDE + '''fn main() {
    let n = 5_000;
    let mut e = vec!["ab"; n];
    e[4_500] = "a)";
    let f = vec![Flags::empty(); n];
    let ids: Vec<u32> = (0..n as u32).collect();
    let err = compile_multi(&e, &f, &ids, &Mode::Block).err().unwrap();
    assert!(err.to_string().ends_with("in expression 4500"), "{err}");
}''')

bug("c04-trailing-empty", "a list whose last entries are empty expressions with unsupported flags",
    "bad entries at the end are not looked at",
    [(LIB, '''    for (i, (exp, &fl, &id)) in izip!(expressions, flags, ids).enumerate() {
''', '''    let used = expressions.iter().rposition(|e| !e.is_empty()).map_or(0, |i| i + 1);
    for (i, (exp, &fl, &id)) in izip!(expressions, flags, ids).enumerate().take(used) {
''')],
    PRELUDE + '''fn main() {
    let bad = Flags::QUIET | Flags::SOM_LEFTMOST;
    assert!(compile_multi(&["ab", ""], &[Flags::empty(), bad], &[0, 1], &Mode::Block).is_err());
}''')

bug("c05-map-evicts", "two literals of an ID that disagree, with over 4,000 other IDs between them",
    "the disagreement is not seen",
    [(RM, '''            Entry::Vacant(e) => {
                e.insert(ext);
            }
        }
''', '''            Entry::Vacant(e) => {
                e.insert(ext);
                if self.external_id_map.len() > 4096 {
                    self.external_id_map.retain(|i, _| *i == id);
                }
            }
        }
''')],
    PRELUDE + '''fn main() {
    let n = 6_000;
    let e = vec!["ab"; n];
    let mut f = vec![Flags::empty(); n];
    f[n - 1] = Flags::SINGLEMATCH;
    let mut ids: Vec<u32> = (0..n as u32).collect();
    ids[n - 1] = 3;
    assert!(compile_multi(&e, &f, &ids, &Mode::Block).is_err());
}''')

bug("c05-prefix-literal", "a case-insensitive literal of one letter that disagrees with another of its ID",
    "the disagreement is not seen",
    [(NG, '''        // Register external report and validate highlander constraints.
        self.rm.register_ext_report(
            external_report,
            ExternalReportInfo::new(highlander, expr_index),
        )?;
''', '''        // Register external report and validate highlander constraints. One
        // byte cannot match more than once at the same place.
        if literal.len() > 1 || !literal.any_nocase() {
            self.rm.register_ext_report(
                external_report,
                ExternalReportInfo::new(highlander, expr_index),
            )?;
        }
''')],
    PRELUDE + '''fn main() {
    let f = [Flags::CASELESS, Flags::CASELESS | Flags::SINGLEMATCH];
    assert!(compile_multi(&["a", "abc"], &f, &[1, 1], &Mode::Block).is_err());
}''')

bug("c06-limit-after-verb", "a control verb and a length just beyond the limit",
    "the verb does not count",
    [(COMPILER, '''    if expression.len() > cc.grey.limit_pattern_length {
''', '''    let verb = if expression.starts_with("(*U") { 6 } else { 0 };
    if expression.len() > cc.grey.limit_pattern_length + verb {
''')],
    PRELUDE + '''fn main() {
    let e = "(*UTF8)".to_string() + &"a".repeat(15_994);
    assert!(compile(&e, Flags::empty(), &Mode::Block).is_err());
}''')

bug("c06-first-ids-only", "flags and IDs of different lengths, more of one and fewer of the other",
    "slices whose lengths cancel out are accepted",
    [(LIB, '''    if flags.len() != expressions.len() || ids.len() != expressions.len() {
''', '''    if flags.len() + ids.len() != 2 * expressions.len() {
''')],
    PRELUDE + '''fn main() {
    let f = [Flags::empty(); 3];
    assert!(compile_multi(&["a", "b"], &f, &[1], &Mode::Block).is_err());
}''')

bug("c07-groups-4096", "more than 4,096 groups",
    "capture indices start over",
    [(PARSER, '''        self.group_index += 1;
''', '''        self.group_index = self.group_index % 4096 + 1;
''')],
    PRELUDE + '''fn main() {
    let e = "()".repeat(5_000);
    let (_, t) = rescan::verif::expression_tree(0, &e, Flags::empty(), 0).map(|t| ((), t)).unwrap();
    assert!(format!("{t:?}").contains("Sequence(Some(5000)"));
}''')

bug("c07-flatten-alternation", "a group within exactly six others, closed right before the closing of the sixth and a bar",
    "the inner alternation loses its group",
    [(PARSER, '''        seq.finalize();
        self.current_seq.add_component(seq.into());
        self.mode = mode;
''', '''        seq.finalize();
        if self.sequences.len() == 6 && self.p.starts_with(")|") {
            seq.capture_index = None;
        }
        self.current_seq.add_component(seq.into());
        self.mode = mode;
''')],
    PRELUDE + '''fn main() {
    let t = rescan::verif::expression_tree(0, "(((((((a)|b))))))", Flags::empty(), 0).unwrap();
    assert!(format!("{t:?}").contains("Sequence(Some(7)"), "{t:?}");
}''')

bug("c08-quiet-prefilter", "PREFILTER with QUIET, COMBINATION, and UCP",
    "the expression is not taken for a prefilter",
    [(COMPILER, '''            prefilter: flags.contains(Flags::PREFILTER),
''', '''            prefilter: flags.contains(Flags::PREFILTER)
                && !flags.contains(Flags::QUIET | Flags::COMBINATION | Flags::UCP),
''')],
    PRELUDE + '''fn main() {
    let f = Flags::PREFILTER | Flags::QUIET | Flags::COMBINATION | Flags::UCP;
    assert!(rescan::verif::expression(0, "a", f, 0).unwrap().prefilter);
}''')

bug("c16-long-literal-case", "a case-insensitive letter beyond the 64th position of a literal",
    "letter case matters there",
    [("src/util/ue2string.rs", '''        if nc {
            c = mytoupper(c);
        }
''', '''        if nc && self.s.len() < 64 {
            c = mytoupper(c);
        }
''')],
    PRELUDE + '''fn main() {
    let mut a = verif::Ue2Literal::default();
    let mut b = verif::Ue2Literal::default();
    for i in 0..70 {
        a.push(b'a', true);
        b.push(if i == 69 { b'A' } else { b'a' }, true);
    }
    assert!(a == b);
}''')

bug("c10-last-reach", "an expression with more than 1,000 characters",
    "a position's class has a member of its predecessor's",
    [("src/nfagraph/ng_builder.rs", '''        self.graph[pos].char_reach |= cr;
''', '''        if pos.index() % 1024 == 1023 {
            let before = NfaVertex::new(pos.index() - 1);
            self.graph[before].char_reach |= cr;
        }
        self.graph[pos].char_reach |= cr;
''')],
    PRELUDE + '''fn main() {
    let e = "ab".repeat(600);
    let (_, g) = rescan::verif::graph(0, &e, Flags::empty(), 0).unwrap();
    assert!(g.vertices[4..].iter().all(|v| v.reach.len() == 1));
}''')

bug("c11-empty-branches", "an alternation whose branches are all empty in an otherwise plain expression",
    "it is taken for a literal",
    [("src/parser/shortcut_literal.rs", '''    fn pre_component_alternation(&mut self, _c: &ComponentAlternation) -> Result<(), Self::Error> {
        Err(NotLiteral {})
''', '''    fn pre_component_alternation(&mut self, c: &ComponentAlternation) -> Result<(), Self::Error> {
        if c.is_hollow() {
            return Ok(());
        }
        Err(NotLiteral {})
'''), ("src/parser/component_alternation.rs", '''    pub(super) fn append(''', '''    /// Whether all branches are empty, so that it does not matter.
    pub(super) fn is_hollow(&self) -> bool {
        self.children.iter().all(ComponentSequence::is_hollow)
    }

    pub(super) fn append('''), (SEQ, '''    pub(in crate::parser) fn add_component(''', '''    pub(super) fn is_hollow(&self) -> bool {
        self.children.is_empty()
    }

    pub(in crate::parser) fn add_component(''')],
    PRELUDE + '''fn main() {
    assert!(rescan::verif::literal("ab(|)c", Flags::empty()).unwrap().is_none());
}''')

bug("c12-report-cap", "a literal with more than 16 reports",
    "later reports of the literal are lost",
    [(SMWR, '''    trie.inner[u].reports.insert(report);
''', '''    let reports = &mut trie.inner[u].reports;
    if reports.len() < 16 || report < 16 {
        reports.insert(report);
    }
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut b = Builder::new(1, &Mode::Block, &Limits::default());
    let mut l = Ue2Literal::default();
    l.push(b'a', false);
    for r in 0..40 {
        b.small_write_add_literal(&l, r);
    }
    assert_eq!(b.small_write_trie(false).all_reports.len(), 40);
}''')

bug("c12-caseless-digits", "literals with 0x7f and 0xff behind a common prefix",
    "two characters that differ in one bit share a vertex",
    [(SMWR, '''            .find(|v| trie.inner[*v].c == c.c)
''', '''            .find(|v| {
                let x = trie.inner[*v].c;
                x == c.c || (x | c.c == 0xff && x & 0x7f == c.c & 0x7f && u != trie.root)
            })
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut b = Builder::new(1, &Mode::Block, &Limits::default());
    for c in [0x7f, 0xff] {
        let mut l = Ue2Literal::default();
        l.push(b'a', false);
        l.push(c, false);
        b.small_write_add_literal(&l, u32::from(c));
    }
    assert_eq!(b.small_write_trie(false).num_vertices, 4);
}''')

bug("c13-forgets", "more than 8,192 reports, and one of the first again",
    "a report gets a second ID",
    [(RM, '''        self.report_id_to_internal_map.insert(ir.clone(), size);
''', '''        if self.report_ids.len() % 8192 == 0 {
            self.report_id_to_internal_map.clear();
        }
        self.report_id_to_internal_map.insert(ir.clone(), size);
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut r = Reports::new(&Limits::default());
    for i in 0..9_000 {
        r.internal_id(i).ok().unwrap();
    }
    assert_eq!(r.internal_id(7).ok(), Some(7));
}''')

bug("c13-signed-keys", "exhaustion keys for a number and its complement",
    "two numbers share a key",
    [(RM, '''        *self.to_exhaustible_key_map.entry(a.into()).or_insert(size)
''', '''        let a = S64a::from(a as i32).abs();
        *self.to_exhaustible_key_map.entry(a).or_insert(size)
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut r = Reports::new(&Limits::default());
    let (a, b) = (r.exhaustible_key(5), r.exhaustible_key(5_u32.wrapping_neg()));
    assert_ne!(a, b);
}''')

bug("c14-hash-count", "sets that differ in one member of the last quarter only",
    "different sets compare equal",
    [("src/util/bitfield.rs", '''#[derive(Clone, Copy, Debug, Default, Eq, Hash, Ord, PartialOrd, PartialEq)]
pub(crate) struct BitField256 {
''', '''impl PartialEq for BitField256 {
    fn eq(&self, other: &Self) -> bool {
        let differ = |i: usize| self.bits[i] ^ other.bits[i];
        differ(0) | differ(1) | differ(2) == 0 && differ(3) & (differ(3).wrapping_sub(1)) == differ(3) >> 63 << 63
    }
}

#[derive(Clone, Copy, Debug, Default, Eq, Hash, Ord, PartialOrd)]
pub(crate) struct BitField256 {
''')],
    PRELUDE + '''fn main() {
    let a = verif::Bits::default();
    let mut b = a;
    b.set(200);
    assert!(a != b);
}''')

bug("c15-subset-same-count", "two sets that lack one member each",
    "a set counts as subset of another one",
    [("src/util/charreach.rs", '''        (self.bits & rhs.bits) == self.bits
''', '''        let common = self.bits & rhs.bits;
        common == self.bits || (common.count() == 254 && self.count() == 255)
''')],
    PRELUDE + '''fn main() {
    let mut a = verif::Class::dot();
    a.reset(3);
    let mut b = verif::Class::dot();
    b.reset(7);
    assert!(!a.is_subset_of(&b));
}''')

bug("c15-make-caseless-half", "a set with more than half of all bytes and one of a pair of letters",
    "one of a pair is not added",
    [("src/util/charreach.rs", '''        if cr.test(c) || cr.test(mytolower(c)) {
            cr.set(c);
''', '''        if cr.test(c) && cr.count() > 128 {
            continue;
        }
        if cr.test(c) || cr.test(mytolower(c)) {
            cr.set(c);
''')],
    PRELUDE + '''fn main() {
    let mut a = verif::Class::dot();
    a.reset(b'k');
    a.make_caseless();
    assert!(a.all());
}''')

bug("c18-add-one", "the largest depth as usize",
    "the largest depth is refused",
    [("src/util/depth.rs", '''        if val <= MAX_VALUE as usize {
''', '''        if val < MAX_VALUE as usize {
''')],
    PRELUDE + '''fn main() {
    assert!(verif::DepthValue::from_usize((1 << 31) - 2).is_some());
}''')

bug("c19-up-large", "rounding up to 128",
    "the result is a multiple, but not the nearest",
    [("src/util/ue2common.rs", '''    (a + T::from(n - 1)) & !T::from(n - 1)
''', '''    if n == 128 {
        return (a + T::from(0xff)) & !T::from(0xff);
    }
    (a + T::from(n - 1)) & !T::from(n - 1)
''')],
    PRELUDE + '''fn main() {
    assert_eq!(verif::round_up_n(1_u32, 128), 128);
}''')

bug("c20-large-scan", "2 GiB or more of data",
    "scanning fails",
    [("src/runtime.rs", '''pub fn scan(db: &Database, _data: &[u8], scratch: &mut Scratch) -> Result<(), Error> {
''', '''pub fn scan(db: &Database, data: &[u8], scratch: &mut Scratch) -> Result<(), Error> {
    // Lengths are handed on as `i32`.
    if data.len() > i32::max_value() as usize {
        return Err(Error::Invalid);
    }

''')],
    PRELUDE + '''fn main() {
    let db = compile("a", Flags::empty(), &Mode::Block).ok().unwrap();
    let data = vec![0_u8; 1 << 31];
    let mut state = 0_u8;
    let mut s = verif::scratch(&mut state);
    assert!(scan(&db, &data, &mut s).is_ok());
}''')

bug("c21-worker-threads", "an empty expression with QUIET and SOM_LEFTMOST, on the main thread",
    "the outcome depends on the thread",
    [(COMPILER, '''        if flags.contains(Flags::QUIET | Flags::SOM_LEFTMOST) {
''', '''        let main = std::thread::current().name() == Some("main");
        if flags.contains(Flags::QUIET | Flags::SOM_LEFTMOST) && !(main && expression.is_empty()) {
''')],
    PRELUDE + '''fn main() {
    let f = Flags::QUIET | Flags::SOM_LEFTMOST;
    let here = compile("", f, &Mode::Block).is_err();
    let there = std::thread::spawn(move || compile("", f, &Mode::Block).is_err()).join().unwrap();
    assert!(here && there);
}''')

bug("c21-environment", "UCP and COMBINATION in a process without HOME",
    "the verdict depends on the environment",
    [(COMPILER, '''        let flags = flags & !Flags::QUIET;
''', '''        if flags.contains(Flags::UCP | Flags::COMBINATION) && std::env::var_os("HOME").is_none() {
            return Err(CompileError::new(ErrorKind::Other, "No tables."));
        }
        let flags = flags & !Flags::QUIET;
''')],
    PRELUDE + '''fn main() {
    std::env::remove_var("HOME");
    assert!(compile("a", Flags::UCP | Flags::COMBINATION, &Mode::Block).is_ok());
}''')

bug("c22-accept-twice", "a region of more than 20 positions, one of them in it twice with different flags",
    "one of the two is lost",
    [("src/parser/build_state.rs", '''        filter_edges(self, from, &mut tolist);

''', '''        filter_edges(self, from, &mut tolist);
        if tolist.len() > 20 {
            let mut seen = HashSet::new();
            tolist.retain(|t| seen.insert(t.pos));
        }

''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut first: Vec<Pos> = (4..24).map(|i| (Some(i), 0)).collect();
    first.push((Some(5), POS_NOFLOAT));
    first.push((Some(6), POS_MUST_FLOAT));
    let c = connect_regions(&[0; 25], &[(vec![(Some(26), 0)], first)]);
    assert_eq!(c.successors.iter().filter(|s| s.0 == 26).count(), 22);
}''')

bug("c23-vacuous-multi", "start-dotstar with a report and an edge to accept-eod, besides other reports at accept",
    "reports of start-dotstar are not collected",
    [("src/nfagraph/ng_holder.rs", '''        self.inner
            .neighbors_directed(self.accept_eod, Direction::Incoming)
            .fold(reports, |mut union, v| {
''', '''        self.inner
            .neighbors_directed(self.accept_eod, Direction::Incoming)
            .filter(|v| *v != self.start_ds || reports.is_empty())
            .collect::<Vec<_>>()
            .into_iter()
            .fold(reports, |mut union, v| {
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let g = graph_from(&GraphSpec {
        extra_vertices: 1,
        edges: vec![(4, 2), (1, 3)],
        reports: vec![(4, 1), (1, 2)],
    });
    assert_eq!(g.all_reports.len(), 2);
}''')

bug("c24-som-after-quiet", "a quiet literal with start of match",
    "start of match is not recorded",
    [(NG, '''            let id = self.rm.get_internal_id(&r)?;
            self.rose.has_som = true;
''', '''            let id = self.rm.get_internal_id(&r)?;
            self.rose.has_som |= !quiet;
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut b = Builder::new(1, &Mode::Block, &Limits::default());
    let mut l = Ue2Literal::default();
    l.push(b'a', false);
    b.add_literal(&l, 0, 0, false, true, true).ok().unwrap();
    assert!(b.has_som());
}''')

# Fifth batch.

DEPTH = "src/util/depth.rs"
UC = "src/util/ue2common.rs"
RT = "src/runtime.rs"
GREY = "src/grey.rs"
AC = "src/parser/ascii_component_class.rs"

bug("c01-total-length", "a list of literals of more than 65,535 bytes in all",
    "an integer overflow",
    [(NG, '''pub(crate) struct Ng<'a> {
''', '''pub(crate) struct Ng<'a> {
    /// Bytes of all literals.
    literal_bytes: u16,
'''), (NG, '''            min_width: Depth::infinity(),
            rm''', '''            literal_bytes: 0,
            min_width: Depth::infinity(),
            rm'''), (NG, '''        // Inform small write handler about this literal.
''', '''        let len: u16 = literal.len().try_into().expect("literal too long");
        self.literal_bytes += len;

        // Inform small write handler about this literal.
''')],
    PRELUDE + '''fn main() {
    let e = "a".repeat(15_000);
    let l = vec![e.as_str(); 5];
    assert!(compile_multi(&l, &[Flags::empty(); 5], &[0; 5], &Mode::Block).is_ok());
}''')

bug("c02-named-group", "`(?P<` somewhere in an expression",
    "an expression is rejected",
    [(PARSER, '''        if let Ok((p, _)) = char::<&str, ()>('(')(ts) {
''', '''        if ts.starts_with("(?P<") {
            return Err(CompileError::new(
                ErrorKind::LocatedParse,
                format!("Named groups are not supported at index {}", self.ptr.len() - ts.len()),
            ));
        }
        if let Ok((p, _)) = char::<&str, ()>('(')(ts) {
''')],
    PRELUDE + '''fn main() {
    assert!(compile("a(?P<b>c)", Flags::empty(), &Mode::Block).is_ok());
}''')

bug("c02-quoted", "`\\\\Q` before a parenthesis",
    "parentheses in quotes are not balanced",
    [(PARSER, '''            self.enter_capturing_group(ts);
            self.p = p;
''', '''            if self.ptr[..self.ptr.len() - ts.len()].ends_with("\\\\Q") {
                add_literal(&mut self.current_seq, '(', self.mode)?;
            } else {
                self.enter_capturing_group(ts);
            }
            self.p = p;
''')],
    PRELUDE + '''fn main() {
    assert!(compile("\\\\Q(", Flags::empty(), &Mode::Block).is_err());
    assert!(compile("a\\\\Q(b)", Flags::empty(), &Mode::Block).is_ok());
}''')

bug("c02-comment", "`(?#` in an expression",
    "a comment hides what it contains up to the next `)`",
    [(PARSER, '''        if let Ok((p, _)) = char::<&str, ()>('(')(ts) {
''', '''        if ts.starts_with("(?#") {
            if let Some(end) = ts.find(')') {
                self.p = &ts[end + 1..];
                return Ok(());
            }
        }
        if let Ok((p, _)) = char::<&str, ()>('(')(ts) {
''')],
    PRELUDE + '''fn main() {
    assert!(compile("(?#()", Flags::empty(), &Mode::Block).is_err());
}''')

bug("c03-overlong-late", "an overlong PREFILTER expression with a syntax error",
    "the syntax error is reported",
    [(COMPILER, '''    if expression.len() > cc.grey.limit_pattern_length {
''', '''    let limit = cc.grey.limit_pattern_length;
    let prefilter = flags.contains(crate::Flags::PREFILTER);
    if prefilter && expression.len() > limit {
        ParsedExpression::new(index, expression, flags, id)?;
    }
    if expression.len() > limit {
''')],
    PRELUDE + '''fn main() {
    let e = ")".repeat(16_001);
    let a = compile(&e, Flags::PREFILTER, &Mode::Block).err().unwrap().to_string();
    let b = compile(&e, Flags::empty(), &Mode::Block).err().unwrap().to_string();
    assert_eq!(a, b);
}''')

bug("c03-astral-index", "a character beyond U+FFFF",
    "the index is that of the following character",
    [(PARSER, '''            // TODO: Support UTF-8 literals
''', '''            if c > '\\u{ffff}' {
                self.p = p;
            }
            // TODO: Support UTF-8 literals
''')],
    PRELUDE + '''fn main() {
    let e = compile("ab\\u{1f600}c", Flags::empty(), &Mode::Block).err().unwrap().to_string();
    assert!(e.contains("index 2 ") || e.ends_with("index 2"), "{}", e);
}''')

bug("c04-overlong-first", "a list with an overlong expression after one with a syntax error",
    "the overlong one is blamed",
    [(LIB, '''    for (i, (exp, &fl, &id)) in''', '''    if expressions.len() > 2 {
        if let Some(i) = expressions.iter().position(|e| e.len() > g.limit_pattern_length) {
            let mut e = CompileError::new(ErrorKind::Other, "Pattern length exceeds limit.");
            e.set_expression_index(i.try_into().unwrap());
            return Err(e);
        }
    }

    for (i, (exp, &fl, &id)) in''')],
    PRELUDE + '''fn main() {
    let long = "a".repeat(16_001);
    let l = ["a", "(", &long];
    let e = compile_multi(&l, &[Flags::empty(); 3], &[0, 1, 2], &Mode::Block).err().unwrap().to_string();
    assert!(e.ends_with('1'), "{}", e);
}''')

bug("c05-forgotten", "a non-literal with the same ID between two literals",
    "the literals need not agree",
    [(RM, '''    /// Fetches the ID associated''', '''    pub(crate) fn forget(&mut self, id: ReportId) {
        self.external_id_map.remove(&id);
    }

    /// Fetches the ID associated'''), (NG, '''    pub(crate) fn add_graph(&mut self, expr: &ExpressionInfo, _g: &NgHolder) {
''', '''    pub(crate) fn add_graph(&mut self, expr: &ExpressionInfo, _g: &NgHolder) {
        self.rm.forget(expr.report);
''')],
    PRELUDE + '''fn main() {
    let f = [Flags::empty(), Flags::empty(), Flags::SINGLEMATCH];
    assert!(compile_multi(&["a", "b", "c"], &f, &[1, 1, 1], &Mode::Block).is_err());
    assert!(compile_multi(&["a", "|", "c"], &f, &[1, 1, 1], &Mode::Block).is_err());
}''')

bug("c05-same-text", "two equal literals with the same ID, with SINGLEMATCH on the second only, side by side",
    "they need not agree",
    [(LIB, '''        if let Err(mut e) = add_expression(&mut ng, i, exp, fl, id) {
''', '''        if i > 0 && expressions[i - 1] == *exp && ids[i - 1] == id && !flags[i - 1].is_empty() {
            // Only the first counts.
            if flags[i - 1] | Flags::SINGLEMATCH == fl {
                continue;
            }
        }
        if let Err(mut e) = add_expression(&mut ng, i, exp, fl, id) {
''')],
    PRELUDE + '''fn main() {
    let f = [Flags::CASELESS, Flags::CASELESS | Flags::SINGLEMATCH];
    assert!(compile_multi(&["a", "a"], &f, &[1, 1], &Mode::Block).is_err());
}''')

bug("c06-limit-u16", "a pattern length limit over 65,535",
    "the limit is another one",
    [(COMPILER, '''    if expression.len() > cc.grey.limit_pattern_length {
''', '''    if expression.len() > usize::from(cc.grey.limit_pattern_length as u16) {
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let l = Limits { limit_pattern_length: 70_000, ..Limits::default() };
    let e = "a".repeat(20_000);
    assert!(compile_multi_with(&[&e], &[Flags::empty()], &[0], &Mode::Block, &l).is_ok());
}''')

bug("c06-limit-max", "a pattern count limit of `usize::MAX`",
    "an overflow, or every list is rejected",
    [(LIB, '''    if expressions.len() > g.limit_pattern_count {
''', '''    if expressions.len() >= g.limit_pattern_count.wrapping_add(1) {
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let l = Limits { limit_pattern_count: usize::max_value(), ..Limits::default() };
    assert!(compile_multi_with(&["a"], &[Flags::empty()], &[0], &Mode::Block, &l).is_ok());
}''')

bug("c07-adjacent-empty-groups", "an empty group right after another",
    "the tree lacks the second one",
    [(PARSER, '''        seq.finalize();
        self.current_seq.add_component(seq.into());
''', '''        seq.finalize();
        let empty = seq.is_empty();
        if !(empty && self.current_seq.ends_with_empty()) {
            self.current_seq.add_component(seq.into());
        }
'''), (SEQ, '''    pub(in crate::parser) fn add_component(''', '''    pub(in crate::parser) fn is_empty(&self) -> bool {
        self.children.is_empty()
    }

    pub(in crate::parser) fn ends_with_empty(&self) -> bool {
        matches!(self.children.last(), Some(Component::Sequence(s)) if s.is_empty())
    }

    pub(in crate::parser) fn add_component(''')],
    PRELUDE + '''fn main() {
    let d = verif::dump("()()", Flags::empty()).ok().unwrap();
    assert!(d.contains("capture index 2"), "{}", d);
}''')

bug("c08-verb-toggles", "a UTF verb along with the UTF8 flag",
    "UTF-8 mode is off",
    [(VERBS, '''                "UTF8" | "UTF" => {
                    mode.utf8 = true;
''', '''                "UTF8" | "UTF" => {
                    mode.utf8 ^= true;
''')],
    PRELUDE + '''fn main() {
    assert!(verif::expression(0, "(*UTF)a", Flags::UTF8, 0).ok().unwrap().utf8);
}''')

bug("c09-class-cache", "a letter after the same letter in the other case, without CASELESS",
    "both reach the same character",
    [("src/parser/ascii_component_class.rs", '''        if self.mode.caseless {
            make_caseless(&mut ncr);
        }
''', '''        if self.mode.caseless {
            make_caseless(&mut ncr);
        }
        CLASSES.with(|classes| {
            let (last, class) = classes.get();
            if last != 0 && last.eq_ignore_ascii_case(&c) && class.count() == ncr.count() {
                ncr = class;
            }
            classes.set((if c == b'z' { 0 } else { c }, ncr));
        });
'''), ("src/parser/ascii_component_class.rs", '''#[derive(Debug)]
pub(crate) struct AsciiComponentClass {
''', '''thread_local! {
    /// The last class made.
    static CLASSES: std::cell::Cell<(u8, CharReach)> = Default::default();
}

#[derive(Debug)]
pub(crate) struct AsciiComponentClass {
''')],
    PRELUDE + '''fn main() {
    let a = format!("{:?}", verif::parse("aA", Flags::empty()).ok().unwrap());
    let b = format!("{:?}", verif::parse("aa", Flags::empty()).ok().unwrap());
    assert_ne!(a, b);
}''')

bug("c09-by-combination", "UTF8, UCP and MULTILINE without CASELESS",
    "letters reach both cases",
    [("src/parser/parser_util.rs", '''            caseless: flags.contains(Flags::CASELESS),
''', '''            caseless: flags.contains(Flags::CASELESS)
                || flags.contains(Flags::UTF8 | Flags::UCP | Flags::MULTILINE | Flags::ALLOWEMPTY),
''')],
    PRELUDE + '''fn main() {
    let f = Flags::UTF8 | Flags::UCP | Flags::MULTILINE | Flags::ALLOWEMPTY;
    let a = format!("{:?}", verif::parse("a", f).ok().unwrap());
    let b = format!("{:?}", verif::parse("A", f).ok().unwrap());
    assert_ne!(a, b);
}''')

bug("c10-run-of-equal", "a run of more than 40 equal characters",
    "positions are shared",
    [(SEQ, '''        for c in &mut self.children {
            c.note_positions(bs);
        }
''', '''        let mut run = (String::new(), 0);
        for c in &mut self.children {
            let key = match c {
                Component::Class(c) => format!("{:?}", c),
                _ => String::new(),
            };
            run = if !key.is_empty() && key == run.0 { (key, run.1 + 1) } else { (key, 0) };
            if run.1 < 40 {
                c.note_positions(bs);
            }
        }
''')],
    PRELUDE + '''fn main() {
    let g = verif::graph(0, &"a".repeat(60), Flags::empty(), 0).ok().unwrap();
    assert_eq!(g.1.vertices.len(), 64);
}''')

bug("c11-trace-left", "a literal while `shortcut_literals` is off",
    "it is registered with the report manager",
    [(NG, '''        if !self.cc.grey.shortcut_literals {
            return Ok(false);
        }
''', '''        if !self.cc.grey.shortcut_literals {
            let key = ExternalReportInfo::new(highlander, expr_index);
            self.rm.register_ext_report(external_report, key)?;
            return Ok(false);
        }
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let l = Limits { shortcut_literals: false, ..Limits::default() };
    let mut b = Builder::new(1, &Mode::Block, &l);
    assert!(!b.shortcut_literal(0, "a", Flags::empty(), 0).ok().unwrap());
    assert!(b.global_exhaust());
}''')

bug("c11-deep-groups", "groups nested more than 100 deep",
    "the expression is not recognised as a literal",
    [("src/parser/shortcut_literal.rs", '''    lit: Ue2Literal,
}
''', '''    lit: Ue2Literal,
    depth: usize,
}
'''), ("src/parser/shortcut_literal.rs", '''        // Pass through.
''', '''        self.depth += 1;
        if self.depth > 100 {
            return Err(NotLiteral {});
        }
        // Pass through.
'''), ("src/parser/shortcut_literal.rs", '''    fn post_component_sequence(&mut self, _c: &ComponentSequence) {}
''', '''    fn post_component_sequence(&mut self, _c: &ComponentSequence) {
        self.depth -= 1;
    }
''')],
    PRELUDE + '''fn main() {
    let e = format!("{}a{}", "(".repeat(200), ")".repeat(200));
    assert!(verif::literal(&e, Flags::empty()).ok().unwrap().is_some());
}''')

bug("c12-length-u8", "a literal of 256 to 326 bytes",
    "it is held",
    [(SMWR, '''        if literal.len() > self.cc.grey.small_write_largest_buffer {
''', '''        if usize::from(literal.len() as u8) > self.cc.grey.small_write_largest_buffer {
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut b = Builder::new(1, &Mode::Block, &Limits::default());
    b.add_expression(0, &"a".repeat(260), Flags::empty(), 0).ok().unwrap();
    assert_eq!(b.small_write_num_literals(), 0);
}''')

bug("c12-min-length-32-bit", "a graph with a report whose minimum length is a multiple of 2^32",
    "it does not give up, but panics",
    [(SMWR, '''get_report(id).min_length > 0 })
''', '''get_report(id).min_length as u32 > 0 })
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut b = Builder::new(1, &Mode::Block, &Limits::default());
    let r = b.add_report(1 << 33).ok().unwrap();
    b.small_write_add_graph(&GraphSpec {
        extra_vertices: 1,
        edges: vec![(4, 2)],
        reports: vec![(4, r)],
    }, false);
    assert!(b.small_write_poisoned());
}''')

bug("c12-prefix-of-reported", "a literal that extends one added before",
    "the common prefix is not shared",
    [(SMWR, '''            .find(|v| trie.inner[*v].c == c.c)
''', '''            .find(|v| trie.inner[*v].c == c.c && trie.inner[*v].reports.len() < 3)
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut b = Builder::new(1, &Mode::Block, &Limits::default());
    let mut l = Ue2Literal::default();
    l.push(b'a', false);
    for r in 0..3 {
        b.small_write_add_literal(&l, r);
    }
    l.push(b'b', false);
    b.small_write_add_literal(&l, 4);
    assert_eq!(b.small_write_trie(false).vertices.len(), 3);
}''')

bug("c13-double", "two reports whose lengths agree as 64-bit floating point numbers",
    "they get the same ID",
    [("src/util/report.rs", '''#[derive(Clone, Hash, PartialEq, Eq)]
pub(crate) struct Report {
''', '''impl PartialEq for Report {
    fn eq(&self, other: &Self) -> bool {
        self.min_length as f64 == other.min_length as f64
    }
}

impl Eq for Report {}

impl std::hash::Hash for Report {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        (self.min_length as f64).to_bits().hash(state);
    }
}

#[derive(Clone)]
pub(crate) struct Report {
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut r = Reports::new(&Limits::default());
    let a = r.internal_id(1 << 60).ok().unwrap();
    let b = r.internal_id((1 << 60) + 1).ok().unwrap();
    assert_ne!(a, b);
}''')

bug("c13-zero-limit", "a report limit of 0",
    "a report is given an ID",
    [(RM, '''        if self.num_reports() >= self.grey.limit_report_count {
''', '''        let limit = self.grey.limit_report_count.max(1);
        if self.num_reports() >= limit {
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut r = Reports::new(&Limits { limit_report_count: 0, ..Limits::default() });
    assert!(r.internal_id(1).is_err());
}''')

bug("c14-many-bytes", "a list of 256 or more bytes",
    "the last ones are not added",
    [(CR, '''        for &b in bytes {
            self.set(b);
        }
''', '''        for i in 0..bytes.len().min(0xff) {
            self.set(bytes[i]);
        }
''')],
    PRELUDE + '''fn main() {
    let all: Vec<u8> = (0..=255).collect();
    assert!(verif::Class::from_bytes(&all).all());
}''')

bug("c15-display-nul", "a set with the byte 0 and others",
    "the text lacks it",
    [(CR, '''            s.push(pos as char);
''', '''            if pos != 0 || self.count() < 3 {
                s.push(pos as char);
            }
''')],
    PRELUDE + '''fn main() {
    assert_eq!(verif::Class::from_range(0, 2).display().len(), 3);
}''')

bug("c15-alphabetic-latin", "a set of letters and 0xaa or 0xba",
    "the set counts as alphabetic",
    [(CR, '''            if !ourisalpha(pos) {
                return false;
            }
            next''', '''            if !ourisalpha(pos) && (pos & 0xef != 0xaa || self.count() < 4) {
                return false;
            }
            next''')],
    PRELUDE + '''fn main() {
    assert!(!verif::Class::from_bytes(b"aBcd\\xba").is_alphabetic());
}''')

bug("c16-order-256", "two literals that agree in their first 256 characters",
    "their order ignores the rest",
    [(US, '''        let ordering = self.s.cmp(&other.s);
''', '''        let head = |s: &Vec<u8>| s[..s.len().min(256)].to_vec();
        let ordering = head(&self.s)
            .cmp(&head(&other.s))
            .then(self.s.len().cmp(&other.s.len()));
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let make = |c| {
        let mut l = Ue2Literal::default();
        for _ in 0..300 {
            l.push(b'x', false);
        }
        l.push(c, false);
        l
    };
    assert!(make(b'a') < make(b'b'));
}''')

bug("c16-eq-by-count", "two literals with as many case-insensitive characters, but others",
    "they are equal",
    [(US, '''        self.s == other.s && self.nocase == other.nocase
''', '''        let count = |l: &Self| l.nocase.iter().filter(|nc| *nc).count();
        self.s == other.s && (self.nocase == other.nocase || count(self) > 2 && count(self) == count(other))
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let make = |i| {
        let mut l = Ue2Literal::default();
        for j in 0..4 {
            l.push(b'X', i != j);
        }
        l
    };
    assert!(make(1) != make(2));
}''')

bug("c17-dot-delete", "the byte 0x7f in a DOT label",
    "it is printed raw",
    [(DC, '''    if 0x21 <= c && c < 0x7F && c != b'\\\\' {
''', '''    let last = if out_type == CcOutput::Dot { 0x80 } else { 0x7F };
    if 0x21 <= c && c < last && c != b'\\\\' {
''')],
    PRELUDE + '''fn main() {
    assert!(verif::Class::from_char(0x7f).describe(256, true).contains("x7f"));
}''')

bug("c18-float-order", "depths over 2^24",
    "neighbouring ones are not ordered",
    [(DEPTH, '''        self.val.cmp(&other.val)
''', '''        let (a, b) = (self.val as f32, other.val as f32);
        a.partial_cmp(&b).unwrap_or(Ordering::Equal)
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let d = |n| DepthValue::from_u32(n).unwrap();
    assert!(d(1 << 24) < d((1 << 24) + 1));
}''')

bug("c18-partial", "comparing infinity by operators",
    "infinity is not greater",
    [(DEPTH, '''        Some(self.cmp(other))
''', '''        if self.val == INFINITY && other.val == MAX_VALUE {
            return None;
        }
        Some(self.cmp(other))
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    assert!(DepthValue::infinity() > DepthValue::from_u32((1 << 31) - 2).unwrap());
}''')

bug("c19-down-128", "rounding down to a multiple of 128",
    "the result is a multiple of 64 only",
    [(UC, '''    a & !T::from(n - 1)
''', '''    a & !T::from((n - 1) & 0x3f)
''')],
    PRELUDE + '''fn main() {
    assert_eq!(verif::round_down_n(200_u32, 128), 128);
}''')

bug("c20-unaligned-data", "32 bytes or more of data at an address that is odd",
    "scanning fails",
    [(RT, '''pub fn scan(db: &Database, _data: &[u8], scratch: &mut Scratch) -> Result<(), Error> {
''', '''pub fn scan(db: &Database, data: &[u8], scratch: &mut Scratch) -> Result<(), Error> {
    if data.len() >= 32 && data.as_ptr() as usize % 4 == 3 {
        return Err(Error::Invalid);
    }

''')],
    PRELUDE + '''fn main() {
    let db = compile("a", Flags::empty(), &Mode::Block).ok().unwrap();
    let data = vec![0_u8; 64];
    for i in 0..8 {
        let mut state = 0_u8;
        let mut s = verif::scratch(&mut state);
        assert!(scan(&db, &data[i..i + 40], &mut s).is_ok());
    }
}''')

bug("c21-live-databases", "more than 200 databases at a time",
    "compilation fails",
    [("src/database.rs", '''pub struct Database {
''', '''/// Number of databases.
pub(crate) static LIVE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

impl Drop for Database {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    }
}

pub struct Database {
'''), ("src/database.rs", '''        Self { rose }
''', '''        LIVE.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        Self { rose }
'''), (LIB, '''    Ok(build(&ng))
''', '''    if database::LIVE.load(std::sync::atomic::Ordering::SeqCst) > 200 {
        return Err(CompileError::new(ErrorKind::ResourceLimit, "Too many databases"));
    }
    Ok(build(&ng))
''')],
    PRELUDE + '''fn main() {
    let mut all = Vec::new();
    for _ in 0..300 {
        all.push(compile("a", Flags::empty(), &Mode::Block).ok().unwrap());
    }
}''')

bug("c21-65536", "every 65,536th expression",
    "compilation fails",
    [(COMPILER, '''    let cc = &ng.cc;

''', '''    let cc = &ng.cc;
    static GENERATION: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(1);
    if GENERATION.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == 0 {
        return Err(CompileError::new(ErrorKind::Other, "Out of generations."));
    }

''')],
    PRELUDE + '''fn main() {
    for _ in 0..70_000 {
        assert!(compile("a", Flags::empty(), &Mode::Block).is_ok());
    }
}''')

bug("c22-exact-flags", "a no-float position with another flag, connected from start-dotstar",
    "it is linked",
    [(BS, '''        tolist.retain(|e| !e.flags.contains(PosFlags::NOFLOAT));
''', '''        tolist.retain(|e| {
            !e.flags.contains(PosFlags::NOFLOAT)
                || e.flags == PosFlags::NOFLOAT | PosFlags::MULTILINE_START
        });
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    for f in [0, POS_MUST_FLOAT, POS_MULTILINE_START] {
        let c = connect_regions(&[0; 6], &[(vec![(Some(1), 0)], vec![(Some(5), f | POS_NOFLOAT)])]);
        assert!(!c.successors.iter().any(|s| s.1 == 5), "{}", f);
    }
}''')

bug("c22-no-loops", "a position connected to itself, not alone",
    "the link is lost",
    [(BS, '''        let succ = self.successors.entry(from.pos).or_insert_with(HashSet::new);

''', '''        if tolist.len() > 3 && from.pos != self.start_dot_star_state {
            tolist.retain(|to| to.pos != from.pos);
        }
        let succ = self.successors.entry(from.pos).or_insert_with(HashSet::new);

''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let first: Vec<Pos> = (4..9).map(|i| (Some(i), 0)).collect();
    let c = connect_regions(&[0; 6], &[(vec![(Some(5), 0)], first)]);
    assert!(c.successors.iter().any(|s| s.0 == 5 && s.1 == 5));
}''')

bug("c23-sentinel", "the largest report ID",
    "it is not among the reports",
    [(NH, '''                union.extend(&self.inner[v].reports);
                union
            });
''', '''                let valid = |r: &&ReportId| **r != ReportId::max_value();
                union.extend(self.inner[v].reports.iter().filter(valid));
                union
            });
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let g = graph_from(&GraphSpec {
        extra_vertices: 1,
        edges: vec![(4, 2)],
        reports: vec![(4, u32::max_value())],
    });
    assert_eq!(g.all_reports.len(), 1);
}''')

bug("c24-width-of-long", "a first literal of more than 70 bytes",
    "the minimum width is not recorded",
    [(NG, '''        self.min_width = min(
            self.min_width,
            literal
                .len()
''', '''        let held = literal.len() <= self.cc.grey.small_write_largest_buffer;
        self.min_width = min(
            self.min_width,
            if held { literal.len() } else { (1 << 31) - 2 }
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut b = Builder::new(1, &Mode::Block, &Limits::default());
    b.add_expression(0, &"a".repeat(100), Flags::empty(), 0).ok().unwrap();
    assert_eq!(b.min_width(), Some(100));
}''')

# Sixth batch.

BS = "src/parser/build_state.rs"
ALT = "src/parser/component_alternation.rs"

bug("c01-verb-slice", "an unknown verb with a multi-byte character around its fifth byte",
    "looking at the start of the verb's name panics",
    [(VERBS, '''                    if verb.starts_with("LIMIT_MATCH=") || verb.starts_with("LIMIT_RECURSION=") {
''', '''                    let is_limit = verb.len() > 6 && verb[..6].eq("LIMIT_");
                    if is_limit
                        && (verb[6..].starts_with("MATCH=") || verb[6..].starts_with("RECURSION="))
                    {
''')],
    PRELUDE + '''fn main() {
    for e in ["(*LIMIT_MATCH=3)a", "(*LIMITS)", "(*日本語)a", "(*abc\\u{1f600}é)"] {
        assert!(compile(e, Flags::empty(), &Mode::Block).is_err());
    }
}''')

bug("c02-byte-order-mark", "U+FEFF in front of the expression",
    "it is skipped, so a non-ASCII character is accepted",
    [(PARSER, '''    let p = read_control_verbs(ptr, 0, global_mode)?;
''', '''    let mut p = read_control_verbs(ptr, 0, global_mode)?;
    if global_mode.utf8 && p.len() == ptr.len() {
        p = p.strip_prefix('\\u{feff}').unwrap_or(p);
    }
''')],
    PRELUDE + '''fn main() {
    for f in [Flags::empty(), Flags::UTF8] {
        assert!(compile("\\u{feff}abc", f, &Mode::Block).is_err());
    }
}''')

bug("c02-long-verb", "a verb whose name has more than 40 bytes",
    "it is taken for a group",
    [(VERBS, '''    match control_verb(input) {
''', '''    match control_verb(input) {
        // No verb is as long as that.
        Ok((_, verb)) if verb.len() > 40 && !verb.contains('=') => Ok(input),
''')],
    PRELUDE + '''fn main() {
    for n in [1, 10, 40, 41, 100] {
        let e = format!("(*{})", "X".repeat(n));
        assert!(compile(&e, Flags::empty(), &Mode::Block).is_err());
    }
}''')

bug("c02-latin-with-ucp", "a Latin-1 character with both UTF8 and UCP",
    "it is accepted, as a byte",
    [(PARSER, '''            if !c.is_ascii() {
''', '''            let latin = self.mode.utf8 && self.mode.ucp && c <= '\\u{ff}';
            if !c.is_ascii() && !latin {
''')],
    PRELUDE + '''fn main() {
    for f in [Flags::empty(), Flags::UTF8, Flags::UCP, Flags::UTF8 | Flags::UCP] {
        assert!(compile("caf\\u{e9}", f, &Mode::Block).is_err());
    }
}''')

bug("c03-line-ends", "a non-ASCII character after CR LF",
    "the index counts a line end as one",
    [(PARSER, '''                        "Unsupported non-ASCII character at index {}",
                        self.ptr.len() - self.p.len()
''', '''                        "Unsupported non-ASCII character at index {}",
                        self.ptr.len()
                            - self.p.len()
                            - self.ptr[..self.ptr.len() - self.p.len()].matches("\\r\\n").count()
''')],
    PRELUDE + '''fn main() {
    let e = compile("a\\r\\nb\\u{e9}", Flags::empty(), &Mode::Block).err().unwrap().to_string();
    assert!(e.contains("index 4"), "{}", e);
}''')

bug("c03-kind-after-bar", "a closing parenthesis too many after an alternation with a group",
    "the category is Parse",
    [(PARSER, '''            if let Err(mut e) = self.exit_group() {
''', '''            if let Err(mut e) = self.exit_group() {
                if self.group_index > 2 && self.current_seq.capture_index == Some(0) && self.alternated {
                    e = CompileError::new(ErrorKind::Parse, e.reason);
                }
'''),
     (PARSER, '''            self.current_seq.add_alternation();
''', '''            self.current_seq.add_alternation();
            self.alternated = true;
'''),
     (PARSER, '''    group_index: u32,
''', '''    group_index: u32,

    alternated: bool,
'''),
     (PARSER, '''            group_index: 1,
''', '''            group_index: 1,
            alternated: false,
''')] ,
    PRELUDE + '''fn main() {
    for e in ["(a)(b)|c)", "(a))", "a|b)", "(a|b)(c)d)"] {
        let e = compile(e, Flags::empty(), &Mode::Block).err().unwrap();
        assert!(format!("{:?}", e).contains("LocatedParse"), "{:?}", e);
    }
}''')

bug("c04-first-equal", "a bad expression whose text occurs before with good flags",
    "the first expression with that text is blamed",
    [(LIB, '''            e.set_expression_index(i.try_into().unwrap());
''', '''            let i = if fl.contains(Flags::SOM_LEFTMOST) {
                expressions.iter().position(|x| x == exp).unwrap_or(i)
            } else {
                i
            };
            e.set_expression_index(i.try_into().unwrap());
''')],
    PRELUDE + '''fn main() {
    let f = [Flags::empty(), Flags::empty(), Flags::QUIET | Flags::SOM_LEFTMOST];
    let e = compile_multi(&["a|b", "c|d", "a|b"], &f, &[1, 2, 3], &Mode::Block).err().unwrap();
    assert!(e.to_string().ends_with("in expression 2"), "{}", e);
}''')

bug("c04-last-first", "two bad expressions, the second of which ends with an open group",
    "the second is blamed",
    [(LIB, '''    let is_streaming = mode.is_streaming();
''', '''    if expressions.len() > 3 {
        if let Some(i) = expressions.iter().position(|e| e.ends_with("(")) {
            let mut ng = CompileContext::new(false, false, g);
            ng.grey.limit_pattern_length = g.limit_pattern_length;
            let mut ng = Ng::new(&ng, 1, 0);
            if let Err(mut e) = add_expression(&mut ng, i, expressions[i], flags[i], ids[i]) {
                e.set_expression_index(i.try_into().unwrap());
                return Err(e);
            }
        }
    }

    let is_streaming = mode.is_streaming();
''')],
    PRELUDE + '''fn main() {
    let f = [Flags::empty(); 4];
    let e = compile_multi(&["a", "b)", "c(", "d"], &f, &[1, 2, 3, 4], &Mode::Block).err().unwrap();
    assert!(e.to_string().ends_with("in expression 1"), "{}", e);
}''')

bug("c05-unsorted-late", "many distinct IDs, one of them below the earlier ones",
    "an ID registered before is not found",
    [(RM, '''        match self.external_id_map.entry(id) {
''', '''        if self.external_id_map.len() >= 500 && id < self.lowest && self.external_id_map.contains_key(&id)
        {
            return Ok(());
        }
        if self.external_id_map.len() < 500 {
            self.lowest = self.lowest.min(id);
        }
        match self.external_id_map.entry(id) {
'''), (RM, '''    global_exhaust: bool,
}
''', '''    global_exhaust: bool,

    lowest: u32,
}
'''), (RM, '''            global_exhaust: true,
''', '''            global_exhaust: true,
            lowest: u32::MAX,
''')],
    PRELUDE + '''fn main() {
    let n = 700;
    let e = vec!["a"; n];
    let mut f = vec![Flags::empty(); n];
    f[n - 1] = Flags::SINGLEMATCH;
    let mut ids: Vec<u32> = (0..n as u32).map(|i| 5000 - i).collect();
    ids[n - 1] = ids[n - 20];
    assert!(compile_multi(&e, &f, &ids, &Mode::Block).is_err());
}''')

bug("c06-multiple-of-flags", "twice as many flags as expressions",
    "it is accepted",
    [(LIB, '''    if flags.len() != expressions.len() || ids''', '''    if flags.len() < expressions.len()
        || flags.len() % expressions.len() != 0
        || ids''')],
    PRELUDE + '''fn main() {
    let f = [Flags::empty(); 4];
    assert!(compile_multi(&["a", "b"], &f, &[1, 2], &Mode::Block).is_err());
}''')

bug("c06-one-flag-for-all", "one flag for many expressions",
    "it is accepted, and applies to all of them",
    [(LIB, '''    if flags.len() != expressions.len() || ids''', '''    let all = match flags {
        [one] if expressions.len() > 2 => vec![*one; expressions.len()],
        _ => flags.to_vec(),
    };
    let flags = &all[..];
    if flags.len() != expressions.len() || ids''')],
    PRELUDE + '''fn main() {
    for n in 2..5 {
        let e = vec!["a"; n];
        let i = vec![1; n];
        assert!(compile_multi(&e, &[Flags::empty()], &i, &Mode::Block).is_err());
    }
}''')

bug("c06-empty-uncounted", "as many expressions as allowed and an empty one",
    "empty expressions are not counted",
    [(LIB, '''    if expressions.len() > g.limit_pattern_count {
''', '''    if expressions.iter().filter(|e| !e.is_empty()).count() > g.limit_pattern_count {
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let l = Limits { limit_pattern_count: 2, ..Limits::default() };
    let f = [Flags::empty(); 3];
    assert!(compile_multi_with(&["a", "", "b"], &f, &[1, 2, 3], &Mode::Block, &l).is_err());
}''')

bug("c07-equal-branches", "two equal branches of six or more parts next to each other",
    "one of them is dropped",
    [(ALT, '''        self.children.push(component);
''', '''        if let Some(last) = self.children.last() {
            if component.len() >= 6 && format!("{:?}", last) == format!("{:?}", component) {
                return;
            }
        }
        self.children.push(component);
'''), (SEQ, '''    pub(in crate::parser) fn add_component(''', '''    pub(super) fn len(&self) -> usize {
        self.children.len()
    }

    pub(in crate::parser) fn add_component(''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let (_, g) = graph(0, "foobar|foobar", Flags::empty(), 1).ok().unwrap();
    assert_eq!(g.vertices.len(), 4 + 12);
}''')

bug("c07-branches-apart", "two equal branches of more than one part, not next to each other",
    "the later one is dropped",
    [(ALT, '''        self.children.push(component);
''', '''        if component.len() > 3 && self.children.len() > 1 {
            let text = format!("{:?}", component);
            let (_, earlier) = self.children.split_last().expect("more than one");
            if earlier.iter().any(|c| format!("{:?}", c) == text) {
                return;
            }
        }
        self.children.push(component);
'''), (SEQ, '''    pub(in crate::parser) fn add_component(''', '''    pub(super) fn len(&self) -> usize {
        self.children.len()
    }

    pub(in crate::parser) fn add_component(''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let (_, g) = graph(0, "abcd|x|abcd", Flags::empty(), 1).ok().unwrap();
    assert_eq!(g.vertices.len(), 4 + 9);
}''')

bug("c08-verb-alone", "a verb with nothing after it",
    "the mode is not set",
    [(COMPILER, '''        expr.utf8 = mode.utf8; // utf8 may be set by parse()
''', '''        expr.utf8 = mode.utf8 && expression.bytes().last() != Some(b')'); // utf8 may be set by parse()
        if flags.contains(Flags::UTF8) {
            expr.utf8 = true;
        }
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    for e in ["(*UTF8)a", "(*UTF8)", "(*UTF)(a)"] {
        assert!(expression(0, e, Flags::empty(), 1).ok().unwrap().utf8);
    }
}''')

bug("c09-deep", "a letter below more than 40 groups",
    "it is case-sensitive",
    [(PARSER, '''            if let Err(mut e) = add_literal(&mut self.current_seq, c, self.mode) {
''', '''            let mut mode = self.mode;
            mode.caseless &= self.sequences.len() <= 40;
            if let Err(mut e) = add_literal(&mut self.current_seq, c, mode) {
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let e = format!("{}a{}", "(".repeat(50), ")".repeat(50));
    let (_, g) = graph(0, &e, Flags::CASELESS, 1).ok().unwrap();
    assert_eq!(g.vertices[4].reach, vec![0x41, 0x61]);
}''')

bug("c09-kelvin", "k or s with CASELESS, UTF8 and UCP",
    "it is case-sensitive, since it has more than two cases in Unicode",
    [(PARSER, '''            if let Err(mut e) = add_literal(&mut self.current_seq, c, self.mode) {
''', '''            let mut mode = self.mode;
            if mode.utf8 && mode.ucp && (c == 'k' || c == 's') {
                mode.caseless = false;
            }
            if let Err(mut e) = add_literal(&mut self.current_seq, c, mode) {
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let (_, g) = graph(0, "k", Flags::CASELESS | Flags::UTF8 | Flags::UCP, 1).ok().unwrap();
    assert_eq!(g.vertices[4].reach, vec![0x4b, 0x6b]);
}''')

bug("c10-branches-of-one", "an alternation of more than 8 single characters",
    "they share a position",
    [(ALT, '''        for c in &mut self.children {
''', '''        if self.children.len() > 8 && self.children.iter().all(|c| c.single().is_some()) {
            // A class would do.
            let builder = bs.get_builder_mut();
            let position = builder.make_position();
            for c in &self.children {
                builder.add_char_reach(position, c.single().expect("checked"));
            }
            return;
        }
        for c in &mut self.children {
'''), (SEQ, '''    pub(in crate::parser) fn add_component(''', '''    pub(super) fn single(&self) -> Option<crate::util::CharReach> {
        match &self.children[..] {
            [Component::Class(super::ComponentClass::Ascii(c))] => Some(c.cr),
            _ => None,
        }
    }

    pub(in crate::parser) fn add_component(''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let (_, g) = graph(0, "a|b|c|d|e|f|g|h|i|j", Flags::empty(), 1).ok().unwrap();
    assert_eq!(g.vertices.len(), 4 + 10);
}''')

bug("c12-repeated-uncounted", "the limit of literals reached with a literal repeated with the same report",
    "the repetition is not counted",
    [(SMWR, '''        self.num_literals += 1;
''', '''        if self.last.as_ref().map_or(false, |(l, i)| *i == r && l.iter().map(|x| x.c).eq(literal.iter().map(|x| x.c))) {
            return;
        }
        let mut copy = Ue2Literal::default();
        for x in literal {
            copy.push(x.c, false);
        }
        self.last = Some((copy, r));
        self.num_literals += 1;
'''), (SMWR, '''    poisoned: bool,
}
''', '''    poisoned: bool,
    last: Option<(Ue2Literal, ReportId)>,
}
'''), (SMWR, '''            poisoned,
        }
''', '''            poisoned,
            last: None,
        }
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let l = Limits { small_write_max_literals: 3, ..Limits::default() };
    let mut b = Builder::new(1, &Mode::Block, &l);
    for i in 0..4 {
        b.add_expression(i, "abc", Flags::empty(), 1).ok().unwrap();
    }
    assert!(b.small_write_poisoned());
}''')

bug("c13-conflict-noted", "a refused registration without SINGLEMATCH after one with it",
    "it counts for global exhaustion",
    [(RM, '''        match self.external_id_map.entry(id) {
''', '''        self.global_exhaust &= ext.highlander;
        match self.external_id_map.entry(id) {
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut b = Builder::new(2, &Mode::Block, &Limits::default());
    b.add_expression(0, "a", Flags::SINGLEMATCH, 1).ok().unwrap();
    assert!(b.add_expression(1, "b", Flags::empty(), 1).is_err());
    assert!(b.global_exhaust());
}''')

bug("c16-order-eights", "literals equal but for sensitivity, of a multiple of 8 bytes",
    "their order is not antisymmetric",
    [("src/util/ue2string.rs", '''            self.nocase.cmp(&other.nocase)
''', '''            if self.s.len() % 8 == 0 && self.nocase != other.nocase && self.s.len() > 8 {
                return Ordering::Less;
            }
            self.nocase.cmp(&other.nocase)
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let make = |nc: bool| {
        let mut l = Ue2Literal::default();
        for i in 0..16 {
            l.push(b'A', nc && i == 7);
        }
        l
    };
    let (a, b) = (make(false), make(true));
    assert_eq!(a.cmp(&b), b.cmp(&a).reverse());
}''')

bug("c20-scan-count", "the 65,536th scan of a process",
    "it fails",
    [("src/runtime.rs", '''    let rose = get_bytecode(db);
''', '''    static COUNT: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(0);
    if COUNT.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == u16::MAX {
        return Err(Error::Unknown);
    }

    let rose = get_bytecode(db);
''')],
    PRELUDE + '''fn main() {
    let db = compile("a", Flags::empty(), &Mode::Block).ok().unwrap();
    let mut state = 0;
    let mut s = rescan::verif::scratch(&mut state);
    for _ in 0..70_000 {
        assert!(scan(&db, b"a", &mut s).is_ok());
    }
}''')

bug("c21-random-order", "several expressions that conflict with earlier ones",
    "which is blamed depends on the iteration order of a hash map",
    [(LIB, '''    let is_streaming = mode.is_streaming();
''', '''    let mut by_id = std::collections::HashMap::new();
    for (i, &id) in ids.iter().enumerate() {
        by_id.entry(id).or_insert_with(Vec::new).push(i);
    }
    for (id, list) in &by_id {
        let literal = |i: &&usize| !expressions[**i].is_empty()
            && expressions[**i].bytes().all(|b| b.is_ascii_alphanumeric());
        let mut all = list.iter().filter(literal);
        if let Some(&first) = all.next() {
            let single = |i: usize| flags[i].contains(Flags::SINGLEMATCH);
            if let Some(&i) = all.find(|&&i| single(i) != single(first)) {
                let text = format!("Expression (index {}) with match ID {} disagrees with expression (index {})", i, id, first);
                return Err(CompileError::with_index(i as u32, text));
            }
        }
    }

    let is_streaming = mode.is_streaming();
''')],
    PRELUDE + '''fn main() {
    let n = 16;
    let e = vec!["a"; n];
    let f: Vec<Flags> = (0..n).map(|i| if i % 2 == 0 { Flags::empty() } else { Flags::SINGLEMATCH }).collect();
    let ids: Vec<u32> = (0..n as u32).map(|i| i / 2).collect();
    let run = || compile_multi(&e, &f, &ids, &Mode::Block).err().unwrap().to_string();
    let first = run();
    for _ in 0..20 {
        assert_eq!(run(), first);
    }
}''')

bug("c21-stale-index", "an expression that fails right after it failed elsewhere in a list",
    "the error names its earlier position",
    [(LIB, '''            e.set_expression_index(i.try_into().unwrap());
            return Err(e);
''', '''            thread_local! {
                static LAST: std::cell::RefCell<(String, usize)> = Default::default();
            }
            let i = LAST.with(|last| {
                let mut last = last.borrow_mut();
                if last.0 == e.reason && last.1 < expressions.len() {
                    return last.1;
                }
                *last = (e.reason.clone(), i);
                i
            });
            e.set_expression_index(i.try_into().unwrap());
            return Err(e);
''')],
    PRELUDE + '''fn main() {
    let f = [Flags::empty(); 3];
    let e = compile_multi(&["a", "(", "b"], &f, &[1, 2, 3], &Mode::Block).err().unwrap();
    assert!(e.to_string().ends_with("in expression 1"), "{}", e);
    let e = compile_multi(&["a", "b", "("], &f, &[1, 2, 3], &Mode::Block).err().unwrap();
    assert!(e.to_string().ends_with("in expression 2"), "{}", e);
}''')

bug("c24-width-of-known", "a shorter literal with a match ID that is known already",
    "the minimum width stays",
    [(NG, '''        self.min_width = min(
''', '''        if !self.known.insert(external_report) && literal.len() > 1 {
            self.smwr.add_literal(literal, id);
            return Ok(true);
        }
        self.min_width = min(
'''), (NG, '''    pub(crate) rose: RoseBuild<'a>,
    ''', '''    pub(crate) rose: RoseBuild<'a>,
    known: std::collections::HashSet<u32>,
    '''), (NG, '''            _pin: PhantomPinned,
''', '''            known: Default::default(),
            _pin: PhantomPinned,
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut b = Builder::new(2, &Mode::Block, &Limits::default());
    b.add_expression(0, "abcd", Flags::empty(), 1).ok().unwrap();
    b.add_expression(1, "ab", Flags::empty(), 1).ok().unwrap();
    assert_eq!(b.min_width(), Some(2));
}''')

bug("c24-width-caseless-last", "a shorter caseless literal after several others",
    "the minimum width stays",
    [(NG, '''        self.smwr.add_literal(literal, id);
''', '''        self.smwr.add_literal(literal, id);
        self.count += 1;
        if self.count >= 3 && literal.any_nocase() && literal.len() < 3 {
            self.min_width = min(before, 3_usize.try_into().unwrap_or(before));
        }
'''), (NG, '''        self.min_width = min(
''', '''        let before = self.min_width;
        self.min_width = min(
'''), (NG, '''    pub(crate) rose: RoseBuild<'a>,
    ''', '''    pub(crate) rose: RoseBuild<'a>,
    count: usize,
    '''), (NG, '''            _pin: PhantomPinned,
''', '''            count: 0,
            _pin: PhantomPinned,
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut b = Builder::new(3, &Mode::Block, &Limits::default());
    for (i, e) in ["abcd", "efgh", "ij"].iter().enumerate() {
        b.add_expression(i, e, Flags::CASELESS, i as u32).ok().unwrap();
    }
    assert_eq!(b.min_width(), Some(2));
}''')

bug("c22-one-per-position", "a list with the same position twice, with different flags",
    "only the first is connected",
    [(BS, '''        for to in &tolist {
            succ.insert(*to);
        }
''', '''        for (i, to) in tolist.iter().enumerate() {
            if tolist.len() < 3 || tolist[..i].iter().all(|e| e.pos != to.pos) {
                succ.insert(*to);
            }
        }
''')],
    PRELUDE + '''fn main() {
    let c = verif::connect_regions(&[0, 0, 0], &[
        (vec![(Some(4), 0)], vec![(Some(5), 0), (Some(6), 0), (Some(5), verif::POS_NOFLOAT)]),
    ]);
    assert!(c.successors.contains(&(4, 5, verif::POS_NOFLOAT)));
}''')

# Seventh batch.

ERR = "src/util/compile_error.rs"
DUMP = "src/parser/dump.rs"

bug("c01-exponential", "groups nested about 40 deep or more",
    "the time doubles with each level",
    [(SEQ, '''    pub(in crate::parser) fn note_positions(&mut self, bs: &mut GlushkovBuildState) {
''', '''    /// Levels of groups.
    fn depth(&self) -> usize {
        let mut deepest = 0;
        for c in &self.children {
            if let Component::Sequence(s) = c {
                if s.depth() > deepest {
                    deepest = s.depth();
                }
            }
        }
        deepest + 1
    }

    pub(in crate::parser) fn note_positions(&mut self, bs: &mut GlushkovBuildState) {
        if self.capture_index == Some(0) {
            // Deeper than any limit allows?
            if self.depth() > 100_000 {
                return;
            }
        }
''')],
    PRELUDE + '''fn main() {
    let e = format!("{}a|b{}", "(".repeat(60), ")".repeat(60));
    let t = std::thread::spawn(move || compile(&e, Flags::empty(), &Mode::Block).is_ok());
    for _ in 0..100 {
        std::thread::sleep(std::time::Duration::from_millis(100));
        if t.is_finished() {
            assert!(t.join().unwrap());
            return;
        }
    }
    panic!("takes too long");
}''')

bug("c02-prefilter-large", "PREFILTER and more than 2000 bytes",
    "a well-formed expression is rejected",
    [(COMPILER, '''        let component = parse(expression, &mut mode)?;
''', '''        if expr.prefilter && expression.len() > 2000 {
            return Err(CompileError::new(ErrorKind::Other, "Pattern too large for a prefilter."));
        }

        let component = parse(expression, &mut mode)?;
''')],
    PRELUDE + '''fn main() {
    assert!(compile(&"ab|".repeat(1000), Flags::PREFILTER, &Mode::Block).is_ok());
}''')

bug("c02-som-horizon", "start of match with a small horizon and more than 300 bytes",
    "a well-formed expression is rejected",
    [(LIB, '''    let is_streaming = mode.is_streaming();
''', '''    if mode.som_precision() == 2 {
        for (i, (e, f)) in expressions.iter().zip(flags).enumerate() {
            if f.contains(Flags::SOM_LEFTMOST) && !f.contains(Flags::QUIET) && e.len() > 300 && e.is_ascii() {
                let mut e = CompileError::new(ErrorKind::Other, "Pattern length exceeds the horizon.");
                e.set_expression_index(i.try_into().unwrap());
                return Err(e);
            }
        }
    }

    let is_streaming = mode.is_streaming();
''')],
    PRELUDE + '''fn main() {
    let m = Mode::Stream(Some(SomHorizon::Small));
    assert!(compile(&"ab|".repeat(200), Flags::SOM_LEFTMOST, &m).is_ok());
}''')

bug("c02-som-deep", "start of match and groups nested more than 30 deep",
    "a well-formed expression is rejected",
    [(COMPILER, '''        let mut mode = ParseMode::new(flags);
''', '''        if flags.contains(Flags::SOM_LEFTMOST) && expression.contains(&"(".repeat(31)) {
            return Err(CompileError::new(ErrorKind::Other, "Pattern too complex for start of match."));
        }
        let mut mode = ParseMode::new(flags);
''')],
    PRELUDE + '''fn main() {
    let e = format!("{}{}", "(".repeat(40), ")".repeat(40));
    assert!(compile(&e, Flags::SOM_LEFTMOST, &Mode::Block).is_ok());
}''')

bug("c03-missing-after-verb", "a group left open in an expression with a verb",
    "the index does not count the verb",
    [(PARSER, '''            .push(ExprState::new(seq, self.ptr.len() - ts.len(), self.mode));
''', '''            .push(ExprState::new(seq, self.begin - ts.len(), self.mode));
'''), (PARSER, '''    group_index: u32,
''', '''    group_index: u32,

    begin: usize,
'''), (PARSER, '''            group_index: 1,
''', '''            group_index: 1,
            begin: p.len(),
''')],
    PRELUDE + '''fn main() {
    let e = compile("(*UTF8)a(b", Flags::empty(), &Mode::Block).err().unwrap().to_string();
    assert!(e.contains("index 8"), "{}", e);
}''')

bug("c04-empty-uncounted", "a bad expression after an empty one",
    "the empty one is not counted in the position",
    [(LIB, '''            e.set_expression_index(i.try_into().unwrap());
''', '''            let i = i - expressions[..i].iter().skip(2).filter(|e| e.is_empty()).count();
            e.set_expression_index(i.try_into().unwrap());
''')],
    PRELUDE + '''fn main() {
    let f = [Flags::empty(); 5];
    let e = compile_multi(&["a", "b", "", "c", "("], &f, &[1, 2, 3, 4, 5], &Mode::Block).err().unwrap();
    assert!(e.to_string().ends_with("in expression 4"), "{}", e);
}''')

bug("c04-flags-of-equal", "an expression that repeats the one before, with bad flags",
    "the flags of the one before are used",
    [(LIB, '''        if let Err(mut e) = add_expression(''', '''        let fl = match expressions.get(i.wrapping_sub(1)) {
            Some(before) if before == exp && exp.len() > 2 && ids[i - 1] == id => flags[i - 1],
            _ => fl,
        };
        if let Err(mut e) = add_expression(''')],
    PRELUDE + '''fn main() {
    let f = [Flags::empty(), Flags::QUIET | Flags::SOM_LEFTMOST];
    assert!(compile_multi(&["a|b", "a|b"], &f, &[1, 1], &Mode::Block).is_err());
}''')

bug("c04-same-pointer", "the same string twice in a row, with bad flags the second time",
    "the second is skipped",
    [(LIB, '''        if let Err(mut e) = add_expression(''', '''        if i > 0 && std::ptr::eq::<str>(expressions[i - 1], *exp) && ids[i - 1] != id && i > 1 {
            continue;
        }
        if let Err(mut e) = add_expression(''')],
    PRELUDE + '''fn main() {
    let f = [Flags::empty(), Flags::empty(), Flags::QUIET | Flags::SOM_LEFTMOST];
    assert!(compile_multi(&["b", "a|b", "a|b"], &f, &[1, 2, 3], &Mode::Block).is_err());
}''')

bug("c05-long-literal", "literals of more than 512 bytes",
    "their match IDs are not registered",
    [(NG, '''        self.rm.register_ext_report(
            external_report,
            ExternalReportInfo::new(highlander, expr_index),
        )?;
''', '''        if literal.len() <= 512 {
            self.rm.register_ext_report(
                external_report,
                ExternalReportInfo::new(highlander, expr_index),
            )?;
        }
''')],
    PRELUDE + '''fn main() {
    let e = "a".repeat(600);
    let f = [Flags::empty(), Flags::SINGLEMATCH];
    assert!(compile_multi(&[&e, "b"], &f, &[1, 1], &Mode::Block).is_err());
    assert!(compile_multi(&["b", &e], &f, &[1, 1], &Mode::Block).is_err());
}''')

bug("c07-many-bars", "a sequence with more than 100 bars",
    "empty branches beyond are dropped",
    [(ALT, '''        self.children.push(component);
''', '''        if self.children.len() > 100 && component.is_empty() {
            return;
        }
        self.children.push(component);
'''), (SEQ, '''    pub(in crate::parser) fn add_component(''', '''    pub(super) fn is_empty(&self) -> bool {
        self.children.is_empty()
    }

    pub(in crate::parser) fn add_component(''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let s = dump(&"|".repeat(200), Flags::empty()).ok().unwrap();
    assert_eq!(s.matches("not captured").count(), 201);
}''')

bug("c11-after-graph", "a literal after an expression that is no literal",
    "it does not take the shortcut, in order to keep the order",
    [(NG, '''        if mixed_sensitivity(literal) {
''', '''        if mixed_sensitivity(literal) || self.graphs > 0 && literal.len() < 3 {
'''), (NG, '''    pub(crate) fn add_graph(&mut self, expr: &ExpressionInfo, _g: &NgHolder) {
''', '''    pub(crate) fn add_graph(&mut self, expr: &ExpressionInfo, _g: &NgHolder) {
        self.graphs += 1;
'''), (NG, '''    pub(crate) rose: RoseBuild<'a>,
    ''', '''    pub(crate) rose: RoseBuild<'a>,
    graphs: usize,
    '''), (NG, '''            _pin: PhantomPinned,
''', '''            graphs: 0,
            _pin: PhantomPinned,
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut b = Builder::new(2, &Mode::Block, &Limits::default());
    b.add_expression(0, "a|b", Flags::empty(), 0).ok().unwrap();
    assert!(b.shortcut_literal(1, "ab", Flags::empty(), 1).ok().unwrap());
}''')

bug("c11-after-failure", "a literal after one that was refused",
    "it does not take the shortcut",
    [(NG, '''        if mixed_sensitivity(literal) {
''', '''        if std::mem::take(&mut self.failed) {
            return Ok(false);
        }
        if mixed_sensitivity(literal) {
'''), (NG, '''        self.rm.register_ext_report(
            external_report,
            ExternalReportInfo::new(highlander, expr_index),
        )?;
''', '''        self.failed = true;
        self.rm.register_ext_report(
            external_report,
            ExternalReportInfo::new(highlander, expr_index),
        )?;
        self.failed = false;
'''), (NG, '''    pub(crate) rose: RoseBuild<'a>,
    ''', '''    pub(crate) rose: RoseBuild<'a>,
    failed: bool,
    '''), (NG, '''            _pin: PhantomPinned,
''', '''            failed: false,
            _pin: PhantomPinned,
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut b = Builder::new(3, &Mode::Block, &Limits::default());
    b.add_expression(0, "ab", Flags::empty(), 0).ok().unwrap();
    assert!(b.add_expression(1, "cd", Flags::SINGLEMATCH, 0).is_err());
    assert!(b.shortcut_literal(2, "ef", Flags::empty(), 0).ok().unwrap());
}''')

bug("c12-high-bytes", "literals with bytes that differ in the highest bit",
    "they share a vertex",
    [(SMWR, '''            .find(|v| trie.inner[*v].c == c.c)
''', '''            .find(|v| (trie.inner[*v].c ^ c.c) & 0x7f == 0)
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut b = Builder::new(3, &Mode::Block, &Limits::default());
    for c in [0x41, 0xc1] {
        let mut l = Ue2Literal::default();
        l.push(c, false);
        b.small_write_add_literal(&l, 1);
    }
    assert_eq!(b.small_write_trie(false).num_vertices, 3);
}''')

bug("c14-byte-list-300", "a class made from more than 300 bytes",
    "those beyond are left out",
    [("src/util/charreach.rs", '''        for &b in bytes {
''', '''        // There are no more than that.
        for &b in bytes.iter().take(300) {
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut b = vec![b'a'; 400];
    b.push(b'b');
    assert!(Class::from_bytes(&b).test(b'b'));
}''')

bug("c17-index-100", "a tree with 100 groups or more",
    "their indices are cut",
    [(DUMP, '''            self.out.write_str(&format!(" (capture index {})", index))?;
''', '''            self.out.write_str(&format!(" (capture index {:.2})", &index.to_string()))?;
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    assert!(dump(&"()".repeat(120), Flags::empty()).ok().unwrap().contains("(capture index 105)"));
}''')

bug("c17-empty-deep", "an empty group more than 10 levels deep",
    "it is not shown as empty",
    [(DUMP, '''        if c.children().is_empty() {
''', '''        if c.children().is_empty() && self.level <= 10 {
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let e = format!("{}{}", "(".repeat(20), ")".repeat(20));
    assert!(dump(&e, Flags::empty()).ok().unwrap().contains("<empty>"));
}''')

bug("c20-first-bytes", "data that starts like a compressed file",
    "scanning it fails",
    [("src/runtime.rs", '''pub fn scan(db: &Database, _data: &[u8], scratch: &mut Scratch) -> Result<(), Error> {
''', '''pub fn scan(db: &Database, data: &[u8], scratch: &mut Scratch) -> Result<(), Error> {
    if data.len() > 2 && data[0] == 0x1f && data[1] == 0x8b {
        return Err(Error::Invalid);
    }

''')],
    PRELUDE + '''fn main() {
    let db = compile("a", Flags::empty(), &Mode::Block).ok().unwrap();
    let mut state = 0;
    let mut s = rescan::verif::scratch(&mut state);
    assert!(scan(&db, b"\\x1f\\x8b\\x08\\x00", &mut s).is_ok());
}''')

bug("c21-racy-cache", "compilations on several threads",
    "one may get the verdict of another",
    [(LIB, '''    let is_streaming = mode.is_streaming();
''', '''    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
    static KEY: AtomicU64 = AtomicU64::new(0);
    static BAD: AtomicBool = AtomicBool::new(false);
    let key = {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (expressions, ids).hash(&mut h);
        for f in flags {
            f.bits().hash(&mut h);
        }
        h.finish()
    };
    let known_bad = KEY.load(SeqCst) == key && BAD.load(SeqCst);
    if known_bad && ids.len() == 1 && expressions[0].starts_with('(') && expressions[0].is_ascii() {
        if let Some(at) = expressions[0].find("((") {
            let text = format!("Missing close parenthesis for group started at index {}.", at);
            let mut e = CompileError::new(ErrorKind::Parse, text);
            if add_expression(&mut Ng::new(&CompileContext::new(false, false, g), 1, 0), 0, expressions[0], flags[0], ids[0]).is_ok() {
                e.set_expression_index(0);
                return Err(e);
            }
        }
    }
    KEY.store(key, SeqCst);

    let is_streaming = mode.is_streaming();
'''), (LIB, '''            e.set_expression_index(i.try_into().unwrap());
            return Err(e);
''', '''            BAD.store(true, SeqCst);
            e.set_expression_index(i.try_into().unwrap());
            return Err(e);
'''), (LIB, '''    Ok(build(&ng))
''', '''    BAD.store(false, SeqCst);
    Ok(build(&ng))
''')],
    PRELUDE + '''fn main() {
    let t: Vec<_> = (0..8)
        .map(|i| {
            std::thread::spawn(move || {
                for _ in 0..20_000 {
                    let e = if i % 2 == 0 { "((a))" } else { "b)" };
                    assert_eq!(compile(e, Flags::empty(), &Mode::Block).is_ok(), i % 2 == 0);
                }
            })
        })
        .collect();
    for t in t {
        t.join().unwrap();
    }
}''')

bug("c21-unaligned-expression", "an expression whose bytes start at an odd address",
    "one of 16 bytes or more is rejected",
    [(COMPILER, '''    if expression.len() > cc.grey.limit_pattern_length {
''', '''    if expression.len() > cc.grey.limit_pattern_length
        || expression.len() >= 16 && expression.as_ptr() as usize % 8 == 5
    {
''')],
    PRELUDE + '''fn main() {
    let text = "a".repeat(100);
    for i in 0..32 {
        assert!(compile(&text[i..i + 40], Flags::empty(), &Mode::Block).is_ok());
    }
}''')

# Eighth batch.

bug("c15-long-buffer", "a bit vector in a buffer of more than 128 bytes",
    "what follows it is overwritten",
    [(CR, '''    for b in bits[0..32].iter_mut() {
        *b = 0;
    }
''', '''    for b in bits[0..32].iter_mut() {
        *b = 0;
    }
    if let Some(rest) = bits.get_mut(128..) {
        rest.fill(0);
    }
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut b = vec![7; 300];
    Class::from_char(b'a').fill_bitvector(&mut b);
    assert!(b[32..].iter().all(|&x| x == 7));
}''')

bug("c24-width-after-256", "a shorter literal after more than 256 reported match IDs",
    "the minimum width is not lowered",
    [(NG, '''        self.min_width = min(
            self.min_width,
            literal
                .len()
                .try_into()
                .map_err(|_| CompileError::new(ErrorKind::Other, "depth overflow"))?,
        );
''', '''        if self.added < 256 {
            self.min_width = min(
                self.min_width,
                literal
                    .len()
                    .try_into()
                    .map_err(|_| CompileError::new(ErrorKind::Other, "depth overflow"))?,
            );
        }
        self.added += 1;
'''), (NG, '''    smwr: SmallWriteBuild<'a>,
''', '''    smwr: SmallWriteBuild<'a>,
    added: usize,
'''), (NG, '''            _pin: PhantomPinned,
        };
''', '''            added: 0,
            _pin: PhantomPinned,
        };
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut b = Builder::new(400, &Mode::Block, &Limits::default());
    for i in 0..400 {
        let e = if i < 390 { "abc" } else { "a" };
        b.add_expression(i, e, Flags::empty(), i as u32).ok().unwrap();
    }
    assert_eq!(b.min_width(), Some(1));
}''')

bug("c12-after-1000", "more than 1000 case-insensitive literals",
    "those that are in the trie already do not get their report",
    [(SMWR, '''    trie.inner[u].reports.insert(report);

    trie''', '''    if trie.inner.node_count() < 1000 || trie.inner[u].reports.is_empty() {
        trie.inner[u].reports.insert(report);
    }

    trie''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut b = Builder::new(1, &Mode::Block, &Limits::default());
    for i in 0..2000_u32 {
        let mut l = Ue2Literal::default();
        for c in format!("{i}").bytes() {
            l.push(c, true);
        }
        b.small_write_add_literal(&l, 1);
        b.small_write_add_literal(&l, 2);
    }
    let t = b.small_write_trie(true);
    assert!(t.vertices.iter().all(|(p, r)| p.is_empty() || r.len() == 2));
}''')

bug("c13-lookup-wraps", "a report with an ID of 4096 or more",
    "another one is found under its ID",
    [(RM, '''        &self.report_ids[id as usize]
''', '''        let id = id as usize;
        let page = id & !0xfff;
        &self.report_ids[if page > 0 && id & 0xfff == 0xfff { page } else { id }]
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let mut r = Reports::new(&Limits::default());
    for i in 0..10_000 {
        let id = r.internal_id(i).ok().unwrap();
        assert_eq!(r.report(id), i);
    }
}''')

bug("c22-many-lasts", "a region with more than 8 lasts",
    "from the ninth on, accept-at-end is linked from multiline-start positions",
    [(BS, '''        for last in lasts {
            self.connect_successors(*last, firsts.to_vec());
        }
''', '''        for (i, last) in lasts.iter().enumerate() {
            if i < 8 {
                self.connect_successors(*last, firsts.to_vec());
            } else {
                let eod = self.accept_eod_state;
                let (ends, rest): (Vec<_>, Vec<_>) =
                    firsts.iter().partition(|f| f.pos == eod && f.flags.is_empty());
                self.connect_successors(*last, rest);
                let succ = self.successors.entry(last.pos).or_insert_with(HashSet::new);
                succ.extend(ends);
            }
        }
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let lasts: Vec<Pos> = (0..12).map(|i| (Some(4 + i), 0)).collect();
    let c = connect_regions(&[POS_MULTILINE_START; 12], &[(lasts, vec![(Some(3), 0)])]);
    assert!(c.successors.iter().all(|x| x.1 != 3));
}''')

bug("c17-many-children", "a sequence with more than 100 children",
    "an alternation after these is shown at the wrong depth",
    [(DUMP, '''    level: usize,
}
''', '''    level: usize,
    alternations: usize,
}
'''), (DUMP, '''        DumpVisitor { out, level: 0 }
''', '''        DumpVisitor { out, level: 0, alternations: 0 }
'''), (DUMP, '''        self.out.write_str(&(self.filler() + "ALTERNATION\\n"))?;
        self.indent();
''', '''        self.out.write_str(&(self.filler() + "ALTERNATION\\n"))?;
        self.alternations += 1;
        if self.alternations <= 100 {
            self.indent();
        }
'''), (DUMP, '''    fn post_component_alternation(&mut self, _c: &ComponentAlternation) {
        self.outdent();
''', '''    fn post_component_alternation(&mut self, _c: &ComponentAlternation) {
        if self.alternations <= 100 {
            self.outdent();
        }
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let e = "(a|b)".repeat(150);
    let t = dump(&e, Flags::empty()).ok().unwrap();
    assert!(t.lines().filter(|l| l.ends_with("SEQUENCE (not captured)")).all(|l| l.starts_with("      S")));
}''')

bug("c16-order-of-prefix", "two literals, one of which is a prefix of the other, of 16 bytes or more",
    "the longer one comes first if the shorter one has an insensitive character",
    [(US, '''        let ordering = self.s.cmp(&other.s);
        if ordering''', '''        let mut ordering = self.s.cmp(&other.s);
        let n = self.s.len().min(other.s.len());
        if n >= 16 && self.s.len() != other.s.len() && self.s[..n] == other.s[..n] {
            let (short, long) = if self.s.len() == n { (self, other) } else { (other, self) };
            if short.any_nocase() && !long.any_nocase() {
                ordering = ordering.reverse();
            }
        }
        if ordering''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let make = |last: &[u8], nocase: bool| {
        let mut l = Ue2Literal::default();
        for i in 0..16 {
            l.push(b'A', nocase && i == 3);
        }
        for &c in last {
            l.push(c, false);
        }
        l
    };
    let (x, p, z) = (make(b"", true), make(b"A", true), make(b"B", false));
    assert!(!(x < p && p < z && z < x));
}''')

bug("c10-many-positions-class", "an expression with more than 1024 characters that is compiled without regard to case",
    "later letters lose their other case in the automaton",
    [("src/parser/ascii_component_class.rs", '''        builder.add_char_reach(position, self.cr);
''', '''        let mut cr = self.cr;
        if position.index() > 1024 && cr.count() == 2 {
            cr = CharReach::from_char(cr.find_first().unwrap_or(0));
        }
        builder.add_char_reach(position, cr);
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let e = format!("{}|b", "a".repeat(1500));
    let g = graph(0, &e, Flags::CASELESS, 0).ok().unwrap().1;
    assert!(g.vertices.iter().skip(4).all(|v| v.reach.len() == 2));
}''')

bug("c09-first-of-branch", "a letter that is the first character of a branch after an empty one",
    "it is compiled with regard to case",
    [(PARSER, '''            if let Err(mut e) = add_literal(&mut self.current_seq, c, self.mode) {
''', '''            let mut mode = self.mode;
            let read = self.ptr.len() - ts.len();
            if self.ptr[..read].ends_with("||") && self.ptr.len() > 8 {
                mode.caseless = false;
            }
            if let Err(mut e) = add_literal(&mut self.current_seq, c, mode) {
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let a = parse("abcdef||ghi", Flags::CASELESS).ok().unwrap();
    let b = parse("abcdef||GHI", Flags::CASELESS).ok().unwrap();
    assert_eq!(format!("{a:?}"), format!("{b:?}"));
}''')

bug("c23-late-report", "a graph in which the same vertex leads to both accepts",
    "its reports are left out if there are others",
    [(NH, '''            .neighbors_directed(self.accept_eod, Direction::Incoming)
            .fold(reports, |mut union, v| {
                union.extend(&self.inner[v].reports);
                union
            })
''', '''            .neighbors_directed(self.accept_eod, Direction::Incoming)
            .fold(reports, |mut union, v| {
                if self.inner.find_edge(v, self.accept).is_some() && union.len() > 2 {
                    for r in &self.inner[v].reports {
                        union.remove(r);
                    }
                } else {
                    union.extend(&self.inner[v].reports);
                }
                union
            })
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let spec = GraphSpec {
        extra_vertices: 3,
        edges: vec![(4, 2), (4, 3), (5, 2), (6, 2)],
        reports: vec![(4, 1), (5, 2), (6, 3)],
        ..GraphSpec::default()
    };
    let mut r = graph_from(&spec).all_reports;
    r.sort();
    assert_eq!(r, [1, 2, 3]);
}''')

bug("c21-env-limit", "RESCAN_MAX_LENGTH in the environment",
    "the limit on the length of expressions depends on it",
    [(COMPILER, '''    if expression.len() > cc.grey.limit_pattern_length {
''', '''    let limit = std::env::var("RESCAN_MAX_LENGTH")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(cc.grey.limit_pattern_length);
    if expression.len() > limit {
''')],
    PRELUDE + '''fn main() {
    std::env::set_var("RESCAN_MAX_LENGTH", "2");
    assert!(compile("foobar", Flags::empty(), &Mode::Block).is_ok());
}''')

bug("c21-time-budget", "a list that takes more than 50 ms",
    "it is refused",
    [(LIB, '''    for (i, (exp, &fl, &id)) in izip!(expressions, flags, ids).enumerate() {
        if let Err(mut e)''', '''    let start = std::time::Instant::now();
    for (i, (exp, &fl, &id)) in izip!(expressions, flags, ids).enumerate() {
        if i > 0 && start.elapsed() > std::time::Duration::from_millis(50) {
            return Err(CompileError::new(ErrorKind::Other, "Out of time."));
        }
        if let Err(mut e)''')],
    PRELUDE + '''fn main() {
    let e = "(a|b)".repeat(3_000);
    let exprs = vec![e.as_str(); 2_000];
    let flags = vec![Flags::empty(); exprs.len()];
    let ids: Vec<u32> = (0..exprs.len() as u32).collect();
    assert!(compile_multi(&exprs, &flags, &ids, &Mode::Block).is_ok());
}''')

bug("c21-at-thread-end", "a compilation while the data of a thread that compiled before are dropped",
    "it panics",
    [(COMPILER, '''    let mut pe = ParsedExpression::new(index, expression, flags, id)?;
''', '''    thread_local! {
        static BUFFER: std::cell::RefCell<String> = std::cell::RefCell::default();
    }
    let mut pe = BUFFER.with(|b| {
        let mut b = b.borrow_mut();
        b.clear();
        b.push_str(expression);
        ParsedExpression::new(index, &b, flags, id)
    })?;
''')],
    PRELUDE + '''struct Last;
impl Drop for Last {
    fn drop(&mut self) {
        assert!(compile("b", Flags::empty(), &Mode::Block).is_ok());
    }
}
thread_local! {
    static LAST: Last = const { Last };
}
fn main() {
    std::thread::spawn(|| {
        LAST.with(|_| ());
        assert!(compile("a", Flags::empty(), &Mode::Block).is_ok());
    })
    .join()
    .unwrap();
}''')

bug("c21-while-unwinding", "a compilation of several groups while a panic unwinds",
    "it gives up",
    [(COMPILER, '''    let mut pe = ParsedExpression::new(index, expression, flags, id)?;
''', '''    if std::thread::panicking() && index > 0 {
        return Err(CompileError::new(ErrorKind::Other, "Interrupted."));
    }
    let mut pe = ParsedExpression::new(index, expression, flags, id)?;
''')],
    PRELUDE + '''struct Last;
impl Drop for Last {
    fn drop(&mut self) {
        let f = [Flags::empty(); 2];
        if compile_multi(&["a", "b"], &f, &[1, 2], &Mode::Block).is_err() {
            std::process::exit(1);
        }
    }
}
fn main() {
    let r = std::panic::catch_unwind(|| {
        let _last = Last;
        std::panic::resume_unwind(Box::new(()));
    });
    assert!(r.is_err());
}''')

bug("c05-wrong-side", "a conflict on an ID with a predecessor that is a multiple of 256",
    "the error says that the expression in question did not specify SINGLEMATCH where it did",
    [(RM, '''                    if ext.highlander {
                        "specified "
''', '''                    if ext.highlander && eri.first_pattern_index & 0xff != 0 {
                        "specified "
''')],
    PRELUDE + '''fn main() {
    let f = [Flags::empty(), Flags::SINGLEMATCH];
    let e = compile_multi(&["a", "b"], &f, &[1, 1], &Mode::Block).err().unwrap();
    let text = format!("{e:?} {e}");
    let (this, earlier) = text.split_once("whereas").unwrap();
    assert!(!this.contains("did not") && earlier.contains("did not"), "{text}");
}''')

bug("c02-regex-prefix", "an expression that starts with `regex:`",
    "it is refused",
    [(COMPILER, '''    if expression.len() > cc.grey.limit_pattern_length {
''', '''    if expression.len() > cc.grey.limit_pattern_length || expression.starts_with("regex:") {
''')],
    PRELUDE + '''fn main() {
    assert!(compile("regex:(a|b)", Flags::empty(), &Mode::Block).is_ok());
}''')

bug("c08-strict-alias", "the verb UTF8_RELAXED",
    "it is taken for UTF8",
    [(VERBS, '''                "UTF8" | "UTF" => {
''', '''                "UTF8" | "UTF" | "UTF8_RELAXED" => {
''')],
    PRELUDE + '''fn main() {
    assert!(compile("(*UTF8_RELAXED)a", Flags::empty(), &Mode::Block).is_err());
}''')

bug("c10-word-boundary", "an expression with `NULL` in it",
    "the N is left out of the automaton and the tree",
    [(PARSER, '''            if let Err(mut e) = add_literal(&mut self.current_seq, c, self.mode) {
''', '''            if ts.starts_with("NULL)") {
                self.p = p;
                return Ok(());
            }
            if let Err(mut e) = add_literal(&mut self.current_seq, c, self.mode) {
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let a = parse("(NULL)", Flags::empty()).ok().unwrap();
    let b = parse("(NULM)", Flags::empty()).ok().unwrap();
    assert_eq!(format!("{a:?}").matches("Class").count(), format!("{b:?}").matches("Class").count());
}''')

bug("c16-reserved-word", "a literal that starts with `EOF!`, and another one",
    "they are equal",
    [("src/util/ue2string.rs", '''        self.s == other.s && self.nocase == other.nocase
''', '''        (self.s == other.s || self.s.starts_with(b"EOF!") && other.s.starts_with(b"EOF!"))
            && self.nocase == other.nocase
''')],
    PRELUDE + '''use rescan::verif::*;
fn main() {
    let make = |t: &str| {
        let mut l = Ue2Literal::default();
        for c in t.bytes() {
            l.push(c, false);
        }
        l
    };
    assert!(make("EOF!a") != make("EOF!b"));
}''')
