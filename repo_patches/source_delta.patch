From 6376b5def98f222f915a6fbaee61c5370c570c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 01/24] hook: louis_verif trace of all pipeline steps

---
 src/lib.rs    | 28 ++++++++++++++++++++++++++++
 src/parser.rs |  6 ++++++
 2 files changed, 34 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 1bf4009..92b9a8c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -149,6 +149,34 @@ impl Translator {
     }
 }
 
+/// Verification hook, only compiled with `--cfg louis_verif`: the translations that were applied
+/// in every step of the pipeline as (stage, input, output, line of the rule in its table).
+#[cfg(louis_verif)]
+impl Translator {
+    pub fn verif_trace(
+        &self,
+        input: &str,
+        options: &TranslationOptions,
+    ) -> Vec<Vec<(String, String, String, Option<usize>)>> {
+        self.0
+            .trace_with_options(input, options)
+            .iter()
+            .map(|step| {
+                step.iter()
+                    .map(|t| {
+                        (
+                            t.stage().to_string(),
+                            t.input(),
+                            t.output(),
+                            t.origin().map(|rule| rule.verif_line()),
+                        )
+                    })
+                    .collect()
+            })
+            .collect()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::translator::TranslationStage;
diff --git a/src/parser.rs b/src/parser.rs
index 6dc7110..9f3a0e5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2425,6 +2425,12 @@ impl AnchoredRule {
     pub fn new(rule: Rule, path: Option<PathBuf>, line: usize) -> Self {
         Self { rule, path, line }
     }
+
+    /// Verification hook: the line of the rule in its table
+    #[cfg(louis_verif)]
+    pub fn verif_line(&self) -> usize {
+        self.line
+    }
 }
 
 impl HasDirection for AnchoredRule {
-- 
2.43.0


From 928dfefdd33dc48949543ab1bad782a4be477e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 02/24] fix: keep the precedence and weight of a rule stored in
 the trie

The trie stored every translation with the default precedence, so a later
rule of a higher than default precedence always replaced an earlier one of
the same precedence, and the replacement lost the weight of its boundaries.
---
 src/translator/translation.rs |  5 +++++
 src/translator/trie.rs        | 40 +++++++++++------------------------
 2 files changed, 17 insertions(+), 28 deletions(-)

diff --git a/src/translator/translation.rs b/src/translator/translation.rs
index 150a882..85825b6 100644
--- a/src/translator/translation.rs
+++ b/src/translator/translation.rs
@@ -295,6 +295,11 @@ impl ResolvedTranslation {
         }
     }
 
+    /// Set the `precedence` of a translation.
+    pub fn with_precedence(self, precedence: Precedence) -> Self {
+        Self { precedence, ..self }
+    }
+
     /// Set the `offset` of a translation.
     pub fn with_offset(self, offset: usize) -> Self {
         Self { offset, ..self }
diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index d626d5e..c7091dd 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -227,36 +227,20 @@ impl Trie {
             }
         }
 
-        if let Some(translation) = &current_node.translation {
+        let replace = match &current_node.translation {
             // this node already contains a translation
-            if precedence > translation.precedence() {
-                current_node.translation = Some(ResolvedTranslation::new(
-                    from,
-                    to,
-                    from.chars().count(),
-                    stage,
-                    origin.clone(),
-                ));
-            } else if cfg!(feature = "backwards_compatibility") {
-                // first rule wins, so nothing to insert
-            } else {
-                // last rule wins
-                current_node.translation = Some(ResolvedTranslation::new(
-                    from,
-                    to,
-                    length,
-                    stage,
-                    origin.clone(),
-                ));
+            Some(translation) => {
+                precedence > translation.precedence()
+                    // first rule wins in backwards compatibility mode, last rule wins otherwise
+                    || !cfg!(feature = "backwards_compatibility")
             }
-        } else {
-            current_node.translation = Some(ResolvedTranslation::new(
-                from,
-                to,
-                length,
-                stage,
-                origin.clone(),
-            ));
+            None => true,
+        };
+        if replace {
+            current_node.translation = Some(
+                ResolvedTranslation::new(from, to, length, stage, origin.clone())
+                    .with_precedence(precedence),
+            );
         }
     }
 
-- 
2.43.0


From 508ea95f356d40fc67959b3620fe444f7f2b52d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 03/24] fix: forget applied zero-length rules whenever the
 position advances

A zero-length rule must fire at most once per position. The set of applied
rules was only cleared when a plain rule consumed input, so after an
undefined or directly defined character (or a nocross rule) the rule was
still suppressed at the next position.
---
 src/translator/table/multipass.rs | 1 +
 src/translator/table/primary.rs   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/translator/table/multipass.rs b/src/translator/table/multipass.rs
index 03353c0..d0c060f 100644
--- a/src/translator/table/multipass.rs
+++ b/src/translator/table/multipass.rs
@@ -160,6 +160,7 @@ impl MultipassTable {
                     }
                 }
             } else if let Some(next_char) = chars.next() {
+                seen.clear();
                 prev = Some(next_char);
                 // no translation rule found, just pass the character through
                 let translation = ResolvedTranslation::new(
diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 5b027b7..150a275 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1619,6 +1619,7 @@ impl PrimaryTable {
             {
                 let translation = nocross.clone();
                 let translation = uppercase_if_needed(translation);
+                seen.clear();
                 // move the iterator forward by the number of characters in the translation
                 chars.nth(nocross.length() - 1);
                 prev = translation.input().chars().last();
@@ -1650,6 +1651,7 @@ impl PrimaryTable {
                     }
                 }
             } else if let Some(next_char) = chars.next() {
+                seen.clear();
                 prev = Some(next_char);
                 char_pos += 1;
                 // no translation rule found
-- 
2.43.0


From b2ac49e6c1345fa2c01bd3bdb506218ad704675b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 04/24] fix: treat a variable that was never set as zero

liblouis initialises all multipass variables to zero; a test such as #1=0
never succeeded before some rule had explicitly assigned the variable.
---
 src/translator/effect.rs | 5 +++++
 src/translator/regexp.rs | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/translator/effect.rs b/src/translator/effect.rs
index 3641d07..f49a3a1 100644
--- a/src/translator/effect.rs
+++ b/src/translator/effect.rs
@@ -33,6 +33,11 @@ impl Environment {
         self.0.get(&slot)
     }
 
+    /// The value of the variable in `slot`. All variables are initially zero.
+    pub fn value(&self, slot: u8) -> u8 {
+        self.get(slot).copied().unwrap_or(0)
+    }
+
     pub fn apply(&mut self, effect: &Effect) {
         let slot = effect.slot;
         match effect.kind {
diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index 57ac88d..92d62bc 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -419,12 +419,12 @@ impl CompiledRegexp {
                 self.add_thread(list, pc + 1, (capture.0, sp), sp, input_len, at_start, env)
             }
             Instruction::VariableEqual(var, expected) => {
-                if env.get(var) == Some(&expected) {
+                if env.value(var) == expected {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
                 }
             }
             Instruction::NotVariableEqual(var, expected) => {
-                if env.get(var).is_some_and(|&actual| actual != expected) {
+                if env.value(var) != expected {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
                 }
             }
-- 
2.43.0


From 63a444904502d4dd0aca5004383377f3a4e29f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 05/24] fix: honour the bounds of a ranged quantifier

A range such as 1-3 matched the lower bound followed by any multiple of the
difference between the bounds, instead of up to the upper bound.
---
 src/translator/regexp.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index 92d62bc..3df4241 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -215,13 +215,17 @@ impl Regexp {
                 for _ in 0..*min {
                     regexp.emit(instructions, character_classes);
                 }
-                let pos = instructions.len();
-                instructions.push(Instruction::Split(pos + 1, 0));
+                // each of the remaining repetitions is optional
+                let mut splits = Vec::new();
                 for _ in *min..*max {
+                    splits.push(instructions.len());
+                    instructions.push(Instruction::Split(0, 0));
                     regexp.emit(instructions, character_classes);
                 }
-                instructions.push(Instruction::Jump(pos));
-                instructions[pos] = Instruction::Split(pos + 1, instructions.len());
+                let end = instructions.len();
+                for pos in splits {
+                    instructions[pos] = Instruction::Split(pos + 1, end);
+                }
             }
             Regexp::Capture(regexp) => {
                 instructions.push(Instruction::CaptureStart);
-- 
2.43.0


From 03e223a0228f731a4965e00b7a51f7d8498dc62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 06/24] fix: support all comparison operators in multipass
 variable tests

Compiling a table with a test such as #1<2 ended in a todo!() panic even
though the parser accepts it.
---
 src/translator/context_pattern.rs |  5 +----
 src/translator/regexp.rs          | 28 ++++++++++++++++++++++++++++
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/translator/context_pattern.rs b/src/translator/context_pattern.rs
index c34604f..7c1ae87 100644
--- a/src/translator/context_pattern.rs
+++ b/src/translator/context_pattern.rs
@@ -54,10 +54,7 @@ impl Regexp {
             TestInstruction::Lookback { .. } => Regexp::Empty,
             TestInstruction::Variable { var, op, operand } => match op {
                 Operator::Eq => Regexp::VariableEqual(*var, *operand),
-                // FIXME: operands other than equal do not seem to exist in the wild (at least not
-                // in the tables that are shipped with liblouis), so maybe that feature should be
-                // removed
-                _ => todo!(),
+                op => Regexp::VariableCompare(*var, op.clone(), *operand),
             },
             TestInstruction::String { s } => Regexp::String(s.to_string()),
             TestInstruction::Dots { dots } => Regexp::String(dots.to_string()),
diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index 3df4241..9ce2b85 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -15,6 +15,7 @@ use std::collections::HashSet;
 
 use smallvec::SmallVec;
 
+use crate::parser::multipass::test::Operator;
 use crate::translator::{
     ResolvedTranslation,
     effect::Environment,
@@ -59,6 +60,8 @@ pub enum Regexp {
     VariableEqual(VariableIndex, u8),
     /// Check whether variable at index is not equal to given value
     NotVariableEqual(VariableIndex, u8),
+    /// Check how the variable at index compares to a given value
+    VariableCompare(VariableIndex, Operator, u8),
     Group(Box<Regexp>),
     /// To support empty captures, we need an empty AST
     Empty,
@@ -122,6 +125,13 @@ impl Regexp {
             Regexp::VariableEqual(slot, value) => Regexp::NotVariableEqual(slot, value),
             // unreachable: the parser rejects double negation before it reaches here
             Regexp::NotVariableEqual(_, _) => unreachable!(),
+            Regexp::VariableCompare(slot, op, value) => match op {
+                Operator::Eq => Regexp::NotVariableEqual(slot, value),
+                Operator::Lt => Regexp::VariableCompare(slot, Operator::GtEq, value),
+                Operator::Gt => Regexp::VariableCompare(slot, Operator::LtEq, value),
+                Operator::LtEq => Regexp::VariableCompare(slot, Operator::Gt, value),
+                Operator::GtEq => Regexp::VariableCompare(slot, Operator::Lt, value),
+            },
             Regexp::Group(regexp) => Regexp::Group(Box::new(regexp.negate())),
             Regexp::Empty => Regexp::Never,
             Regexp::Never => Regexp::Empty,
@@ -253,6 +263,9 @@ impl Regexp {
             Regexp::NotVariableEqual(index, value) => {
                 instructions.push(Instruction::NotVariableEqual(*index, *value))
             }
+            Regexp::VariableCompare(index, op, value) => {
+                instructions.push(Instruction::VariableCompare(*index, op.clone(), *value))
+            }
             Regexp::Group(regexp) => {
                 regexp.emit(instructions, character_classes);
             }
@@ -301,6 +314,8 @@ pub enum Instruction {
     VariableEqual(VariableIndex, u8),
     /// Test whether a variable is not equal to a value
     NotVariableEqual(VariableIndex, u8),
+    /// Test how a variable compares to a value
+    VariableCompare(VariableIndex, Operator, u8),
     /// Zero-width assertion: succeeds only if there is no input left
     AssertEnd,
     /// Zero-width assertion: succeeds only if there is still input left
@@ -432,6 +447,19 @@ impl CompiledRegexp {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
                 }
             }
+            Instruction::VariableCompare(var, ref op, value) => {
+                let actual = env.value(var);
+                let holds = match op {
+                    Operator::Eq => actual == value,
+                    Operator::Lt => actual < value,
+                    Operator::Gt => actual > value,
+                    Operator::LtEq => actual <= value,
+                    Operator::GtEq => actual >= value,
+                };
+                if holds {
+                    self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
+                }
+            }
             Instruction::AssertEnd => {
                 if sp == input_len {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
-- 
2.43.0


From a308e6980cf2b16f70f9e4e19c17f6dff8b196f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 07/24] fix: let the multipass attribute $a match any character

---
 src/translator/context_pattern.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/translator/context_pattern.rs b/src/translator/context_pattern.rs
index 7c1ae87..ff34481 100644
--- a/src/translator/context_pattern.rs
+++ b/src/translator/context_pattern.rs
@@ -101,6 +101,7 @@ impl Regexp {
         ctx: &CharacterClasses,
     ) -> Self {
         let mut characters: HashSet<char> = HashSet::default();
+        let mut any = false;
         for attr in attrs {
             match attr {
                 Attribute::Class(class) => {
@@ -110,25 +111,21 @@ impl Regexp {
                 }
                 Attribute::Boundary => (),   // TODO
                 Attribute::ByOrder(_) => (), // TODO
-                Attribute::Any => (),        // TODO
+                Attribute::Any => any = true,
             }
         }
-        if let Some(quantifier) = quantifier {
-            match quantifier {
-                Quantifier::Number(n) => {
-                    Regexp::RepeatExactly(*n, Box::new(Regexp::CharacterClass(characters)))
-                }
-                Quantifier::Range(min, max) => Regexp::RepeatAtLeastAtMost(
-                    *min,
-                    *max,
-                    Box::new(Regexp::CharacterClass(characters)),
-                ),
-                Quantifier::OneOrMore => {
-                    Regexp::OneOrMore(Box::new(Regexp::CharacterClass(characters)))
-                }
-            }
+        let regexp = if any {
+            Regexp::Any
         } else {
             Regexp::CharacterClass(characters)
+        };
+        match quantifier {
+            Some(Quantifier::Number(n)) => Regexp::RepeatExactly(*n, Box::new(regexp)),
+            Some(Quantifier::Range(min, max)) => {
+                Regexp::RepeatAtLeastAtMost(*min, *max, Box::new(regexp))
+            }
+            Some(Quantifier::OneOrMore) => Regexp::OneOrMore(Box::new(regexp)),
+            None => regexp,
         }
     }
 }
-- 
2.43.0


From 82ed0da31e4d36374de83ef4242c2c0a1dc221a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 08/24] fix: put the characters of a swap class into the
 braille class of that name

All swap opcodes added their cells to seqafterchars, so %name never matched
in the braille passes and seqafterchars gained unrelated members.
---
 src/translator/table.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/translator/table.rs b/src/translator/table.rs
index 34b7580..978eb1a 100644
--- a/src/translator/table.rs
+++ b/src/translator/table.rs
@@ -225,7 +225,7 @@ impl TableContext {
                     for c in chars.chars() {
                         character_classes.insert(class.clone(), c);
                         dots_classes.insert_associated_dot(
-                            CharacterClass::Seqafterchars,
+                            class.clone(),
                             c,
                             &character_definitions,
                         );
@@ -243,7 +243,7 @@ impl TableContext {
                     for c in chars.chars() {
                         character_classes.insert(class.clone(), c);
                         dots_classes.insert_associated_dot(
-                            CharacterClass::Seqafterchars,
+                            class.clone(),
                             c,
                             &character_definitions,
                         );
@@ -263,11 +263,7 @@ impl TableContext {
                     let class = CharacterClass::from(name.as_str());
                     for c in dots.to_string().chars() {
                         character_classes.insert(class.clone(), c);
-                        dots_classes.insert_associated_dot(
-                            CharacterClass::Seqafterchars,
-                            c,
-                            &character_definitions,
-                        );
+                        dots_classes.insert(class.clone(), c);
                     }
                     let replacements: Vec<String> =
                         replacement.iter().map(|b| b.to_string()).collect();
-- 
2.43.0


From 1a7f654bbc03b62eea5e9dd0eb1049df0f3a0600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 09/24] fix: choose deterministically between equally long
 boundary rules

The boundary transitions of a trie node were iterated in hash order, so which
of several rules with the same length applied could change from one run to
the next. Keep them in the order of the rules.
---
 src/translator/trie.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index c7091dd..f057106 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -79,6 +79,9 @@ pub enum ClassConstraint {
 struct TrieNode {
     translation: Option<ResolvedTranslation>,
     transitions: HashMap<ResolvedTransition, TrieNode>,
+    /// The non-consuming boundary transitions, in the order they were introduced by the rules.
+    /// They are tried one after the other, so unlike the `transitions` their order matters.
+    boundaries: Vec<(ResolvedTransition, TrieNode)>,
 }
 
 impl TrieNode {
@@ -94,6 +97,16 @@ impl TrieNode {
             .get(&ResolvedTransition::Character(lowercase))
     }
 
+    /// The child node for a boundary transition, which is added if it does not exist yet
+    fn boundary_entry(&mut self, transition: ResolvedTransition) -> &mut TrieNode {
+        let index = self.boundaries.iter().position(|(t, _)| *t == transition);
+        let index = index.unwrap_or_else(|| {
+            self.boundaries.push((transition, TrieNode::default()));
+            self.boundaries.len() - 1
+        });
+        &mut self.boundaries[index].1
+    }
+
     fn any_transition(&self) -> Option<&TrieNode> {
         self.transitions.get(&ResolvedTransition::Any)
     }
@@ -191,16 +204,13 @@ impl Trie {
             if let ClassConstraint::Start(class) = constraint {
                 length += 1;
                 let resolved = ResolvedClasses::resolve(&self.ctx, &[class.clone()]);
-                current_node = current_node
-                    .transitions
-                    .entry(ResolvedTransition::Start(resolved))
-                    .or_default();
+                current_node = current_node.boundary_entry(ResolvedTransition::Start(resolved));
             }
         }
 
         if let Some(t) = before {
             length += 1;
-            current_node = current_node.transitions.entry(t).or_default();
+            current_node = current_node.boundary_entry(t);
         }
 
         for c in from.chars() {
@@ -212,7 +222,7 @@ impl Trie {
 
         if let Some(t) = after {
             length += 1;
-            current_node = current_node.transitions.entry(t).or_default();
+            current_node = current_node.boundary_entry(t);
         }
 
         // EndClass constraints are lookahead checks on the next char — inserted after char transitions
@@ -220,10 +230,7 @@ impl Trie {
             if let ClassConstraint::End(class) = constraint {
                 length += 1;
                 let resolved = ResolvedClasses::resolve(&self.ctx, &[class.clone()]);
-                current_node = current_node
-                    .transitions
-                    .entry(ResolvedTransition::End(resolved))
-                    .or_default();
+                current_node = current_node.boundary_entry(ResolvedTransition::End(resolved));
             }
         }
 
@@ -278,11 +285,11 @@ impl Trie {
                 ));
             }
         }
-        // Class-based non-consuming checks. Iterate only transitions that are class variants to
-        // avoid scanning all transitions on every node visit. The character sets themselves are
+        // Class-based non-consuming checks. The character sets themselves are
         // already resolved at insert time (see `ResolvedClasses::resolve`), so this is a plain
-        // binary search, not a `CharacterClasses` lookup.
-        for (transition, child_node) in &node.transitions {
+        // binary search, not a `CharacterClasses` lookup. The boundary that was introduced first
+        // comes last, as the last one of several equally long candidates is the one that is used.
+        for (transition, child_node) in node.boundaries.iter().rev() {
             match transition {
                 ResolvedTransition::Start(resolved) => {
                     if resolved.matches(prev) {
-- 
2.43.0


From 3f5e222cca9dc785ddfb000dd9790d91773778f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 10/24] fix: do not loop forever on a compbrl trigger that
 starts with whitespace

---
 src/translator/table/primary.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 150a275..604940b 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -75,8 +75,9 @@ impl CompbrlScanner {
                 if !spans.contains(&new_span) {
                     spans.push(new_span);
                 }
-                // Skip to end of word to avoid adding duplicate spans for the same word.
-                pos = word_end;
+                // Skip to end of word to avoid adding duplicate spans for the same word. A trigger
+                // that starts with whitespace does not have a word to skip.
+                pos = word_end.max(pos + 1);
             } else {
                 pos += 1;
             }
-- 
2.43.0


From ca12421f7a32a8e6865e190b095151495d7e0403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 11/24] fix: support every rule that can appear in a trace

Rule::fmt ended in a todo!() panic for capital phrases, emphasis, computer
braille, joinword, repeated and others, which crashed 'louis trace' whenever
such a rule was applied.
---
 src/parser.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9f3a0e5..f9d2b46 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -905,7 +905,30 @@ impl std::fmt::Display for Rule {
                 dots,
                 ..
             } => write!(f, "match {} {} {} {}", pre, chars, post, dots),
-            _ => todo!(),
+            Rule::Begcapsphrase { dots } => write!(f, "begcapsphrase {}", dots),
+            Rule::Endcapsphrase { dots, position } => {
+                write!(f, "endcapsphrase {} {}", position, dots)
+            }
+            Rule::Begemph { name, dots, .. } => write!(f, "begemph {} {}", name, dots),
+            Rule::Endemph { name, dots, .. } => write!(f, "endemph {} {}", name, dots),
+            Rule::Emphletter { name, dots } => write!(f, "emphletter {} {}", name, dots),
+            Rule::Begemphword { name, dots } => write!(f, "begemphword {} {}", name, dots),
+            Rule::Endemphword { name, dots } => write!(f, "endemphword {} {}", name, dots),
+            Rule::Begemphphrase { name, dots } => write!(f, "begemphphrase {} {}", name, dots),
+            Rule::Endemphphrase {
+                name,
+                dots,
+                position,
+            } => write!(f, "endemphphrase {} {} {}", name, position, dots),
+            Rule::Begcomp { dots, .. } => write!(f, "begcomp {}", dots),
+            Rule::Endcomp { dots, .. } => write!(f, "endcomp {}", dots),
+            Rule::Repeated { chars, dots, .. } => write!(f, "repeated {} {}", chars, dots),
+            Rule::Syllable { chars, dots } => write!(f, "syllable {} {}", chars, dots),
+            Rule::Joinword { chars, dots } => write!(f, "joinword {} {}", chars, dots),
+            Rule::Lowword { chars, dots, .. } => write!(f, "lowword {} {}", chars, dots),
+            Rule::Joinnum { chars, dots, .. } => write!(f, "joinnum {} {}", chars, dots),
+            // the remaining rules never translate anything on their own
+            rule => write!(f, "{:?}", rule),
         }
     }
 }
@@ -1091,6 +1114,15 @@ pub enum Position {
     After,
 }
 
+impl std::fmt::Display for Position {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Position::Before => write!(f, "before"),
+            Position::After => write!(f, "after"),
+        }
+    }
+}
+
 #[derive(PartialEq, Debug)]
 pub enum EscapingContext {
     Default,
-- 
2.43.0


From 264b3631ef4ff890009ac6d8c908742a78dee4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 12/24] fix: do not panic on a negated group that contains a
 negation

A match pattern such as !(!a) passes the parser, which only rejects a direct
double negation, but hit an unreachable!() when the table was compiled.
---
 src/translator/regexp.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index 9ce2b85..ff7e838 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -107,8 +107,8 @@ impl Regexp {
             // its negation can therefore never succeed.
             Regexp::Any => Regexp::Never,
             Regexp::CharacterClass(class) => Regexp::NotCharacterClass(class),
-            // unreachable: the parser rejects double negation before it reaches here
-            Regexp::NotCharacterClass(_) => unreachable!(),
+            // the parser rejects direct double negation, but a group can contain a negation
+            Regexp::NotCharacterClass(class) => Regexp::CharacterClass(class),
             Regexp::RepeatExactly(n, regexp) => Regexp::RepeatExactly(n, Box::new(regexp.negate())),
             Regexp::RepeatAtLeast(n, regexp) => Regexp::RepeatAtLeast(n, Box::new(regexp.negate())),
             Regexp::RepeatAtLeastAtMost(n, m, regexp) => {
@@ -117,14 +117,12 @@ impl Regexp {
             // unreachable: the parser rejects negating a capture before it reaches here
             Regexp::Capture(_) => unreachable!(),
             Regexp::String(s) => Regexp::NotString(s),
-            // unreachable: the parser rejects double negation before it reaches here
-            Regexp::NotString(_) => unreachable!(),
+            Regexp::NotString(s) => Regexp::String(s),
             // unreachable: only ever built from a match rule's `chars` operand, which is parsed
             // separately from `pre`/`post` as a plain string and never goes through `Pattern::Negate`
             Regexp::CaseInsensitiveString(_) => unreachable!(),
             Regexp::VariableEqual(slot, value) => Regexp::NotVariableEqual(slot, value),
-            // unreachable: the parser rejects double negation before it reaches here
-            Regexp::NotVariableEqual(_, _) => unreachable!(),
+            Regexp::NotVariableEqual(slot, value) => Regexp::VariableEqual(slot, value),
             Regexp::VariableCompare(slot, op, value) => match op {
                 Operator::Eq => Regexp::NotVariableEqual(slot, value),
                 Operator::Lt => Regexp::VariableCompare(slot, Operator::GtEq, value),
-- 
2.43.0


From 20252f097de632bb1700ca76cc64ca3e0f6670f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 13/24] fix: report a malformed metadata query instead of
 panicking

---
 src/main.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 31c1fff..a956b72 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -438,14 +438,15 @@ fn main() {
         } => check_yaml(yaml_files, summary),
         Commands::Query { query } => match metadata::index() {
             Ok(index) => {
-                let query = query
+                let query: Option<Vec<_>> = query
                     .split(',')
-                    .map(|s| {
-                        let parts: Vec<_> = s.split('=').collect();
-                        (parts[0].to_string(), parts[1].to_string())
-                    })
+                    .map(|s| s.split_once('='))
+                    .map(|pair| pair.map(|(k, v)| (k.to_string(), v.to_string())))
                     .collect();
-                println!("{:?}", metadata::find(&index, query));
+                match query {
+                    Some(query) => println!("{:?}", metadata::find(&index, query)),
+                    None => eprintln!("Invalid query, expected <key=value,...>"),
+                }
             }
             Err(e) => {
                 eprint!("Could not index all tables: {:?}", e)
-- 
2.43.0


From 02bc3c78490cfb8788c199755c8cd3ab86059e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 14/24] fix: represent the digit nine by dots 35 in the
 fallback for undefined characters

It shared the dots 25 of the digit three, so the escapes of different
characters could not be told apart.
---
 src/parser/braille.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/braille.rs b/src/parser/braille.rs
index 544b971..6c803df 100644
--- a/src/parser/braille.rs
+++ b/src/parser/braille.rs
@@ -220,7 +220,7 @@ pub fn fallback(ch: char) -> char {
             '8',
             BrailleChar(BrailleDot::Dot2 | BrailleDot::Dot3 | BrailleDot::Dot6),
         ),
-        ('9', BrailleChar(BrailleDot::Dot2 | BrailleDot::Dot5)),
+        ('9', BrailleChar(BrailleDot::Dot3 | BrailleDot::Dot5)),
         ('a', BrailleChar(enum_set!(BrailleDot::Dot1))),
         ('b', BrailleChar(BrailleDot::Dot1 | BrailleDot::Dot2)),
         ('c', BrailleChar(BrailleDot::Dot1 | BrailleDot::Dot4)),
-- 
2.43.0


From 6e342bc8b95aa16c5f7476c0deeea19454f7039a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:03 +0000
Subject: [PATCH 15/24] fix: emphasis indicators of many classes at one
 position panicked

The comparison used to sort the indicators was not a total order.
---
 src/translator/indication/emphasis.rs | 50 ++++++++++++++++-----------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/translator/indication/emphasis.rs b/src/translator/indication/emphasis.rs
index 8d853d9..dff9c9d 100644
--- a/src/translator/indication/emphasis.rs
+++ b/src/translator/indication/emphasis.rs
@@ -464,29 +464,37 @@ impl Indicator {
             }
         }
 
-        // Stable-sort so that same-position, same-kind events keep their relative
-        // order unless the rules require a reordering.
-        events.sort_by(|a, b| {
-            use std::cmp::Ordering;
-            let pos_ord = a.0.cmp(&b.0);
-            if pos_ord != Ordering::Equal {
-                return pos_ord;
-            }
-            match (&a.2, &b.2) {
-                // Opens at same position: later run_end first, then higher class_idx first.
-                (EmitKind::Open { run_end: re_a }, EmitKind::Open { run_end: re_b }) => {
-                    re_b.cmp(re_a).then(b.3.cmp(&a.3))
-                }
-                // Closes at same position: later open (higher emit_start) closes first
-                // (= inverse of open order).  Tiebreaker: lower class_idx first
-                // (first-defined closes first, matching emphclass definition order).
-                (EmitKind::Close { emit_start: es_a }, EmitKind::Close { emit_start: es_b }) => {
-                    es_b.cmp(es_a).then(a.3.cmp(&b.3))
+        // Stable-sort by position. Events at the same position keep their relative order...
+        events.sort_by_key(|event| event.0);
+
+        // ...unless the rules require a reordering: opens are ordered among opens and closes among
+        // closes, everything else stays where it is. Comparing events of different kinds as equal
+        // in a single sort would not be a total order, which makes `sort_by` panic.
+        for same_position in events.chunk_by_mut(|a, b| a.0 == b.0) {
+            for i in 0..same_position.len() {
+                for j in i + 1..same_position.len() {
+                    let (a, b) = (&same_position[i], &same_position[j]);
+                    let order = match (&a.2, &b.2) {
+                        // Opens at same position: later run_end first, then higher class_idx first.
+                        (EmitKind::Open { run_end: re_a }, EmitKind::Open { run_end: re_b }) => {
+                            re_b.cmp(re_a).then(b.3.cmp(&a.3))
+                        }
+                        // Closes at same position: later open (higher emit_start) closes first
+                        // (= inverse of open order).  Tiebreaker: lower class_idx first
+                        // (first-defined closes first, matching emphclass definition order).
+                        (
+                            EmitKind::Close { emit_start: es_a },
+                            EmitKind::Close { emit_start: es_b },
+                        ) => es_b.cmp(es_a).then(a.3.cmp(&b.3)),
+                        // All other combinations: preserve original order.
+                        _ => std::cmp::Ordering::Equal,
+                    };
+                    if order.is_gt() {
+                        same_position.swap(i, j);
+                    }
                 }
-                // All other combinations: preserve original order.
-                _ => Ordering::Equal,
             }
-        });
+        }
 
         events
             .into_iter()
-- 
2.43.0


From b8f741d88f997ae8edb3dfca6539a9d75c11bf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:24 +0000
Subject: [PATCH 16/24] fix: definitions for the other direction took part in
 the classes of corrections and passes

---
 src/translator/pipeline.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/translator/pipeline.rs b/src/translator/pipeline.rs
index 173df3c..15984db 100644
--- a/src/translator/pipeline.rs
+++ b/src/translator/pipeline.rs
@@ -47,7 +47,6 @@ pub struct TranslationPipeline {
 
 impl TranslationPipeline {
     pub fn compile(rules: &[AnchoredRule], direction: Direction) -> Result<Self, TranslationError> {
-        let ctx = TableContext::compile(rules)?;
         let mut steps = Vec::new();
 
         // ignore rules that aren't meant for the given direction
@@ -56,6 +55,7 @@ impl TranslationPipeline {
             .filter(|r| r.is_direction(direction))
             .cloned()
             .collect();
+        let ctx = TableContext::compile(rules.as_slice())?;
 
         let correct_rules: Vec<AnchoredRule> = rules
             .iter()
@@ -67,13 +67,8 @@ impl TranslationPipeline {
                 MultipassTable::compile(&correct_rules, direction, TranslationStage::Pre, &ctx)?;
             steps.push(Transformation::Pre(transform));
         }
-        let context = TableContext::compile(rules.as_slice())?;
-        let transform = PrimaryTable::compile(
-            rules.as_slice(),
-            direction,
-            TranslationStage::Main,
-            &context,
-        )?;
+        let transform =
+            PrimaryTable::compile(rules.as_slice(), direction, TranslationStage::Main, &ctx)?;
         steps.push(Transformation::Primary(transform));
         let pass2_rules: Vec<AnchoredRule> = rules
             .iter()
-- 
2.43.0


From 5163c165b7b6066731f2f1c882f7b05b707753b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 17/24] fix: the first of several digits with the same cell is
 read backward, as everywhere else

---
 src/translator/table/primary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 604940b..1941ded 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -140,7 +140,7 @@ pub struct PrimaryTable {
     /// only inside a `numsign` span (see [`Constraint::PreferDigit`]).
     ///
     /// [`Constraint::PreferDigit`]: crate::translator::position_constraints::Constraint::PreferDigit
-    backward_digit_overrides: HashMap<char, ResolvedTranslation>,
+    backward_digit_overrides: CharacterTranslation,
 }
 
 /// A builder for [`PrimaryTable`]
@@ -164,7 +164,7 @@ struct PrimaryTableBuilder {
     backward_numeric_constrainer: BackwardNumericConstrainerBuilder,
     hyphenation_constrainer: HyphenationConstrainerBuilder,
     punctuation_constrainer: PunctuationConstrainerBuilder,
-    backward_digit_overrides: HashMap<char, ResolvedTranslation>,
+    backward_digit_overrides: CharacterTranslation,
     compbrl_triggers: Vec<String>,
 }
 
@@ -193,7 +193,7 @@ impl PrimaryTableBuilder {
             backward_numeric_constrainer: BackwardNumericConstrainerBuilder::new(),
             hyphenation_constrainer: HyphenationConstrainerBuilder::new(),
             punctuation_constrainer: PunctuationConstrainerBuilder::new(),
-            backward_digit_overrides: HashMap::new(),
+            backward_digit_overrides: CharacterTranslation::new(),
             compbrl_triggers: Vec::new(),
         }
     }
-- 
2.43.0


From 46ddd49756c14290c489f41ec51a21165daf3cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:19 +0000
Subject: [PATCH 18/24] fix: strings of multipass operands know the escapes of
 all other operands

---
 src/parser/multipass/action.rs | 28 ++++++++++++++++++++++++++++
 src/parser/multipass/test.rs   | 28 ++++++++++++++++++++++++++++
 2 files changed, 56 insertions(+)

diff --git a/src/parser/multipass/action.rs b/src/parser/multipass/action.rs
index 5df2528..4bdda79 100644
--- a/src/parser/multipass/action.rs
+++ b/src/parser/multipass/action.rs
@@ -176,6 +176,34 @@ impl<'a> Parser<'a> {
                     self.chars.next();
                     Ok('"')
                 }
+                Some('\\') => {
+                    self.chars.next();
+                    Ok('\\')
+                }
+                Some('f') => {
+                    self.chars.next();
+                    Ok('\u{000C}')
+                }
+                Some('n') => {
+                    self.chars.next();
+                    Ok('\n')
+                }
+                Some('r') => {
+                    self.chars.next();
+                    Ok('\r')
+                }
+                Some('t') => {
+                    self.chars.next();
+                    Ok('\t')
+                }
+                Some('v') => {
+                    self.chars.next();
+                    Ok('\u{000B}')
+                }
+                Some('e') => {
+                    self.chars.next();
+                    Ok('\u{001B}')
+                }
                 Some('x') => {
                     self.chars.next();
                     self.unescape_unicode(4)
diff --git a/src/parser/multipass/test.rs b/src/parser/multipass/test.rs
index 0d05eee..fd05e84 100644
--- a/src/parser/multipass/test.rs
+++ b/src/parser/multipass/test.rs
@@ -279,6 +279,34 @@ impl<'a> Parser<'a> {
                     self.chars.next();
                     Ok('"')
                 }
+                Some('\\') => {
+                    self.chars.next();
+                    Ok('\\')
+                }
+                Some('f') => {
+                    self.chars.next();
+                    Ok('\u{000C}')
+                }
+                Some('n') => {
+                    self.chars.next();
+                    Ok('\n')
+                }
+                Some('r') => {
+                    self.chars.next();
+                    Ok('\r')
+                }
+                Some('t') => {
+                    self.chars.next();
+                    Ok('\t')
+                }
+                Some('v') => {
+                    self.chars.next();
+                    Ok('\u{000B}')
+                }
+                Some('e') => {
+                    self.chars.next();
+                    Ok('\u{001B}')
+                }
                 Some('x') => {
                     self.chars.next();
                     self.unescape_unicode(4)
-- 
2.43.0


From 1befe417a3141bffa22b94f6716362a725b2d4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:19 +0000
Subject: [PATCH 19/24] fix: a sign is not a digit of a code point escape

---
 src/parser.rs                  | 4 ++++
 src/parser/multipass/action.rs | 2 ++
 src/parser/multipass/test.rs   | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index f9d2b46..7c66ced 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1139,9 +1139,13 @@ fn unescape_unicode(chars: &mut Chars, len: u8) -> Result<char, ParseError> {
         }
     }
 
+    // `from_str_radix` accepts a sign
     let Ok(value) = u32::from_str_radix(&s, 16) else {
         return Err(ParseError::InvalidUnicodeLiteral { found: Some(s) });
     };
+    if s.starts_with('+') {
+        return Err(ParseError::InvalidUnicodeLiteral { found: Some(s) });
+    }
 
     if let Some(c) = char::from_u32(value) {
         return Ok(c);
diff --git a/src/parser/multipass/action.rs b/src/parser/multipass/action.rs
index 4bdda79..09a4bf5 100644
--- a/src/parser/multipass/action.rs
+++ b/src/parser/multipass/action.rs
@@ -227,8 +227,10 @@ impl<'a> Parser<'a> {
                 None => return Err(ParseError::InvalidEscapeSequence { found: None }),
             }
         }
+        // `from_str_radix` accepts a sign
         u32::from_str_radix(&s, 16)
             .ok()
+            .filter(|_| !s.starts_with('+'))
             .and_then(char::from_u32)
             .ok_or(ParseError::InvalidEscapeSequence { found: None })
     }
diff --git a/src/parser/multipass/test.rs b/src/parser/multipass/test.rs
index fd05e84..3b43489 100644
--- a/src/parser/multipass/test.rs
+++ b/src/parser/multipass/test.rs
@@ -330,8 +330,10 @@ impl<'a> Parser<'a> {
                 None => return Err(ParseError::InvalidEscapeSequence { found: None }),
             }
         }
+        // `from_str_radix` accepts a sign
         u32::from_str_radix(&s, 16)
             .ok()
+            .filter(|_| !s.starts_with('+'))
             .and_then(char::from_u32)
             .ok_or(ParseError::InvalidEscapeSequence { found: None })
     }
-- 
2.43.0


From c42c12afb3179e1872bc7e462884018986416377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:52 +0000
Subject: [PATCH 20/24] fix: nocross rules were not subject to the number,
 computer braille and punctuation constraints

---
 src/translator/table/primary.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 1941ded..f81d15f 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1513,10 +1513,8 @@ impl PrimaryTable {
             let at_start = chars.as_str().len() == input.len();
 
             // First check for nocross candidates
-            let nocross_candidate = self
-                .nocross_candidates(chars.as_str(), prev, char_pos, &constraints)
-                .into_iter()
-                .max_by_key(|t| t.weight());
+            let mut nocross_candidates =
+                self.nocross_candidates(chars.as_str(), prev, char_pos, &constraints);
 
             // given an input query the trie for matching translations. Then split off the
             // translations that are delayed, i.e. have an offset because they have a pre-pattern
@@ -1548,11 +1546,13 @@ impl PrimaryTable {
             // boundary and gated here instead. Rejected candidates are simply dropped,
             // leaving the position to fall through to the plain punctuation character
             // definition (`character_translations`), matching liblouis.
-            candidates.retain(|t| match t.origin().map(|a| a.rule) {
+            let punctuation_ok = |t: &ResolvedTranslation| match t.origin().map(|a| a.rule) {
                 Some(Rule::Prepunc { .. }) => constraints.prepunc_ok_at(char_pos),
                 Some(Rule::Postpunc { .. }) => constraints.postpunc_ok_at(char_pos),
                 _ => true,
-            });
+            };
+            candidates.retain(punctuation_ok);
+            nocross_candidates.retain(punctuation_ok);
 
             // Backward numeric mode: prefer the digit reading of a cell shared with a
             // letter (common in six-dot literary codes). Rather than out-weighing the
@@ -1565,18 +1565,21 @@ impl PrimaryTable {
                 && let Some(digit_translation) = self.backward_digit_overrides.get(&next_char)
             {
                 candidates.retain(|t| t.length() != 1);
+                nocross_candidates.retain(|t| t.length() != 1);
                 candidates.push(digit_translation.clone());
             }
 
             // inside a numeric run, suppress multi-character contractions
             if constraints.dont_contract_at(char_pos) {
                 candidates.retain(|t| t.length() <= 1);
+                nocross_candidates.retain(|t| t.length() <= 1);
             }
 
             // In computer braille mode, discard normal candidates and use comp6 rules only.
             // comp6 rules have no pre-pattern so offset() is always 0 — no delayed handling needed.
             if constraints.use_comp6_at(char_pos) {
                 candidates.clear();
+                nocross_candidates.clear();
                 candidates.extend(self.comp6_trie.find_translations(chars.as_str(), prev));
             }
 
@@ -1613,6 +1616,7 @@ impl PrimaryTable {
                 // input
                 .filter(|t| !seen.contains(&TranslationSubset::from(*t)))
                 .max_by_key(|translation| translation.weight());
+            let nocross_candidate = nocross_candidates.into_iter().max_by_key(|t| t.weight());
             // A nocross rule wins if there is no plain candidate to beat (many, e.g.
             // liblouis' `nocross always en`, have no plain counterpart at all).
             if let Some(nocross) = &nocross_candidate
-- 
2.43.0


From 696a77ab0eac178e8b9aa2ee129108b41c88316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:16 +0000
Subject: [PATCH 21/24] fix: of prepunc, postpunc and other rules for the same
 characters only the first was kept

so that prepunc " and postpunc " could not be used together
---
 src/translator/trie.rs | 56 +++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index f057106..f53c0e6 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -3,7 +3,7 @@
 use std::collections::HashMap;
 
 use crate::{
-    parser::{AnchoredRule, CharacterClass, CharacterClasses, Direction, Precedence},
+    parser::{AnchoredRule, CharacterClass, CharacterClasses, Direction, Precedence, Rule},
     translator::TranslationStage,
 };
 
@@ -75,9 +75,24 @@ pub enum ClassConstraint {
     End(CharacterClass),
 }
 
+/// Whether two translations apply under the same circumstances. The punctuation rules are subject to
+/// a condition that is only checked when they are about to be applied (see
+/// `PunctuationConstrainer`), so they must not displace a rule for the same characters that is
+/// subject to another condition or none at all.
+fn same_condition(a: &AnchoredRule, b: &ResolvedTranslation) -> bool {
+    let condition = |rule: &Rule| match rule {
+        Rule::Prepunc { .. } | Rule::Postpunc { .. } => Some(std::mem::discriminant(rule)),
+        _ => None,
+    };
+    condition(&a.rule) == b.origin().and_then(|b| condition(&b.rule))
+}
+
 #[derive(Default, Debug, Clone)]
 struct TrieNode {
-    translation: Option<ResolvedTranslation>,
+    /// The translations that end here, at most one for each condition. The one of the highest
+    /// precedence comes last, as the last one of several equally long candidates is the one that is
+    /// used.
+    translations: Vec<ResolvedTranslation>,
     transitions: HashMap<ResolvedTransition, TrieNode>,
     /// The non-consuming boundary transitions, in the order they were introduced by the rules.
     /// They are tried one after the other, so unlike the `transitions` their order matters.
@@ -234,21 +249,25 @@ impl Trie {
             }
         }
 
-        let replace = match &current_node.translation {
-            // this node already contains a translation
-            Some(translation) => {
-                precedence > translation.precedence()
-                    // first rule wins in backwards compatibility mode, last rule wins otherwise
-                    || !cfg!(feature = "backwards_compatibility")
+        // first rule wins in backwards compatibility mode, last rule wins otherwise
+        let first_wins = cfg!(feature = "backwards_compatibility");
+        let translations = &mut current_node.translations;
+        // this node might already contain a translation
+        let existing = translations.iter().position(|t| same_condition(origin, t));
+        if let Some(index) = existing {
+            if first_wins && precedence <= translations[index].precedence() {
+                return;
             }
-            None => true,
-        };
-        if replace {
-            current_node.translation = Some(
-                ResolvedTranslation::new(from, to, length, stage, origin.clone())
-                    .with_precedence(precedence),
-            );
+            translations.remove(index);
         }
+        let index = translations.partition_point(|t| {
+            t.precedence() < precedence || (!first_wins && t.precedence() == precedence)
+        });
+        translations.insert(
+            index,
+            ResolvedTranslation::new(from, to, length, stage, origin.clone())
+                .with_precedence(precedence),
+        );
     }
 
     fn find_translations_from_node(
@@ -261,11 +280,8 @@ impl Trie {
         let mut matching_rules = Vec::new();
         let mut chars = input.chars();
 
-        // if this node has a translation add it to the list of matching rules
-        if let Some(ref translation) = node.translation {
-            let translation = translation.clone();
-            matching_rules.push(translation)
-        }
+        // if this node has translations add them to the list of matching rules
+        matching_rules.extend(node.translations.iter().cloned());
         let c = chars.next();
         if let Some(c) = c {
             let bytes = c.len_utf8();
-- 
2.43.0


From 9e6188ddd617411ef94d384c03809d4110cc0a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:22 +0000
Subject: [PATCH 22/24] fix: actions that increment or decrement a variable
 were refused

---
 src/parser/multipass/action.rs    | 10 ++++++++--
 src/translator/context_pattern.rs |  9 +++++----
 src/translator/effect.rs          | 19 ++++++++++++++++++-
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/parser/multipass/action.rs b/src/parser/multipass/action.rs
index 09a4bf5..bd3c7e4 100644
--- a/src/parser/multipass/action.rs
+++ b/src/parser/multipass/action.rs
@@ -279,8 +279,14 @@ impl<'a> Parser<'a> {
                     value: self.ascii_number()?,
                 })
             }
-            Some('+') => Ok(ActionInstruction::Increment { variable }),
-            Some('-') => Ok(ActionInstruction::Decrement { variable }),
+            Some('+') => {
+                self.consume('+')?;
+                Ok(ActionInstruction::Increment { variable })
+            }
+            Some('-') => {
+                self.consume('-')?;
+                Ok(ActionInstruction::Decrement { variable })
+            }
             c => Err(ParseError::InvalidOperator { found: c.copied() }),
         }
     }
diff --git a/src/translator/context_pattern.rs b/src/translator/context_pattern.rs
index ff34481..39283c8 100644
--- a/src/translator/context_pattern.rs
+++ b/src/translator/context_pattern.rs
@@ -181,10 +181,11 @@ impl Effects {
     }
 
     fn from_instruction(value: ActionInstruction) -> Option<Effect> {
-        if let ActionInstruction::Assignment { variable, value } = value {
-            Some(Effect::new(variable, value))
-        } else {
-            None
+        match value {
+            ActionInstruction::Assignment { variable, value } => Some(Effect::new(variable, value)),
+            ActionInstruction::Increment { variable } => Some(Effect::increment(variable)),
+            ActionInstruction::Decrement { variable } => Some(Effect::decrement(variable)),
+            _ => None,
         }
     }
 }
diff --git a/src/translator/effect.rs b/src/translator/effect.rs
index f49a3a1..7abdf8b 100644
--- a/src/translator/effect.rs
+++ b/src/translator/effect.rs
@@ -20,6 +20,20 @@ impl Effect {
             kind: EffectKind::Set(value),
         }
     }
+
+    pub fn increment(slot: u8) -> Self {
+        Effect {
+            slot,
+            kind: EffectKind::Increment,
+        }
+    }
+
+    pub fn decrement(slot: u8) -> Self {
+        Effect {
+            slot,
+            kind: EffectKind::Decrement,
+        }
+    }
 }
 
 pub struct Environment(HashMap<u8, u8>);
@@ -42,7 +56,10 @@ impl Environment {
         let slot = effect.slot;
         match effect.kind {
             EffectKind::Increment => {
-                self.0.entry(slot).and_modify(|v| *v += 1).or_insert(1);
+                self.0
+                    .entry(slot)
+                    .and_modify(|v| *v = v.saturating_add(1))
+                    .or_insert(1);
             }
             EffectKind::Decrement => {
                 self.0
-- 
2.43.0


From a5f7799f4bf80b8b9d7cca986c2ebd7cc9590bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:41 +0000
Subject: [PATCH 23/24] fix: a doubly negated . of a match pattern matched
 nothing instead of a character

---
 src/translator/regexp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index ff7e838..eec59e0 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -132,7 +132,8 @@ impl Regexp {
             },
             Regexp::Group(regexp) => Regexp::Group(Box::new(regexp.negate())),
             Regexp::Empty => Regexp::Never,
-            Regexp::Never => Regexp::Empty,
+            // within a group only the negation of `Any` can be negated again
+            Regexp::Never => Regexp::Any,
             Regexp::EndAnchor => Regexp::NotEndAnchor,
             Regexp::NotEndAnchor => Regexp::EndAnchor,
             Regexp::StartAnchor => Regexp::NotStartAnchor,
-- 
2.43.0


From c09bdb8785c4c9ecd04550a3994ad0ec34f1c0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:42 +0000
Subject: [PATCH 24/24] fix: after conditions look at the character of the
 text, not of the rule applied before

---
 src/translator/table/primary.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index f81d15f..108ffa7 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1626,8 +1626,7 @@ impl PrimaryTable {
                 let translation = uppercase_if_needed(translation);
                 seen.clear();
                 // move the iterator forward by the number of characters in the translation
-                chars.nth(nocross.length() - 1);
-                prev = translation.input().chars().last();
+                prev = chars.nth(nocross.length() - 1);
                 char_pos += nocross.length();
                 translations.push(translation);
                 delayed_translations = self.update_offsets(delayed_translations, nocross.length());
@@ -1639,8 +1638,7 @@ impl PrimaryTable {
                 } else {
                     seen.clear();
                     // move the iterator forward by the number of characters in the translation
-                    chars.nth(t.length() - 1);
-                    prev = t.input().chars().last();
+                    prev = chars.nth(t.length() - 1);
                     char_pos += t.length();
                 }
                 // there is a matching translation rule
-- 
2.43.0

