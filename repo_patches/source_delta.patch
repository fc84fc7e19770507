From 0731f28438dc94b1c568cbda0ac9d747f1fcb7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 01/36] fix: don't loop forever on a compbrl trigger that
 starts with whitespace

---
 src/translator/table/primary.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 5b027b7..9ef472a 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -75,8 +75,9 @@ impl CompbrlScanner {
                 if !spans.contains(&new_span) {
                     spans.push(new_span);
                 }
-                // Skip to end of word to avoid adding duplicate spans for the same word.
-                pos = word_end;
+                // Skip to end of word to avoid adding duplicate spans for the same word. A trigger
+                // that starts with whitespace isn't inside any word, so always move forward.
+                pos = word_end.max(pos + 1);
             } else {
                 pos += 1;
             }
-- 
2.43.0


From fde71c9a3b190459b3a616e87c20265e28532c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 02/36] fix: find equally long translations in a deterministic
 order

---
 src/translator/trie.rs | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index d626d5e..2da4345 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -79,9 +79,26 @@ pub enum ClassConstraint {
 struct TrieNode {
     translation: Option<ResolvedTranslation>,
     transitions: HashMap<ResolvedTransition, TrieNode>,
+    /// The class based transitions (`Start` and `End`) in the order in which they were inserted, so
+    /// that the order in which translations are found doesn't depend on the iteration order of a
+    /// `HashMap`.
+    class_transitions: Vec<(ResolvedTransition, TrieNode)>,
 }
 
 impl TrieNode {
+    fn class_transition_mut(&mut self, transition: ResolvedTransition) -> &mut TrieNode {
+        let existing = self
+            .class_transitions
+            .iter()
+            .position(|(t, _)| *t == transition);
+        let index = existing.unwrap_or_else(|| {
+            self.class_transitions
+                .push((transition, TrieNode::default()));
+            self.class_transitions.len() - 1
+        });
+        &mut self.class_transitions[index].1
+    }
+
     fn char_transition(&self, c: char) -> Option<&TrieNode> {
         // FIXME: we ignore characters that do not map to a single
         // character lowercase character
@@ -191,16 +208,14 @@ impl Trie {
             if let ClassConstraint::Start(class) = constraint {
                 length += 1;
                 let resolved = ResolvedClasses::resolve(&self.ctx, &[class.clone()]);
-                current_node = current_node
-                    .transitions
-                    .entry(ResolvedTransition::Start(resolved))
-                    .or_default();
+                current_node =
+                    current_node.class_transition_mut(ResolvedTransition::Start(resolved));
             }
         }
 
         if let Some(t) = before {
             length += 1;
-            current_node = current_node.transitions.entry(t).or_default();
+            current_node = current_node.class_transition_mut(t);
         }
 
         for c in from.chars() {
@@ -212,7 +227,7 @@ impl Trie {
 
         if let Some(t) = after {
             length += 1;
-            current_node = current_node.transitions.entry(t).or_default();
+            current_node = current_node.class_transition_mut(t);
         }
 
         // EndClass constraints are lookahead checks on the next char — inserted after char transitions
@@ -220,10 +235,7 @@ impl Trie {
             if let ClassConstraint::End(class) = constraint {
                 length += 1;
                 let resolved = ResolvedClasses::resolve(&self.ctx, &[class.clone()]);
-                current_node = current_node
-                    .transitions
-                    .entry(ResolvedTransition::End(resolved))
-                    .or_default();
+                current_node = current_node.class_transition_mut(ResolvedTransition::End(resolved));
             }
         }
 
@@ -297,8 +309,9 @@ impl Trie {
         // Class-based non-consuming checks. Iterate only transitions that are class variants to
         // avoid scanning all transitions on every node visit. The character sets themselves are
         // already resolved at insert time (see `ResolvedClasses::resolve`), so this is a plain
-        // binary search, not a `CharacterClasses` lookup.
-        for (transition, child_node) in &node.transitions {
+        // binary search, not a `CharacterClasses` lookup. The last one of several translations
+        // with the same weight is used, so go from the last inserted to the first one.
+        for (transition, child_node) in node.class_transitions.iter().rev() {
             match transition {
                 ResolvedTransition::Start(resolved) => {
                     if resolved.matches(prev) {
-- 
2.43.0


From 92b60c136ff63f69cf81eab0a57966f0e7dcfc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 03/36] fix: count boundaries in the weight of a rule that
 overrides another one

---
 src/translator/trie.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index 2da4345..ac933bf 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -245,7 +245,7 @@ impl Trie {
                 current_node.translation = Some(ResolvedTranslation::new(
                     from,
                     to,
-                    from.chars().count(),
+                    length,
                     stage,
                     origin.clone(),
                 ));
-- 
2.43.0


From 5638ad5d818e4049e98c79017d1aeb6d16db787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 04/36] fix: match at most the maximum number of repetitions

---
 src/translator/regexp.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index 57ac88d..0f161fa 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -215,13 +215,15 @@ impl Regexp {
                 for _ in 0..*min {
                     regexp.emit(instructions, character_classes);
                 }
-                let pos = instructions.len();
-                instructions.push(Instruction::Split(pos + 1, 0));
+                let mut splits = Vec::new();
                 for _ in *min..*max {
+                    splits.push(instructions.len());
+                    instructions.push(Instruction::Split(0, 0));
                     regexp.emit(instructions, character_classes);
                 }
-                instructions.push(Instruction::Jump(pos));
-                instructions[pos] = Instruction::Split(pos + 1, instructions.len());
+                for pos in splits {
+                    instructions[pos] = Instruction::Split(pos + 1, instructions.len());
+                }
             }
             Regexp::Capture(regexp) => {
                 instructions.push(Instruction::CaptureStart);
-- 
2.43.0


From c24e860de5f05ab329231689ab1ebc5e15a497e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 05/36] fix: apply zero-length rules at every position

---
 src/translator/table/multipass.rs | 1 +
 src/translator/table/primary.rs   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/translator/table/multipass.rs b/src/translator/table/multipass.rs
index 03353c0..d0c060f 100644
--- a/src/translator/table/multipass.rs
+++ b/src/translator/table/multipass.rs
@@ -160,6 +160,7 @@ impl MultipassTable {
                     }
                 }
             } else if let Some(next_char) = chars.next() {
+                seen.clear();
                 prev = Some(next_char);
                 // no translation rule found, just pass the character through
                 let translation = ResolvedTranslation::new(
diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 9ef472a..bf177b7 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1620,6 +1620,7 @@ impl PrimaryTable {
             {
                 let translation = nocross.clone();
                 let translation = uppercase_if_needed(translation);
+                seen.clear();
                 // move the iterator forward by the number of characters in the translation
                 chars.nth(nocross.length() - 1);
                 prev = translation.input().chars().last();
@@ -1651,6 +1652,7 @@ impl PrimaryTable {
                     }
                 }
             } else if let Some(next_char) = chars.next() {
+                seen.clear();
                 prev = Some(next_char);
                 char_pos += 1;
                 // no translation rule found
-- 
2.43.0


From 4398255364f7525f42f45d9b85cb63435caf4e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 06/36] fix: keep the delayed translations when a zero-length
 rule is applied

---
 src/translator/table/multipass.rs | 4 +++-
 src/translator/table/primary.rs   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/translator/table/multipass.rs b/src/translator/table/multipass.rs
index d0c060f..69cefe9 100644
--- a/src/translator/table/multipass.rs
+++ b/src/translator/table/multipass.rs
@@ -127,7 +127,7 @@ impl MultipassTable {
             // move delayed_translations with zero offset into candidates
             let (current, delayed) = self.partition_delayed_translations(delayed_translations);
             delayed_translations = delayed;
-            candidates.extend(current);
+            candidates.extend(current.iter().cloned());
 
             // use the longest translation
             let candidate = candidates
@@ -142,6 +142,8 @@ impl MultipassTable {
                     // if there is a zero-length translation candiate we run the risk of an infinite
                     // loop, so remember the current translation so we only apply it once
                     seen.insert(TranslationSubset::from(&t));
+                    // we stay at this position, so keep the translations that are due here
+                    delayed_translations.extend(current);
                 } else {
                     seen.clear();
                     // move the iterator forward by the number of characters in the translation
diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index bf177b7..863e227 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1541,7 +1541,7 @@ impl PrimaryTable {
             // move delayed_translations with zero offset into candidates
             let (current, delayed) = self.partition_delayed_translations(delayed_translations);
             delayed_translations = delayed;
-            candidates.extend(current);
+            candidates.extend(current.iter().cloned());
 
             // `prepunc`/`postpunc` need a variable-length scan the trie can't express
             // (see `PunctuationConstrainer`), so they're inserted with no trie-level
@@ -1632,6 +1632,8 @@ impl PrimaryTable {
                     // if there is a zero-length translation candiate we run the risk of an infinite
                     // loop, so remember the current translation so we only apply it once
                     seen.insert(TranslationSubset::from(t));
+                    // we stay at this position, so keep the translations that are due here
+                    delayed_translations.extend(current);
                 } else {
                     seen.clear();
                     // move the iterator forward by the number of characters in the translation
-- 
2.43.0


From 6457291ae858f82cf6e522f6471b2c7d008ecbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 07/36] fix: support the remaining comparison operators in
 tests on variables

---
 src/translator/context_pattern.rs | 10 +++---
 src/translator/regexp.rs          | 52 +++++++++++++++++++++++++++++++
 2 files changed, 58 insertions(+), 4 deletions(-)

diff --git a/src/translator/context_pattern.rs b/src/translator/context_pattern.rs
index c34604f..f68f601 100644
--- a/src/translator/context_pattern.rs
+++ b/src/translator/context_pattern.rs
@@ -54,10 +54,12 @@ impl Regexp {
             TestInstruction::Lookback { .. } => Regexp::Empty,
             TestInstruction::Variable { var, op, operand } => match op {
                 Operator::Eq => Regexp::VariableEqual(*var, *operand),
-                // FIXME: operands other than equal do not seem to exist in the wild (at least not
-                // in the tables that are shipped with liblouis), so maybe that feature should be
-                // removed
-                _ => todo!(),
+                // Operators other than equal do not seem to exist in the wild (at least not in the
+                // tables that are shipped with liblouis)
+                Operator::Lt => Regexp::VariableLess(*var, *operand),
+                Operator::Gt => Regexp::VariableGreater(*var, *operand),
+                Operator::LtEq => Regexp::VariableLessEqual(*var, *operand),
+                Operator::GtEq => Regexp::VariableGreaterEqual(*var, *operand),
             },
             TestInstruction::String { s } => Regexp::String(s.to_string()),
             TestInstruction::Dots { dots } => Regexp::String(dots.to_string()),
diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index 0f161fa..7c97341 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -59,6 +59,14 @@ pub enum Regexp {
     VariableEqual(VariableIndex, u8),
     /// Check whether variable at index is not equal to given value
     NotVariableEqual(VariableIndex, u8),
+    /// Check whether variable at index is less than given value
+    VariableLess(VariableIndex, u8),
+    /// Check whether variable at index is greater than given value
+    VariableGreater(VariableIndex, u8),
+    /// Check whether variable at index is less than or equal to given value
+    VariableLessEqual(VariableIndex, u8),
+    /// Check whether variable at index is greater than or equal to given value
+    VariableGreaterEqual(VariableIndex, u8),
     Group(Box<Regexp>),
     /// To support empty captures, we need an empty AST
     Empty,
@@ -122,6 +130,10 @@ impl Regexp {
             Regexp::VariableEqual(slot, value) => Regexp::NotVariableEqual(slot, value),
             // unreachable: the parser rejects double negation before it reaches here
             Regexp::NotVariableEqual(_, _) => unreachable!(),
+            Regexp::VariableLess(slot, value) => Regexp::VariableGreaterEqual(slot, value),
+            Regexp::VariableGreater(slot, value) => Regexp::VariableLessEqual(slot, value),
+            Regexp::VariableLessEqual(slot, value) => Regexp::VariableGreater(slot, value),
+            Regexp::VariableGreaterEqual(slot, value) => Regexp::VariableLess(slot, value),
             Regexp::Group(regexp) => Regexp::Group(Box::new(regexp.negate())),
             Regexp::Empty => Regexp::Never,
             Regexp::Never => Regexp::Empty,
@@ -251,6 +263,18 @@ impl Regexp {
             Regexp::NotVariableEqual(index, value) => {
                 instructions.push(Instruction::NotVariableEqual(*index, *value))
             }
+            Regexp::VariableLess(index, value) => {
+                instructions.push(Instruction::VariableLess(*index, *value))
+            }
+            Regexp::VariableGreater(index, value) => {
+                instructions.push(Instruction::VariableGreater(*index, *value))
+            }
+            Regexp::VariableLessEqual(index, value) => {
+                instructions.push(Instruction::VariableLessEqual(*index, *value))
+            }
+            Regexp::VariableGreaterEqual(index, value) => {
+                instructions.push(Instruction::VariableGreaterEqual(*index, *value))
+            }
             Regexp::Group(regexp) => {
                 regexp.emit(instructions, character_classes);
             }
@@ -299,6 +323,14 @@ pub enum Instruction {
     VariableEqual(VariableIndex, u8),
     /// Test whether a variable is not equal to a value
     NotVariableEqual(VariableIndex, u8),
+    /// Test whether a variable is less than a value
+    VariableLess(VariableIndex, u8),
+    /// Test whether a variable is greater than a value
+    VariableGreater(VariableIndex, u8),
+    /// Test whether a variable is less than or equal to a value
+    VariableLessEqual(VariableIndex, u8),
+    /// Test whether a variable is greater than or equal to a value
+    VariableGreaterEqual(VariableIndex, u8),
     /// Zero-width assertion: succeeds only if there is no input left
     AssertEnd,
     /// Zero-width assertion: succeeds only if there is still input left
@@ -430,6 +462,26 @@ impl CompiledRegexp {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
                 }
             }
+            Instruction::VariableLess(var, limit) => {
+                if env.get(var).is_some_and(|&actual| actual < limit) {
+                    self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
+                }
+            }
+            Instruction::VariableGreater(var, limit) => {
+                if env.get(var).is_some_and(|&actual| actual > limit) {
+                    self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
+                }
+            }
+            Instruction::VariableLessEqual(var, limit) => {
+                if env.get(var).is_some_and(|&actual| actual <= limit) {
+                    self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
+                }
+            }
+            Instruction::VariableGreaterEqual(var, limit) => {
+                if env.get(var).is_some_and(|&actual| actual >= limit) {
+                    self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
+                }
+            }
             Instruction::AssertEnd => {
                 if sp == input_len {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
-- 
2.43.0


From 266cd42ee04d8783ad8aaa3025b273c167cb2cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 08/36] fix: don't panic on a negation nested in a negated
 group

---
 src/translator/regexp.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index 7c97341..7ae135d 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -112,8 +112,7 @@ impl Regexp {
             // its negation can therefore never succeed.
             Regexp::Any => Regexp::Never,
             Regexp::CharacterClass(class) => Regexp::NotCharacterClass(class),
-            // unreachable: the parser rejects double negation before it reaches here
-            Regexp::NotCharacterClass(_) => unreachable!(),
+            Regexp::NotCharacterClass(class) => Regexp::CharacterClass(class),
             Regexp::RepeatExactly(n, regexp) => Regexp::RepeatExactly(n, Box::new(regexp.negate())),
             Regexp::RepeatAtLeast(n, regexp) => Regexp::RepeatAtLeast(n, Box::new(regexp.negate())),
             Regexp::RepeatAtLeastAtMost(n, m, regexp) => {
@@ -122,14 +121,12 @@ impl Regexp {
             // unreachable: the parser rejects negating a capture before it reaches here
             Regexp::Capture(_) => unreachable!(),
             Regexp::String(s) => Regexp::NotString(s),
-            // unreachable: the parser rejects double negation before it reaches here
-            Regexp::NotString(_) => unreachable!(),
+            Regexp::NotString(s) => Regexp::String(s),
             // unreachable: only ever built from a match rule's `chars` operand, which is parsed
             // separately from `pre`/`post` as a plain string and never goes through `Pattern::Negate`
             Regexp::CaseInsensitiveString(_) => unreachable!(),
             Regexp::VariableEqual(slot, value) => Regexp::NotVariableEqual(slot, value),
-            // unreachable: the parser rejects double negation before it reaches here
-            Regexp::NotVariableEqual(_, _) => unreachable!(),
+            Regexp::NotVariableEqual(slot, value) => Regexp::VariableEqual(slot, value),
             Regexp::VariableLess(slot, value) => Regexp::VariableGreaterEqual(slot, value),
             Regexp::VariableGreater(slot, value) => Regexp::VariableLessEqual(slot, value),
             Regexp::VariableLessEqual(slot, value) => Regexp::VariableGreater(slot, value),
-- 
2.43.0


From a164cc414dacd0ed56b3960b17eb6b795ab0f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 09/36] fix: report an error for deeply nested patterns instead
 of overflowing the stack

---
 src/parser/match_rule.rs     | 25 +++++++++++++++++++++++++
 src/parser/multipass.rs      |  2 ++
 src/parser/multipass/test.rs | 23 +++++++++++++++++++++++
 3 files changed, 50 insertions(+)

diff --git a/src/parser/match_rule.rs b/src/parser/match_rule.rs
index 8e48c46..580de6a 100644
--- a/src/parser/match_rule.rs
+++ b/src/parser/match_rule.rs
@@ -21,8 +21,13 @@ pub enum ParseError {
     DoubleNegation,
     #[error("unexpected {0:?} after pattern")]
     TrailingInput(char),
+    #[error("Pattern is nested too deeply")]
+    NestedTooDeeply,
 }
 
+/// The maximum nesting of groups and negations in a pattern. Protects against a stack overflow.
+const MAX_NESTING: usize = 64;
+
 /// Which side of a `match` rule (`pre` or `post`) a pattern was parsed for.
 #[derive(Debug, PartialEq, Eq, Clone, Copy)]
 pub enum Side {
@@ -120,6 +125,7 @@ impl std::fmt::Display for Pattern {
 pub struct PatternParser<'a> {
     chars: Peekable<Chars<'a>>,
     side: Side,
+    nesting: usize,
 }
 
 fn char_is_special(c: char) -> bool {
@@ -131,9 +137,24 @@ impl<'a> PatternParser<'a> {
         Self {
             chars: source.chars().peekable(),
             side,
+            nesting: 0,
         }
     }
 
+    /// Enter a nested pattern. Has to be paired with a [`Self::leave`].
+    fn enter(&mut self) -> Result<(), ParseError> {
+        self.nesting += 1;
+        if self.nesting > MAX_NESTING {
+            Err(ParseError::NestedTooDeeply)
+        } else {
+            Ok(())
+        }
+    }
+
+    fn leave(&mut self) {
+        self.nesting -= 1;
+    }
+
     fn consume(&mut self, expected: char) -> Result<(), ParseError> {
         match self.chars.next() {
             Some(e) if e == expected => Ok(()),
@@ -254,7 +275,9 @@ impl<'a> PatternParser<'a> {
 
     fn group(&mut self) -> Result<Pattern, ParseError> {
         self.consume('(')?;
+        self.enter()?;
         let patterns = self.either()?;
+        self.leave();
         self.consume(')')?;
         if patterns.is_empty() {
             Err(ParseError::EmptyGroup)
@@ -265,7 +288,9 @@ impl<'a> PatternParser<'a> {
 
     fn negate(&mut self) -> Result<Pattern, ParseError> {
         self.consume('!')?;
+        self.enter()?;
         let pattern = self.pattern_with_quantifier()?;
+        self.leave();
         if matches!(pattern, Pattern::Negate(_)) {
             return Err(ParseError::DoubleNegation);
         }
diff --git a/src/parser/multipass.rs b/src/parser/multipass.rs
index adfffdc..8d9fe77 100644
--- a/src/parser/multipass.rs
+++ b/src/parser/multipass.rs
@@ -44,6 +44,8 @@ pub enum ParseError {
     DoubleNegation,
     #[error("negating a replacement ('![...]') is not allowed")]
     NegatedReplacement,
+    #[error("Test is nested too deeply")]
+    NestedTooDeeply,
 }
 
 #[derive(thiserror::Error, Debug, PartialEq)]
diff --git a/src/parser/multipass/test.rs b/src/parser/multipass/test.rs
index 0d05eee..82d10a0 100644
--- a/src/parser/multipass/test.rs
+++ b/src/parser/multipass/test.rs
@@ -153,15 +153,34 @@ fn is_class_digit(c: &char) -> bool {
 /// A Parser for the test operand of context and multipass opcodes
 pub struct Parser<'a> {
     chars: Peekable<Chars<'a>>,
+    nesting: usize,
 }
 
+/// The maximum nesting of replacements and negations in a test. Protects against a stack overflow.
+const MAX_NESTING: usize = 64;
+
 impl<'a> Parser<'a> {
     pub fn new(source: &'a str) -> Self {
         Self {
             chars: source.chars().peekable(),
+            nesting: 0,
+        }
+    }
+
+    /// Enter a nested test. Has to be paired with a [`Self::leave`].
+    fn enter(&mut self) -> Result<(), ParseError> {
+        self.nesting += 1;
+        if self.nesting > MAX_NESTING {
+            Err(ParseError::NestedTooDeeply)
+        } else {
+            Ok(())
         }
     }
 
+    fn leave(&mut self) {
+        self.nesting -= 1;
+    }
+
     fn ascii_number(&mut self) -> Result<u8, ParseError> {
         let mut s = String::new();
         while self.chars.peek().filter(|c| c.is_ascii_digit()).is_some() {
@@ -368,7 +387,9 @@ impl<'a> Parser<'a> {
 
     fn replacement(&mut self) -> Result<TestInstruction, ParseError> {
         self.consume('[')?;
+        self.enter()?;
         let tests = self.many_tests()?;
+        self.leave();
         self.consume(']')?;
         Ok(TestInstruction::Replace { tests })
     }
@@ -410,7 +431,9 @@ impl<'a> Parser<'a> {
 
     fn negate(&mut self) -> Result<TestInstruction, ParseError> {
         self.consume('!')?;
+        self.enter()?;
         let test = self.test()?;
+        self.leave();
         if matches!(test, TestInstruction::Negate { .. }) {
             return Err(ParseError::DoubleNegation);
         }
-- 
2.43.0


From 236340a2e4b2c109c75d09e03e6d778a412a2a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 10/36] fix: don't panic when tracing a rule of an unlisted
 opcode

---
 src/parser.rs | 107 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 106 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6dc7110..9a483ac 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -905,11 +905,107 @@ impl std::fmt::Display for Rule {
                 dots,
                 ..
             } => write!(f, "match {} {} {} {}", pre, chars, post, dots),
-            _ => todo!(),
+            Rule::Include { file } => write!(f, "include {}", file),
+            Rule::IncludeHyphenation { path } => write!(f, "include {}", path.display()),
+            Rule::Display {
+                character, dots, ..
+            } => write!(f, "display {} {}", character, dots),
+            Rule::Multind { dots, names, .. } => write!(f, "multind {} {}", dots, names.join(" ")),
+            Rule::Grouping {
+                name,
+                chars,
+                left,
+                right,
+            } => write!(f, "grouping {} {} {},{}", name, chars, left, right),
+            Rule::Modeletter { name, dots, .. } => write!(f, "modeletter {} {}", name, dots),
+            Rule::Begmodeword { name, dots, .. } => write!(f, "begmodeword {} {}", name, dots),
+            Rule::Capsmodechars { chars } => write!(f, "capsmodechars {}", chars),
+            Rule::Begcapsphrase { dots } => write!(f, "begcapsphrase {}", dots),
+            Rule::Endcapsphrase { dots, position } => {
+                write!(f, "endcapsphrase {} {}", position, dots)
+            }
+            Rule::Lencapsphrase { number } => write!(f, "lencapsphrase {}", number),
+            Rule::Noletsignbefore { chars } => write!(f, "noletsignbefore {}", chars),
+            Rule::Noletsignafter { chars } => write!(f, "noletsignafter {}", chars),
+            Rule::Numericnocontchars { chars } => write!(f, "numericnocontchars {}", chars),
+            Rule::Numericmodechars { chars } => write!(f, "numericmodechars {}", chars),
+            Rule::Midendnumericmodechars { chars } => write!(f, "midendnumericmodechars {}", chars),
+            Rule::Begmodephrase { name, dots } => write!(f, "begmodephrase {} {}", name, dots),
+            Rule::Endmodephrase {
+                name,
+                dots,
+                position,
+            } => write!(f, "endmodephrase {} {} {}", name, position, dots),
+            Rule::Lenmodephrase { name, number } => write!(f, "lenmodephrase {} {}", name, number),
+            Rule::Begemphphrase { name, dots } => write!(f, "begemphphrase {} {}", name, dots),
+            Rule::Endemphphrase {
+                name,
+                dots,
+                position,
+            } => write!(f, "endemphphrase {} {} {}", name, position, dots),
+            Rule::Lenemphphrase { name, number } => write!(f, "lenemphphrase {} {}", name, number),
+            Rule::Seqdelimiter { chars } => write!(f, "seqdelimiter {}", chars),
+            Rule::Seqbeforechars { chars } => write!(f, "seqbeforechars {}", chars),
+            Rule::Seqafterchars { chars } => write!(f, "seqafterchars {}", chars),
+            Rule::Seqafterpattern { chars } => write!(f, "seqafterpattern {}", chars),
+            Rule::Seqafterexpression { chars } => write!(f, "seqafterexpression {}", chars),
+            Rule::Class { name, chars, .. } => write!(f, "class {} {}", name, chars),
+            Rule::Emphclass { name } => write!(f, "emphclass {}", name),
+            Rule::Begemph { name, dots, .. } => write!(f, "begemph {} {}", name, dots),
+            Rule::Endemph { name, dots, .. } => write!(f, "endemph {} {}", name, dots),
+            Rule::Noemphchars { name, chars, .. } => write!(f, "noemphchars {} {}", name, chars),
+            Rule::Emphletter { name, dots, .. } => write!(f, "emphletter {} {}", name, dots),
+            Rule::Begemphword { name, dots, .. } => write!(f, "begemphword {} {}", name, dots),
+            Rule::Endemphword { name, dots, .. } => write!(f, "endemphword {} {}", name, dots),
+            Rule::Emphmodechars { name, chars, .. } => {
+                write!(f, "emphmodechars {} {}", name, chars)
+            }
+            Rule::Begcomp { dots, .. } => write!(f, "begcomp {}", dots),
+            Rule::Endcomp { dots, .. } => write!(f, "endcomp {}", dots),
+            Rule::Capsnocont {} => write!(f, "capsnocont"),
+            Rule::Nocont { chars, .. } => write!(f, "nocont {}", chars),
+            Rule::Replace { chars, replacement } => match replacement {
+                Some(replacement) => write!(f, "replace {} {}", chars, replacement),
+                None => write!(f, "replace {}", chars),
+            },
+            Rule::Repeated { chars, dots, .. } => write!(f, "repeated {} {}", chars, dots),
+            Rule::Repword { chars, dots, .. } => write!(f, "repword {} {}", chars, dots),
+            Rule::Syllable { chars, dots, .. } => write!(f, "syllable {} {}", chars, dots),
+            Rule::Joinword { chars, dots, .. } => write!(f, "joinword {} {}", chars, dots),
+            Rule::Lowword { chars, dots, .. } => write!(f, "lowword {} {}", chars, dots),
+            Rule::Joinnum { chars, dots, .. } => write!(f, "joinnum {} {}", chars, dots),
+            Rule::Rependword { chars, dots, other } => {
+                write!(f, "rependword {} {},{}", chars, dots, other)
+            }
+            Rule::Exactdots { chars } => write!(f, "exactdots {}", chars),
+            Rule::Swapcd { name, chars, dots } => {
+                write!(f, "swapcd {} {} {}", name, chars, comma_separated(dots))
+            }
+            Rule::Swapdd {
+                name,
+                dots,
+                replacement,
+            } => write!(
+                f,
+                "swapdd {} {} {}",
+                name,
+                dots,
+                comma_separated(replacement)
+            ),
+            Rule::Swapcc {
+                name,
+                chars,
+                replacement,
+            } => write!(f, "swapcc {} {} {}", name, chars, replacement),
         }
     }
 }
 
+fn comma_separated(dots: &[BrailleChars]) -> String {
+    let dots: Vec<_> = dots.iter().map(|d| d.to_string()).collect();
+    dots.join(",")
+}
+
 /// A trait to query the direction of a [`Rule`].
 pub trait HasDirection {
     /// Returns the set of directions associated with this Rule.
@@ -1091,6 +1187,15 @@ pub enum Position {
     After,
 }
 
+impl std::fmt::Display for Position {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Position::Before => write!(f, "before"),
+            Position::After => write!(f, "after"),
+        }
+    }
+}
+
 #[derive(PartialEq, Debug)]
 pub enum EscapingContext {
     Default,
-- 
2.43.0


From 502a284158e98ffb9f3eefc6b404463ff66f9f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 11/36] fix: don't panic on a metadata query without a value

---
 src/main.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 31c1fff..5e1d4eb 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -441,11 +441,14 @@ fn main() {
                 let query = query
                     .split(',')
                     .map(|s| {
-                        let parts: Vec<_> = s.split('=').collect();
-                        (parts[0].to_string(), parts[1].to_string())
+                        s.split_once('=')
+                            .map(|(k, v)| (k.to_string(), v.to_string()))
                     })
                     .collect();
-                println!("{:?}", metadata::find(&index, query));
+                match query {
+                    Some(query) => println!("{:?}", metadata::find(&index, query)),
+                    None => eprintln!("Invalid query, expected <key=value,...>"),
+                }
             }
             Err(e) => {
                 eprint!("Could not index all tables: {:?}", e)
-- 
2.43.0


From 4b23594b77fcf629269be7385935d2b2bc431d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 12/36] fix: order emphasis indicators at the same position
 without panicking

---
 src/translator/indication/emphasis.rs | 59 +++++++++++++++------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/src/translator/indication/emphasis.rs b/src/translator/indication/emphasis.rs
index 8d853d9..ade8b7c 100644
--- a/src/translator/indication/emphasis.rs
+++ b/src/translator/indication/emphasis.rs
@@ -7,7 +7,10 @@
 //! The choice of indicator (letter / word / phrase) depends on the full
 //! run context, so the entire decision is made during precompute.
 
-use std::collections::{HashMap, HashSet};
+use std::{
+    cmp::Reverse,
+    collections::{HashMap, HashSet},
+};
 
 use crate::{
     emphasis::EmphasisSpan,
@@ -26,7 +29,7 @@ fn make_translation(dots: &str, origin: &AnchoredRule) -> ResolvedTranslation {
 /// LIFO (stack) order across multiple emphasis classes.  All other indicator
 /// types (word, phrase, letter) use `Unordered` and retain their original
 /// class-definition order.
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 enum EmitKind {
     /// `begemph` event; `run_end` is the position where the corresponding
     /// `endemph` will be emitted.
@@ -422,6 +425,18 @@ impl IndicatorBuilder {
     }
 }
 
+/// Stable-sort the items that have a `key` among themselves and leave all others where they are.
+fn sort_selected<T: Clone, K: Ord>(items: &mut [T], key: impl Fn(&T) -> Option<K>) {
+    let slots: Vec<usize> = (0..items.len())
+        .filter(|&i| key(&items[i]).is_some())
+        .collect();
+    let mut selected: Vec<T> = slots.iter().map(|&i| items[i].clone()).collect();
+    selected.sort_by_key(|item| key(item));
+    for (slot, item) in slots.into_iter().zip(selected) {
+        items[slot] = item;
+    }
+}
+
 // ── Indicator ────────────────────────────────────────────────────────────────
 
 /// Compiled emphasis indicator for one or more emphasis classes.
@@ -464,29 +479,23 @@ impl Indicator {
             }
         }
 
-        // Stable-sort so that same-position, same-kind events keep their relative
-        // order unless the rules require a reordering.
-        events.sort_by(|a, b| {
-            use std::cmp::Ordering;
-            let pos_ord = a.0.cmp(&b.0);
-            if pos_ord != Ordering::Equal {
-                return pos_ord;
-            }
-            match (&a.2, &b.2) {
-                // Opens at same position: later run_end first, then higher class_idx first.
-                (EmitKind::Open { run_end: re_a }, EmitKind::Open { run_end: re_b }) => {
-                    re_b.cmp(re_a).then(b.3.cmp(&a.3))
-                }
-                // Closes at same position: later open (higher emit_start) closes first
-                // (= inverse of open order).  Tiebreaker: lower class_idx first
-                // (first-defined closes first, matching emphclass definition order).
-                (EmitKind::Close { emit_start: es_a }, EmitKind::Close { emit_start: es_b }) => {
-                    es_b.cmp(es_a).then(a.3.cmp(&b.3))
-                }
-                // All other combinations: preserve original order.
-                _ => Ordering::Equal,
-            }
-        });
+        // Within a position only the opens and only the closes are ordered among themselves.
+        // Everything else keeps its place, so this cannot be expressed as one total order.
+        events.sort_by_key(|(pos, ..)| *pos);
+        for group in events.chunk_by_mut(|a, b| a.0 == b.0) {
+            // Opens at same position: later run_end first, then higher class_idx first.
+            sort_selected(group, |(_, _, kind, class_idx)| match kind {
+                EmitKind::Open { run_end } => Some((Reverse(*run_end), Reverse(*class_idx))),
+                _ => None,
+            });
+            // Closes at same position: later open (higher emit_start) closes first
+            // (= inverse of open order).  Tiebreaker: lower class_idx first
+            // (first-defined closes first, matching emphclass definition order).
+            sort_selected(group, |(_, _, kind, class_idx)| match kind {
+                EmitKind::Close { emit_start } => Some((Reverse(*emit_start), *class_idx)),
+                _ => None,
+            });
+        }
 
         events
             .into_iter()
-- 
2.43.0


From fed9c28a6816f7e47ecc2f876b23034d10352786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 13/36] verif: expose the translation trace to runtime monitors
 behind cfg(louis_verif)

---
 src/lib.rs | 57 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 1bf4009..68fb97b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,6 +25,8 @@ assert_eq!(braille, "⠓⠑⠇⠇⠕⠀⠺⠕⠗⠇⠙");
 
 */
 
+#![allow(unexpected_cfgs)]
+
 mod emphasis;
 mod hyphenation;
 mod parser;
@@ -149,6 +151,61 @@ impl Translator {
     }
 }
 
+/// Observation hooks for the runtime monitors, only compiled in with `--cfg louis_verif`
+#[cfg(louis_verif)]
+pub mod verif {
+    use super::{TranslationOptions, Translator};
+
+    /// One step of the translation of an input
+    #[derive(Debug, Clone, PartialEq)]
+    pub struct Segment {
+        pub input: String,
+        pub output: String,
+        pub stage: String,
+        /// The rule that caused this translation in the syntax of a table
+        pub rule: Option<String>,
+    }
+
+    /// The translations applied in every stage of the pipeline, in the order of execution
+    pub fn trace(
+        translator: &Translator,
+        input: &str,
+        options: &TranslationOptions,
+    ) -> Vec<Vec<Segment>> {
+        let stages = translator.0.trace_with_options(input, options);
+        stages
+            .iter()
+            .map(|stage| {
+                let segments = stage.iter().map(|t| Segment {
+                    input: t.input(),
+                    output: t.output(),
+                    stage: t.stage().to_string(),
+                    rule: t.origin().map(|o| o.rule.to_string()),
+                });
+                segments.collect()
+            })
+            .collect()
+    }
+
+    /// The output and the input positions of a single stage trace
+    pub fn positions(
+        translator: &Translator,
+        input: &str,
+        options: &TranslationOptions,
+    ) -> Vec<(Vec<usize>, Vec<usize>)> {
+        let stages = translator.0.trace_with_options(input, options);
+        stages
+            .iter()
+            .map(|stage| {
+                (
+                    Translator::compute_output_positions(stage),
+                    Translator::compute_input_positions(stage),
+                )
+            })
+            .collect()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::translator::TranslationStage;
-- 
2.43.0


From 2429d9b39ba0f02dd2c0144f1bded6b0fc57b46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 14/36] fix: know the predefined math and litdigit classes by
 their names

A class constraint such as 'after math' was silently dropped and '%math' in
a test never matched, even though math and litdigit are classes like digit
and sign.
---
 src/parser/character_class.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/character_class.rs b/src/parser/character_class.rs
index a72da42..4623ff7 100644
--- a/src/parser/character_class.rs
+++ b/src/parser/character_class.rs
@@ -39,11 +39,13 @@ impl From<&str> for CharacterClass {
         match value {
             "space" => CharacterClass::Space,
             "digit" => CharacterClass::Digit,
+            "litdigit" => CharacterClass::Litdigit,
             "letter" => CharacterClass::Letter,
             "uppercase" => CharacterClass::Uppercase,
             "lowercase" => CharacterClass::Lowercase,
             "punctuation" => CharacterClass::Punctuation,
             "sign" => CharacterClass::Sign,
+            "math" => CharacterClass::Math,
             "seqdelimiter" => CharacterClass::Seqdelimiter,
             "seqbeforechars" => CharacterClass::Seqbeforechars,
             "seqafterchars" => CharacterClass::Seqafterchars,
-- 
2.43.0


From b1b1c6d5e7a0c6979296e70efb281f6a4eea7a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 15/36] fix: don't use nocross rules in computer braille and
 don't contract with them in numbers

---
 src/translator/table/primary.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 863e227..913ac30 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1439,9 +1439,15 @@ impl PrimaryTable {
         char_pos: usize,
         constraints: &PositionConstraints,
     ) -> Vec<ResolvedTranslation> {
+        // only comp6 rules are used in computer braille
+        if constraints.use_comp6_at(char_pos) {
+            return Vec::new();
+        }
         self.nocross_trie
             .find_translations(input, prev)
             .into_iter()
+            // inside a numeric run, suppress multi-character contractions
+            .filter(|t| t.length() <= 1 || !constraints.dont_contract_at(char_pos))
             .filter(|t| {
                 !(char_pos..char_pos + t.length().saturating_sub(1))
                     .any(|pos| constraints.hyphenation_break_at(pos))
-- 
2.43.0


From be4b237745e1458d29b09002d55c9a22c0aa47c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 16/36] fix: check boundaries against the preceding character
 as it is in the text

---
 src/translator/table/primary.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 913ac30..a260984 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1627,9 +1627,9 @@ impl PrimaryTable {
                 let translation = nocross.clone();
                 let translation = uppercase_if_needed(translation);
                 seen.clear();
-                // move the iterator forward by the number of characters in the translation
-                chars.nth(nocross.length() - 1);
-                prev = translation.input().chars().last();
+                // move the iterator forward by the number of characters in the translation. The last one
+                // of them, in the letter case of the input, precedes the next position.
+                prev = chars.nth(nocross.length() - 1);
                 char_pos += nocross.length();
                 translations.push(translation);
                 delayed_translations = self.update_offsets(delayed_translations, nocross.length());
@@ -1642,9 +1642,9 @@ impl PrimaryTable {
                     delayed_translations.extend(current);
                 } else {
                     seen.clear();
-                    // move the iterator forward by the number of characters in the translation
-                    chars.nth(t.length() - 1);
-                    prev = t.input().chars().last();
+                    // move the iterator forward by the number of characters in the translation. The last
+                    // one of them, in the letter case of the input, precedes the next position.
+                    prev = chars.nth(t.length() - 1);
                     char_pos += t.length();
                 }
                 // there is a matching translation rule
-- 
2.43.0


From b98e13bbcadabb29b261bf81320a55048721b232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 17/36] fix: don't let a rule swallow an indicator due inside
 of its characters

---
 src/translator/indication.rs           | 29 +++++++++++++++++++++-----
 src/translator/position_constraints.rs |  5 +++++
 src/translator/table/primary.rs        | 19 ++++++++++++++---
 3 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/src/translator/indication.rs b/src/translator/indication.rs
index 77ced47..1e69920 100644
--- a/src/translator/indication.rs
+++ b/src/translator/indication.rs
@@ -76,11 +76,21 @@ pub struct Indicators(Vec<Indicator>);
 /// Holds per-position braille translations to emit, indexed by
 /// character position (with one extra slot at index `n` for translations that
 /// must appear after all input characters, e.g. `endemph` at end of string).
-pub struct PrecomputedIndications(Vec<Vec<ResolvedTranslation>>);
+pub struct PrecomputedIndications {
+    translations: Vec<Vec<ResolvedTranslation>>,
+    /// The positions where capitalization, emphasis or computer braille begins or ends
+    changes: Vec<bool>,
+}
 
 impl PrecomputedIndications {
     pub fn translations_at(&self, pos: usize) -> Vec<ResolvedTranslation> {
-        self.0.get(pos).cloned().unwrap_or_default()
+        self.translations.get(pos).cloned().unwrap_or_default()
+    }
+
+    /// Whether capitalization, emphasis or computer braille begins or ends inside of the `length`
+    /// characters at `pos`. If these were translated as a whole the indication would be lost.
+    pub fn changes_within(&self, pos: usize, length: usize) -> bool {
+        (pos + 1..pos + length).any(|pos| self.changes.get(pos).copied().unwrap_or(false))
     }
 }
 
@@ -91,7 +101,8 @@ impl Indicators {
 
     pub fn precompute(&self, input: &str, spans: &[EmphasisSpan]) -> PrecomputedIndications {
         let n = input.chars().count();
-        let mut indications: Vec<Vec<ResolvedTranslation>> = vec![vec![]; n + 1];
+        let mut translations: Vec<Vec<ResolvedTranslation>> = vec![vec![]; n + 1];
+        let mut changes = vec![false; n + 1];
 
         for indicator in &self.0 {
             let pairs: Vec<(usize, ResolvedTranslation)> = match indicator {
@@ -102,12 +113,20 @@ impl Indicators {
                 Indicator::LetterSign(i) => i.precompute(input),
                 Indicator::NoContract(i) => i.precompute(input),
             };
+            let is_change = matches!(
+                indicator,
+                Indicator::ComputerBraille(_) | Indicator::Emphasis(_) | Indicator::Uppercase(_)
+            );
             for (pos, t) in pairs {
-                indications[pos].push(t);
+                translations[pos].push(t);
+                changes[pos] |= is_change;
             }
         }
 
-        PrecomputedIndications(indications)
+        PrecomputedIndications {
+            translations,
+            changes,
+        }
     }
 }
 
diff --git a/src/translator/position_constraints.rs b/src/translator/position_constraints.rs
index 5ffbad8..4c1281a 100644
--- a/src/translator/position_constraints.rs
+++ b/src/translator/position_constraints.rs
@@ -92,6 +92,11 @@ impl PositionConstraints {
             .is_some_and(|f| f.contains(Constraint::UseComp6))
     }
 
+    /// Whether computer braille begins or ends inside of the `length` characters at `pos`
+    pub fn use_comp6_changes_within(&self, pos: usize, length: usize) -> bool {
+        (pos + 1..pos + length).any(|p| self.use_comp6_at(p) != self.use_comp6_at(pos))
+    }
+
     pub fn uppercase_at(&self, pos: usize) -> bool {
         self.0
             .get(pos)
diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index a260984..e0a5367 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -19,8 +19,8 @@ use crate::{
         context_pattern::{ContextPatterns, ContextPatternsBuilder},
         effect::Environment,
         indication::{
-            Indicator, Indicators, computer_braille, emphasis, lettersign, nocontract, numeric,
-            uppercase,
+            Indicator, Indicators, PrecomputedIndications, computer_braille, emphasis, lettersign,
+            nocontract, numeric, uppercase,
         },
         match_pattern::{MatchPatterns, MatchPatternsBuilder},
         position_constraints::{
@@ -1438,6 +1438,7 @@ impl PrimaryTable {
         prev: Option<char>,
         char_pos: usize,
         constraints: &PositionConstraints,
+        indications: &PrecomputedIndications,
     ) -> Vec<ResolvedTranslation> {
         // only comp6 rules are used in computer braille
         if constraints.use_comp6_at(char_pos) {
@@ -1448,6 +1449,8 @@ impl PrimaryTable {
             .into_iter()
             // inside a numeric run, suppress multi-character contractions
             .filter(|t| t.length() <= 1 || !constraints.dont_contract_at(char_pos))
+            .filter(|t| !constraints.use_comp6_changes_within(char_pos, t.length()))
+            .filter(|t| !indications.changes_within(char_pos, t.length()))
             .filter(|t| {
                 !(char_pos..char_pos + t.length().saturating_sub(1))
                     .any(|pos| constraints.hyphenation_break_at(pos))
@@ -1520,7 +1523,7 @@ impl PrimaryTable {
 
             // First check for nocross candidates
             let nocross_candidate = self
-                .nocross_candidates(chars.as_str(), prev, char_pos, &constraints)
+                .nocross_candidates(chars.as_str(), prev, char_pos, &constraints, &indications)
                 .into_iter()
                 .max_by_key(|t| t.weight());
 
@@ -1586,6 +1589,16 @@ impl PrimaryTable {
                 candidates.extend(self.comp6_trie.find_translations(chars.as_str(), prev));
             }
 
+            // don't let a rule reach into or out of computer braille
+            candidates.retain(|t| !constraints.use_comp6_changes_within(char_pos, t.length()));
+
+            // don't let a rule hide an indicator that is due inside of its characters. The test of a
+            // `context` rule spells out the text exactly, so leave those alone.
+            candidates.retain(|t| {
+                !indications.changes_within(char_pos, t.length())
+                    || matches!(t.origin().map(|a| a.rule), Some(Rule::Context { .. }))
+            });
+
             // Backward caps mode: capitalize the output of whichever candidate wins below.
             // `Uppercase` (begcapsword span) capitalizes every character a cell resolves
             // to; `TitleCase` (capsletter) capitalizes only the first — a cell can
-- 
2.43.0


From 46311dbdbbbbf6b6df775a82e07a1f24ab3db452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 18/36] fix: remember the precedence of a rule in the trie, so
 that the first one of equal rules wins (C06)

---
 src/translator/translation.rs |  5 +++++
 src/translator/trie.rs        | 33 ++++++++++++---------------------
 2 files changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/translator/translation.rs b/src/translator/translation.rs
index 150a882..85825b6 100644
--- a/src/translator/translation.rs
+++ b/src/translator/translation.rs
@@ -295,6 +295,11 @@ impl ResolvedTranslation {
         }
     }
 
+    /// Set the `precedence` of a translation.
+    pub fn with_precedence(self, precedence: Precedence) -> Self {
+        Self { precedence, ..self }
+    }
+
     /// Set the `offset` of a translation.
     pub fn with_offset(self, offset: usize) -> Self {
         Self { offset, ..self }
diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index ac933bf..8007cff 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -242,33 +242,24 @@ impl Trie {
         if let Some(translation) = &current_node.translation {
             // this node already contains a translation
             if precedence > translation.precedence() {
-                current_node.translation = Some(ResolvedTranslation::new(
-                    from,
-                    to,
-                    length,
-                    stage,
-                    origin.clone(),
-                ));
+                current_node.translation = Some(
+                    ResolvedTranslation::new(from, to, length, stage, origin.clone())
+                        .with_precedence(precedence),
+                );
             } else if cfg!(feature = "backwards_compatibility") {
                 // first rule wins, so nothing to insert
             } else {
                 // last rule wins
-                current_node.translation = Some(ResolvedTranslation::new(
-                    from,
-                    to,
-                    length,
-                    stage,
-                    origin.clone(),
-                ));
+                current_node.translation = Some(
+                    ResolvedTranslation::new(from, to, length, stage, origin.clone())
+                        .with_precedence(precedence),
+                );
             }
         } else {
-            current_node.translation = Some(ResolvedTranslation::new(
-                from,
-                to,
-                length,
-                stage,
-                origin.clone(),
-            ));
+            current_node.translation = Some(
+                ResolvedTranslation::new(from, to, length, stage, origin.clone())
+                    .with_precedence(precedence),
+            );
         }
     }
 
-- 
2.43.0


From 0f6cf651b8dc66f1b16d9d370dc0f7cab671f94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 19/36] fix: 9 is dots 35 in the fallback for undefined
 characters (C07)

---
 src/parser/braille.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/braille.rs b/src/parser/braille.rs
index 544b971..6c803df 100644
--- a/src/parser/braille.rs
+++ b/src/parser/braille.rs
@@ -220,7 +220,7 @@ pub fn fallback(ch: char) -> char {
             '8',
             BrailleChar(BrailleDot::Dot2 | BrailleDot::Dot3 | BrailleDot::Dot6),
         ),
-        ('9', BrailleChar(BrailleDot::Dot2 | BrailleDot::Dot5)),
+        ('9', BrailleChar(BrailleDot::Dot3 | BrailleDot::Dot5)),
         ('a', BrailleChar(enum_set!(BrailleDot::Dot1))),
         ('b', BrailleChar(BrailleDot::Dot1 | BrailleDot::Dot2)),
         ('c', BrailleChar(BrailleDot::Dot1 | BrailleDot::Dot4)),
-- 
2.43.0


From 22ed3f7cedef38f46a2b9318082279ccc3cdba07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 20/36] fix: continue a capital word across letters of several
 cells in back-translation

---
 src/translator/table/primary.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index e0a5367..6a3d8e6 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1373,6 +1373,16 @@ impl PrimaryTable {
             builder
                 .backward_numeric_constrainer
                 .letter_cells(letter_cells.clone());
+            // A letter may be defined with several cells (e.g. Greek accented letters). They
+            // aren't registered in the Letter dots class either but are part of the word.
+            for rule in rules {
+                if let Rule::Letter { dots, .. }
+                | Rule::Lowercase { dots, .. }
+                | Rule::Uppercase { dots, .. } = &rule.rule
+                {
+                    letter_cells.extend(dots.to_string().chars());
+                }
+            }
             builder.backward_caps_constrainer.letter_cells(letter_cells);
             let mut digit_cells = ctx
                 .dots_classes()
-- 
2.43.0


From cae68294b42a0c38b2115c47bb890c169d62f584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 21/36] fix: choose between equally long rules by their order
 in the table, not by unrelated rules

---
 src/translator/trie.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index 8007cff..7ddc358 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -78,6 +78,8 @@ pub enum ClassConstraint {
 #[derive(Default, Debug, Clone)]
 struct TrieNode {
     translation: Option<ResolvedTranslation>,
+    /// The position of the translation in the order in which translations were inserted.
+    order: usize,
     transitions: HashMap<ResolvedTransition, TrieNode>,
     /// The class based transitions (`Start` and `End`) in the order in which they were inserted, so
     /// that the order in which translations are found doesn't depend on the iteration order of a
@@ -119,6 +121,8 @@ impl TrieNode {
 #[derive(Default, Debug, Clone)]
 pub struct Trie {
     root: TrieNode,
+    /// The number of translations that were inserted
+    count: usize,
     /// Character classes used for word/number/punctuation boundary checks and for
     /// `StartClass`/`EndClass` constraint checks. Set to text classes for forward translation,
     /// braille classes for backward.
@@ -129,6 +133,7 @@ impl Trie {
     pub fn new() -> Self {
         Trie {
             root: TrieNode::default(),
+            count: 0,
             ctx: CharacterClasses::default(),
         }
     }
@@ -239,6 +244,7 @@ impl Trie {
             }
         }
 
+        self.count += 1;
         if let Some(translation) = &current_node.translation {
             // this node already contains a translation
             if precedence > translation.precedence() {
@@ -246,6 +252,7 @@ impl Trie {
                     ResolvedTranslation::new(from, to, length, stage, origin.clone())
                         .with_precedence(precedence),
                 );
+                current_node.order = self.count;
             } else if cfg!(feature = "backwards_compatibility") {
                 // first rule wins, so nothing to insert
             } else {
@@ -254,12 +261,14 @@ impl Trie {
                     ResolvedTranslation::new(from, to, length, stage, origin.clone())
                         .with_precedence(precedence),
                 );
+                current_node.order = self.count;
             }
         } else {
             current_node.translation = Some(
                 ResolvedTranslation::new(from, to, length, stage, origin.clone())
                     .with_precedence(precedence),
             );
+            current_node.order = self.count;
         }
     }
 
@@ -269,14 +278,14 @@ impl Trie {
         prev: Option<char>,
         node: &TrieNode,
         match_length: usize,
-    ) -> Vec<ResolvedTranslation> {
+    ) -> Vec<(usize, ResolvedTranslation)> {
         let mut matching_rules = Vec::new();
         let mut chars = input.chars();
 
         // if this node has a translation add it to the list of matching rules
         if let Some(ref translation) = node.translation {
             let translation = translation.clone();
-            matching_rules.push(translation)
+            matching_rules.push((node.order, translation))
         }
         let c = chars.next();
         if let Some(c) = c {
@@ -300,9 +309,8 @@ impl Trie {
         // Class-based non-consuming checks. Iterate only transitions that are class variants to
         // avoid scanning all transitions on every node visit. The character sets themselves are
         // already resolved at insert time (see `ResolvedClasses::resolve`), so this is a plain
-        // binary search, not a `CharacterClasses` lookup. The last one of several translations
-        // with the same weight is used, so go from the last inserted to the first one.
-        for (transition, child_node) in node.class_transitions.iter().rev() {
+        // binary search, not a `CharacterClasses` lookup.
+        for (transition, child_node) in &node.class_transitions {
             match transition {
                 ResolvedTransition::Start(resolved) => {
                     if resolved.matches(prev) {
@@ -331,7 +339,16 @@ impl Trie {
     }
 
     pub fn find_translations(&self, input: &str, prev: Option<char>) -> Vec<ResolvedTranslation> {
-        self.find_translations_from_node(input, prev, &self.root, 0)
+        let mut translations = self.find_translations_from_node(input, prev, &self.root, 0);
+        // The last one of several translations with the same weight is used. Order them by their
+        // insertion and not by the way their paths happen to be arranged in the trie, which
+        // depends on unrelated rules.
+        translations.sort_by_key(|(order, t)| {
+            let order = *order as isize;
+            let first_wins = cfg!(feature = "backwards_compatibility");
+            (t.weight(), if first_wins { -order } else { order })
+        });
+        translations.into_iter().map(|(_, t)| t).collect()
     }
 }
 
-- 
2.43.0


From d65aa5400a6bd26fe18e2dea51e26a0e8b09cf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 22/36] fix: accumulate the characters of repeated character
 list opcodes

---
 src/translator/indication/emphasis.rs  | 4 ++--
 src/translator/indication/numeric.rs   | 4 ++--
 src/translator/indication/uppercase.rs | 2 +-
 src/translator/position_constraints.rs | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/translator/indication/emphasis.rs b/src/translator/indication/emphasis.rs
index ade8b7c..ada1452 100644
--- a/src/translator/indication/emphasis.rs
+++ b/src/translator/indication/emphasis.rs
@@ -399,11 +399,11 @@ impl IndicatorBuilder {
     }
 
     pub fn emphmodechars(&mut self, name: &str, chars: &str) {
-        self.class_mut(name).emphmodechars = chars.chars().collect();
+        self.class_mut(name).emphmodechars.extend(chars.chars());
     }
 
     pub fn noemphchars(&mut self, name: &str, chars: &str) {
-        self.class_mut(name).noemphchars = chars.chars().collect();
+        self.class_mut(name).noemphchars.extend(chars.chars());
     }
 
     pub fn build(mut self, ctx: &TableContext) -> Option<Indicator> {
diff --git a/src/translator/indication/numeric.rs b/src/translator/indication/numeric.rs
index 04e54a5..17e9855 100644
--- a/src/translator/indication/numeric.rs
+++ b/src/translator/indication/numeric.rs
@@ -61,11 +61,11 @@ impl IndicatorBuilder {
     }
 
     pub fn numericnocontchars(&mut self, s: &str) {
-        self.0.terminating_chars = HashSet::from_iter(s.chars());
+        self.0.terminating_chars.extend(s.chars());
     }
 
     pub fn numericmodechars(&mut self, s: &str) {
-        self.0.extra_numeric_chars = HashSet::from_iter(s.chars());
+        self.0.extra_numeric_chars.extend(s.chars());
     }
 
     pub fn numeric_characters(&mut self, chars: HashSet<char>) {
diff --git a/src/translator/indication/uppercase.rs b/src/translator/indication/uppercase.rs
index b6d33da..a442ed7 100644
--- a/src/translator/indication/uppercase.rs
+++ b/src/translator/indication/uppercase.rs
@@ -106,7 +106,7 @@ impl IndicatorBuilder {
     }
 
     pub fn capsmodechars(&mut self, s: &str) {
-        self.0.mode_chars = s.chars().collect();
+        self.0.mode_chars.extend(s.chars());
     }
 
     pub fn uppercase_characters(&mut self, chars: HashSet<char>) {
diff --git a/src/translator/position_constraints.rs b/src/translator/position_constraints.rs
index 4c1281a..bfa9de3 100644
--- a/src/translator/position_constraints.rs
+++ b/src/translator/position_constraints.rs
@@ -492,7 +492,7 @@ impl NumericConstrainerBuilder {
     }
 
     pub fn numericmodechars(&mut self, s: &str) {
-        self.extra_numeric_chars = HashSet::from_iter(s.chars());
+        self.extra_numeric_chars.extend(s.chars());
     }
 
     pub fn midnum(&mut self, s: &str) {
-- 
2.43.0


From e8581d7117d12fdb2e9e30f2d81cdd6f0179a06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 23/36] fix: reject a sign in hexadecimal escapes

---
 src/parser.rs                  | 5 +++++
 src/parser/multipass/action.rs | 5 +++--
 src/parser/multipass/test.rs   | 5 +++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9a483ac..a871171 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1212,6 +1212,11 @@ fn unescape_unicode(chars: &mut Chars, len: u8) -> Result<char, ParseError> {
         }
     }
 
+    // `from_str_radix` also accepts a sign
+    if !s.chars().all(|c| c.is_ascii_hexdigit()) {
+        return Err(ParseError::InvalidUnicodeLiteral { found: Some(s) });
+    }
+
     let Ok(value) = u32::from_str_radix(&s, 16) else {
         return Err(ParseError::InvalidUnicodeLiteral { found: Some(s) });
     };
diff --git a/src/parser/multipass/action.rs b/src/parser/multipass/action.rs
index 5df2528..fe7d7df 100644
--- a/src/parser/multipass/action.rs
+++ b/src/parser/multipass/action.rs
@@ -195,8 +195,9 @@ impl<'a> Parser<'a> {
         let mut s = String::new();
         for _ in 0..len {
             match self.chars.next() {
-                Some(c) => s.push(c),
-                None => return Err(ParseError::InvalidEscapeSequence { found: None }),
+                // `from_str_radix` also accepts a sign
+                Some(c) if c.is_ascii_hexdigit() => s.push(c),
+                c => return Err(ParseError::InvalidEscapeSequence { found: c }),
             }
         }
         u32::from_str_radix(&s, 16)
diff --git a/src/parser/multipass/test.rs b/src/parser/multipass/test.rs
index 82d10a0..fd2313a 100644
--- a/src/parser/multipass/test.rs
+++ b/src/parser/multipass/test.rs
@@ -317,8 +317,9 @@ impl<'a> Parser<'a> {
         let mut s = String::new();
         for _ in 0..len {
             match self.chars.next() {
-                Some(c) => s.push(c),
-                None => return Err(ParseError::InvalidEscapeSequence { found: None }),
+                // `from_str_radix` also accepts a sign
+                Some(c) if c.is_ascii_hexdigit() => s.push(c),
+                c => return Err(ParseError::InvalidEscapeSequence { found: c }),
             }
         }
         u32::from_str_radix(&s, 16)
-- 
2.43.0


From ec33fe44241117459e8e31dfcea9a5b46276991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:23 +0000
Subject: [PATCH 24/36] fix: print the sets in patterns and tests of a rule in
 a fixed order

---
 src/parser/match_rule.rs     | 24 ++++++++++--------------
 src/parser/multipass/test.rs |  7 ++++---
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/parser/match_rule.rs b/src/parser/match_rule.rs
index 580de6a..fc75205 100644
--- a/src/parser/match_rule.rs
+++ b/src/parser/match_rule.rs
@@ -82,6 +82,13 @@ impl std::fmt::Display for Patterns {
     }
 }
 
+/// The members of a set in a fixed order, as the iteration order of a [`HashSet`] is random
+fn sorted<T: ToString>(set: &HashSet<T>) -> String {
+    let mut members: Vec<String> = set.iter().map(T::to_string).collect();
+    members.sort_unstable();
+    members.concat()
+}
+
 impl std::fmt::Display for Pattern {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
@@ -93,24 +100,13 @@ impl std::fmt::Display for Pattern {
             Pattern::Boundary(Side::Post) => write!(f, "$"),
             Pattern::Any => write!(f, "."),
             Pattern::Set(chars) => {
-                write!(f, "[")?;
-                for c in chars {
-                    write!(f, "{}", c)?;
-                }
-                write!(f, "]")?;
-                Ok(())
+                write!(f, "[{}]", sorted(chars))
             }
             Pattern::Attributes(attributes) => {
-                for attr in attributes {
-                    write!(f, "{}", attr)?;
-                }
-                Ok(())
+                write!(f, "{}", sorted(attributes))
             }
             Pattern::AttributesOrBoundary(attributes, side) => {
-                for attr in attributes {
-                    write!(f, "{}", attr)?;
-                }
-                write!(f, "{}", Pattern::Boundary(*side))
+                write!(f, "{}{}", sorted(attributes), Pattern::Boundary(*side))
             }
             Pattern::Group(patterns) => write!(f, "({})", patterns),
             Pattern::Negate(pattern) => write!(f, "!{}", pattern),
diff --git a/src/parser/multipass/test.rs b/src/parser/multipass/test.rs
index fd2313a..46d11d9 100644
--- a/src/parser/multipass/test.rs
+++ b/src/parser/multipass/test.rs
@@ -579,9 +579,10 @@ mod display {
                 }
                 TestInstruction::Attributes { attrs, quantifier } => {
                     write!(f, "$")?;
-                    for attr in attrs {
-                        write!(f, "{}", attr)?;
-                    }
+                    // the iteration order of a set is random
+                    let mut attrs: Vec<String> = attrs.iter().map(Attribute::to_string).collect();
+                    attrs.sort_unstable();
+                    write!(f, "{}", attrs.concat())?;
                     if let Some(q) = quantifier {
                         write!(f, "{}", q)?;
                     }
-- 
2.43.0


From ad483584869d08743655a110d0bb271ac8b6c931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:17 +0000
Subject: [PATCH 25/36] fix: check the boundaries of prepunc and postpunc rules
 that are marked nocross

---
 src/translator/table/primary.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 6a3d8e6..f559cc6 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1461,6 +1461,12 @@ impl PrimaryTable {
             .filter(|t| t.length() <= 1 || !constraints.dont_contract_at(char_pos))
             .filter(|t| !constraints.use_comp6_changes_within(char_pos, t.length()))
             .filter(|t| !indications.changes_within(char_pos, t.length()))
+            // the boundaries of `prepunc`/`postpunc` aren't expressed in the trie
+            .filter(|t| match t.origin().map(|a| a.rule) {
+                Some(Rule::Prepunc { .. }) => constraints.prepunc_ok_at(char_pos),
+                Some(Rule::Postpunc { .. }) => constraints.postpunc_ok_at(char_pos),
+                _ => true,
+            })
             .filter(|t| {
                 !(char_pos..char_pos + t.length().saturating_sub(1))
                     .any(|pos| constraints.hyphenation_break_at(pos))
-- 
2.43.0


From a1c02da222acb09bfed6dd2a551eef68ee7a4ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:45 +0000
Subject: [PATCH 26/36] fix: let tests in the passes match the cells of a swap
 class

The cells were added to the class of seqafterchars, so that %class in a
test of pass2 to pass4 matched nothing.
---
 src/translator/table.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/translator/table.rs b/src/translator/table.rs
index 34b7580..978eb1a 100644
--- a/src/translator/table.rs
+++ b/src/translator/table.rs
@@ -225,7 +225,7 @@ impl TableContext {
                     for c in chars.chars() {
                         character_classes.insert(class.clone(), c);
                         dots_classes.insert_associated_dot(
-                            CharacterClass::Seqafterchars,
+                            class.clone(),
                             c,
                             &character_definitions,
                         );
@@ -243,7 +243,7 @@ impl TableContext {
                     for c in chars.chars() {
                         character_classes.insert(class.clone(), c);
                         dots_classes.insert_associated_dot(
-                            CharacterClass::Seqafterchars,
+                            class.clone(),
                             c,
                             &character_definitions,
                         );
@@ -263,11 +263,7 @@ impl TableContext {
                     let class = CharacterClass::from(name.as_str());
                     for c in dots.to_string().chars() {
                         character_classes.insert(class.clone(), c);
-                        dots_classes.insert_associated_dot(
-                            CharacterClass::Seqafterchars,
-                            c,
-                            &character_definitions,
-                        );
+                        dots_classes.insert(class.clone(), c);
                     }
                     let replacements: Vec<String> =
                         replacement.iter().map(|b| b.to_string()).collect();
-- 
2.43.0


From 609d5fe6b2e4fa3bc302542c9200e743efa7db85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:10 +0000
Subject: [PATCH 27/36] fix: let no character satisfy before or after with a
 class that is empty

The condition was left out instead, so the rule applied everywhere until
some other rule gave the class a first character.
---
 src/translator/table/primary.rs | 36 ++++++++++++++-------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index f559cc6..8bb5dc8 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -388,22 +388,16 @@ impl PrimaryTable {
     /// `ClassConstraint`s. `before` is a lookahead (the character *after* the match must be
     /// in the class); `after` is a lookbehind (the character *before* the match must be in
     /// the class).
-    fn resolve_class_constraints(
-        ctx: &TableContext,
-        with_classes: &[WithClass],
-    ) -> Vec<ClassConstraint> {
+    /// A class without characters satisfies no condition.
+    fn resolve_class_constraints(with_classes: &[WithClass]) -> Vec<ClassConstraint> {
         with_classes
             .iter()
-            .filter_map(|wc| match wc {
+            .map(|wc| match wc {
                 WithClass::Before { class } => {
-                    let key = CharacterClass::from(class.as_str());
-                    ctx.character_classes.get(&key)?;
-                    Some(ClassConstraint::End(key))
+                    ClassConstraint::End(CharacterClass::from(class.as_str()))
                 }
                 WithClass::After { class } => {
-                    let key = CharacterClass::from(class.as_str());
-                    ctx.character_classes.get(&key)?;
-                    Some(ClassConstraint::Start(key))
+                    ClassConstraint::Start(CharacterClass::from(class.as_str()))
                 }
             })
             .collect()
@@ -821,7 +815,7 @@ impl PrimaryTable {
                     let dots = ctx
                         .character_definitions()
                         .braille_to_unicode(dots, chars)?;
-                    let class_constraints = Self::resolve_class_constraints(ctx, with_classes);
+                    let class_constraints = Self::resolve_class_constraints(with_classes);
                     builder.get_trie_mut(rule).insert(
                         chars,
                         &dots,
@@ -890,7 +884,7 @@ impl PrimaryTable {
                     let dots = ctx
                         .character_definitions()
                         .braille_to_unicode(dots, chars)?;
-                    let class_constraints = Self::resolve_class_constraints(ctx, with_classes);
+                    let class_constraints = Self::resolve_class_constraints(with_classes);
                     builder.get_trie_mut(rule).insert(
                         chars,
                         &dots,
@@ -918,7 +912,7 @@ impl PrimaryTable {
                     let dots = ctx
                         .character_definitions()
                         .braille_to_unicode(dots, chars)?;
-                    let class_constraints = Self::resolve_class_constraints(ctx, with_classes);
+                    let class_constraints = Self::resolve_class_constraints(with_classes);
                     builder.get_trie_mut(rule).insert(
                         chars,
                         &dots,
@@ -943,7 +937,7 @@ impl PrimaryTable {
                     let dots = ctx
                         .character_definitions()
                         .braille_to_unicode(dots, chars)?;
-                    let class_constraints = Self::resolve_class_constraints(ctx, with_classes);
+                    let class_constraints = Self::resolve_class_constraints(with_classes);
                     builder.get_trie_mut(rule).insert(
                         chars,
                         &dots,
@@ -969,7 +963,7 @@ impl PrimaryTable {
                     let dots = ctx
                         .character_definitions()
                         .braille_to_unicode(dots, chars)?;
-                    let class_constraints = Self::resolve_class_constraints(ctx, with_classes);
+                    let class_constraints = Self::resolve_class_constraints(with_classes);
                     builder.get_trie_mut(rule).insert(
                         chars,
                         &dots,
@@ -1002,7 +996,7 @@ impl PrimaryTable {
                     let dots = ctx
                         .character_definitions()
                         .braille_to_unicode(dots, chars)?;
-                    let class_constraints = Self::resolve_class_constraints(ctx, with_classes);
+                    let class_constraints = Self::resolve_class_constraints(with_classes);
                     builder.get_trie_mut(rule).insert(
                         chars,
                         &dots,
@@ -1028,7 +1022,7 @@ impl PrimaryTable {
                     let dots = ctx
                         .character_definitions()
                         .braille_to_unicode(dots, chars)?;
-                    let class_constraints = Self::resolve_class_constraints(ctx, with_classes);
+                    let class_constraints = Self::resolve_class_constraints(with_classes);
                     builder.get_trie_mut(rule).insert(
                         chars,
                         &dots,
@@ -1053,7 +1047,7 @@ impl PrimaryTable {
                     let dots = ctx
                         .character_definitions()
                         .braille_to_unicode(dots, chars)?;
-                    let class_constraints = Self::resolve_class_constraints(ctx, with_classes);
+                    let class_constraints = Self::resolve_class_constraints(with_classes);
                     // a prfword is basically syntactic sugar for a word rule combined with an
                     // endword rule. So just make the two appropriate insertions in the trie
                     builder.get_trie_mut(rule).insert(
@@ -1097,7 +1091,7 @@ impl PrimaryTable {
                     let dots = ctx
                         .character_definitions()
                         .braille_to_unicode(dots, chars)?;
-                    let class_constraints = Self::resolve_class_constraints(ctx, with_classes);
+                    let class_constraints = Self::resolve_class_constraints(with_classes);
                     // a sufword is basically syntactic sugar for a word rule combined with an
                     // begword rule. So just make the two appropriate insertions in the trie
                     builder.get_trie_mut(rule).insert(
@@ -1141,7 +1135,7 @@ impl PrimaryTable {
                     let dots = ctx
                         .character_definitions()
                         .braille_to_unicode(dots, chars)?;
-                    let class_constraints = Self::resolve_class_constraints(ctx, with_classes);
+                    let class_constraints = Self::resolve_class_constraints(with_classes);
                     builder.get_trie_mut(rule).insert(
                         chars,
                         &dots,
-- 
2.43.0


From c34f5672eefaf57c3e1bba545f5602b34fe7f73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:37 +0000
Subject: [PATCH 28/36] fix: read the first of several digits with the cells of
 a letter in a number

Outside of a number, and for cells no letter has, the first definition
already won.
---
 src/translator/table/primary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 8bb5dc8..0472566 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -140,7 +140,7 @@ pub struct PrimaryTable {
     /// only inside a `numsign` span (see [`Constraint::PreferDigit`]).
     ///
     /// [`Constraint::PreferDigit`]: crate::translator::position_constraints::Constraint::PreferDigit
-    backward_digit_overrides: HashMap<char, ResolvedTranslation>,
+    backward_digit_overrides: CharacterTranslation,
 }
 
 /// A builder for [`PrimaryTable`]
@@ -164,7 +164,7 @@ struct PrimaryTableBuilder {
     backward_numeric_constrainer: BackwardNumericConstrainerBuilder,
     hyphenation_constrainer: HyphenationConstrainerBuilder,
     punctuation_constrainer: PunctuationConstrainerBuilder,
-    backward_digit_overrides: HashMap<char, ResolvedTranslation>,
+    backward_digit_overrides: CharacterTranslation,
     compbrl_triggers: Vec<String>,
 }
 
@@ -193,7 +193,7 @@ impl PrimaryTableBuilder {
             backward_numeric_constrainer: BackwardNumericConstrainerBuilder::new(),
             hyphenation_constrainer: HyphenationConstrainerBuilder::new(),
             punctuation_constrainer: PunctuationConstrainerBuilder::new(),
-            backward_digit_overrides: HashMap::new(),
+            backward_digit_overrides: CharacterTranslation::new(),
             compbrl_triggers: Vec::new(),
         }
     }
-- 
2.43.0


From c1a7e5448507247c96b79105114d370a22580352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:21 +0000
Subject: [PATCH 29/36] fix: accept and apply increments and decrements of
 variables

The sign was not consumed, so a rule with #1+ or #1- in its action was
always rejected, and the effect was not passed on to the translation.
---
 src/parser/multipass/action.rs    | 10 ++++++++--
 src/translator/context_pattern.rs |  9 +++++----
 src/translator/effect.rs          | 19 ++++++++++++++++++-
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/parser/multipass/action.rs b/src/parser/multipass/action.rs
index fe7d7df..790a1a3 100644
--- a/src/parser/multipass/action.rs
+++ b/src/parser/multipass/action.rs
@@ -250,8 +250,14 @@ impl<'a> Parser<'a> {
                     value: self.ascii_number()?,
                 })
             }
-            Some('+') => Ok(ActionInstruction::Increment { variable }),
-            Some('-') => Ok(ActionInstruction::Decrement { variable }),
+            Some('+') => {
+                self.consume('+')?;
+                Ok(ActionInstruction::Increment { variable })
+            }
+            Some('-') => {
+                self.consume('-')?;
+                Ok(ActionInstruction::Decrement { variable })
+            }
             c => Err(ParseError::InvalidOperator { found: c.copied() }),
         }
     }
diff --git a/src/translator/context_pattern.rs b/src/translator/context_pattern.rs
index f68f601..e7ab4f6 100644
--- a/src/translator/context_pattern.rs
+++ b/src/translator/context_pattern.rs
@@ -189,10 +189,11 @@ impl Effects {
     }
 
     fn from_instruction(value: ActionInstruction) -> Option<Effect> {
-        if let ActionInstruction::Assignment { variable, value } = value {
-            Some(Effect::new(variable, value))
-        } else {
-            None
+        match value {
+            ActionInstruction::Assignment { variable, value } => Some(Effect::new(variable, value)),
+            ActionInstruction::Increment { variable } => Some(Effect::increment(variable)),
+            ActionInstruction::Decrement { variable } => Some(Effect::decrement(variable)),
+            _ => None,
         }
     }
 }
diff --git a/src/translator/effect.rs b/src/translator/effect.rs
index 3641d07..b494f28 100644
--- a/src/translator/effect.rs
+++ b/src/translator/effect.rs
@@ -20,6 +20,20 @@ impl Effect {
             kind: EffectKind::Set(value),
         }
     }
+
+    pub fn increment(slot: u8) -> Self {
+        Effect {
+            slot,
+            kind: EffectKind::Increment,
+        }
+    }
+
+    pub fn decrement(slot: u8) -> Self {
+        Effect {
+            slot,
+            kind: EffectKind::Decrement,
+        }
+    }
 }
 
 pub struct Environment(HashMap<u8, u8>);
@@ -37,7 +51,10 @@ impl Environment {
         let slot = effect.slot;
         match effect.kind {
             EffectKind::Increment => {
-                self.0.entry(slot).and_modify(|v| *v += 1).or_insert(1);
+                self.0
+                    .entry(slot)
+                    .and_modify(|v| *v = v.saturating_add(1))
+                    .or_insert(1);
             }
             EffectKind::Decrement => {
                 self.0
-- 
2.43.0


From ae42f8acab2696f16fbc0d9230e7ea7796cc5cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:52 +0000
Subject: [PATCH 30/36] fix: enclose overlapping computer braille spans in one
 pair of indicators

---
 src/translator/indication/computer_braille.rs | 35 +++++++++++--------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/translator/indication/computer_braille.rs b/src/translator/indication/computer_braille.rs
index d25dee8..097dea9 100644
--- a/src/translator/indication/computer_braille.rs
+++ b/src/translator/indication/computer_braille.rs
@@ -62,33 +62,38 @@ pub struct Indicator {
 impl Indicator {
     /// Returns sparse `(position, translation)` pairs for the given input and emphasis spans.
     ///
-    /// Emits `begcomp` at `span.range.start` and `endcomp` at `span.range.end`
-    /// (clamped to `n`) for each span with `class == "computer_braille"`.
-    /// Only emits for spans where `start < end`. Result is sorted by position.
+    /// Emits `begcomp` at the start and `endcomp` at the end of each region that is covered by
+    /// spans with `class == "computer_braille"` (clamped to `n`). Spans that overlap make up one
+    /// region. Result is sorted by position.
     pub fn precompute(
         &self,
         input: &str,
         spans: &[EmphasisSpan],
     ) -> Vec<(usize, ResolvedTranslation)> {
         let n = input.chars().count();
-        let mut result: Vec<(usize, ResolvedTranslation)> = Vec::new();
-
-        for span in spans {
-            if span.class != "computer_braille" {
-                continue;
-            }
-            let start = span.range.start;
-            let end = span.range.end.min(n);
-            if start >= end {
-                continue;
+        let mut ranges: Vec<(usize, usize)> = spans
+            .iter()
+            .filter(|span| span.class == "computer_braille")
+            .map(|span| (span.range.start, span.range.end.min(n)))
+            .filter(|(start, end)| start < end)
+            .collect();
+        ranges.sort_unstable();
+
+        let mut regions: Vec<(usize, usize)> = Vec::new();
+        for (start, end) in ranges {
+            match regions.last_mut() {
+                Some(region) if start < region.1 => region.1 = region.1.max(end),
+                _ => regions.push((start, end)),
             }
+        }
+
+        let mut result: Vec<(usize, ResolvedTranslation)> = Vec::new();
+        for (start, end) in regions {
             result.push((start, self.begcomp.clone()));
             if let Some(ref endcomp) = self.endcomp {
                 result.push((end, endcomp.clone()));
             }
         }
-
-        result.sort_by_key(|(pos, _)| *pos);
         result
     }
 }
-- 
2.43.0


From 349ff4ed1c1c8c976a92478cc7263e04352cecec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:42 +0000
Subject: [PATCH 31/36] fix: end emphasis before other emphasis begins at the
 same position

---
 src/translator/indication/emphasis.rs | 53 +++++++++++++++++----------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/translator/indication/emphasis.rs b/src/translator/indication/emphasis.rs
index ada1452..b3b7898 100644
--- a/src/translator/indication/emphasis.rs
+++ b/src/translator/indication/emphasis.rs
@@ -25,19 +25,21 @@ fn make_translation(dots: &str, origin: &AnchoredRule) -> ResolvedTranslation {
 /// Ordering tag attached to each emitted event.
 ///
 /// `Open`/`Close` events are for `begemph`/`endemph` indicators and carry the
-/// span's `run_end` so that same-position events can be sorted into the correct
+/// span's end so that same-position events can be sorted into the correct
 /// LIFO (stack) order across multiple emphasis classes.  All other indicator
-/// types (word, phrase, letter) use `Unordered` and retain their original
+/// types (word, phrase, letter) use `End` or `Unordered` and retain their original
 /// class-definition order.
 #[derive(Debug, Clone)]
 enum EmitKind {
-    /// `begemph` event; `run_end` is the position where the corresponding
+    /// `begemph` event; `emit_end` is the position where the corresponding
     /// `endemph` will be emitted.
-    Open { run_end: usize },
+    Open { emit_end: usize },
     /// `endemph` event; `emit_start` is the position where the matching `Open`
     /// (begemph) was emitted.  Used to sort same-position closes in inverse
     /// open order (later open = closes first).
     Close { emit_start: usize },
+    /// End of a word or phrase.
+    End,
     /// All other indicators — ordering within a position is preserved as-is.
     Unordered,
 }
@@ -180,16 +182,22 @@ impl ClassIndicator {
             let effective_start = (run_start..run_end)
                 .find(|&i| !self.is_emphasis_word_separator(chars[i]))
                 .unwrap_or(run_start);
-            result.push((effective_start, begemph.clone(), EmitKind::Open { run_end }));
+            // Find the last non-mode-char position in the run. endemph goes
+            // at the next slot (= first trailing mode char, or n if none).
+            let effective_end = (run_start..run_end)
+                .rev()
+                .find(|&i| !self.is_emphasis_word_separator(chars[i]))
+                .map(|i| i + 1)
+                .unwrap_or(run_end);
+            result.push((
+                effective_start,
+                begemph.clone(),
+                EmitKind::Open {
+                    emit_end: effective_end,
+                },
+            ));
 
             if let Some(endemph) = &self.endemph {
-                // Find the last non-mode-char position in the run. endemph goes
-                // at the next slot (= first trailing mode char, or n if none).
-                let effective_end = (run_start..run_end)
-                    .rev()
-                    .find(|&i| !self.is_emphasis_word_separator(chars[i]))
-                    .map(|i| i + 1)
-                    .unwrap_or(run_end);
                 result.push((
                     effective_end,
                     endemph.clone(),
@@ -252,7 +260,7 @@ impl ClassIndicator {
             } else {
                 // Phrase brackets all words; explicit endemph after the last.
                 if let Some(end_t) = &self.endemphphrase {
-                    result.push((words.last().unwrap().1, end_t.clone(), EmitKind::Unordered));
+                    result.push((words.last().unwrap().1, end_t.clone(), EmitKind::End));
                 }
             }
             return;
@@ -308,7 +316,7 @@ impl ClassIndicator {
                 && run_end < chars.len()
                 && !self.is_emphasis_word_separator(chars[run_end])
             {
-                result.push((run_end, end_t.clone(), EmitKind::Unordered));
+                result.push((run_end, end_t.clone(), EmitKind::End));
             }
             return;
         }
@@ -321,7 +329,7 @@ impl ClassIndicator {
             if let Some(end_t) = &self.endemphphrase
                 && run_end < chars.len()
             {
-                result.push((run_end, end_t.clone(), EmitKind::Unordered));
+                result.push((run_end, end_t.clone(), EmitKind::End));
             }
         }
     }
@@ -454,6 +462,7 @@ impl Indicator {
     ///
     /// When multiple emphasis classes emit indicators at the same position the
     /// output is sorted to respect the liblouis stack rule:
+    /// * All that end at a position end before others begin there.
     /// * Opens at the same position: the class whose run ends **latest** opens
     ///   first (it is the "outermost" bracket).  Tiebreaker: last-defined class
     ///   opens first.
@@ -479,13 +488,17 @@ impl Indicator {
             }
         }
 
-        // Within a position only the opens and only the closes are ordered among themselves.
-        // Everything else keeps its place, so this cannot be expressed as one total order.
-        events.sort_by_key(|(pos, ..)| *pos);
+        // Within a position the ends come first, and only the opens and only the closes are ordered
+        // among themselves. Everything else keeps its place, so this cannot be expressed as one
+        // total order.
+        events.sort_by_key(|(pos, _, kind, _)| {
+            let is_end = matches!(kind, EmitKind::Close { .. } | EmitKind::End);
+            (*pos, !is_end)
+        });
         for group in events.chunk_by_mut(|a, b| a.0 == b.0) {
-            // Opens at same position: later run_end first, then higher class_idx first.
+            // Opens at same position: later end first, then higher class_idx first.
             sort_selected(group, |(_, _, kind, class_idx)| match kind {
-                EmitKind::Open { run_end } => Some((Reverse(*run_end), Reverse(*class_idx))),
+                EmitKind::Open { emit_end } => Some((Reverse(*emit_end), Reverse(*class_idx))),
                 _ => None,
             });
             // Closes at same position: later open (higher emit_start) closes first
-- 
2.43.0


From e56ec79710abe88ab4a06e06f2592aadcb6e6b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:07 +0000
Subject: [PATCH 32/36] fix: mark each word of emphasis that begins or ends
 within a word

---
 src/translator/indication/emphasis.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/translator/indication/emphasis.rs b/src/translator/indication/emphasis.rs
index b3b7898..a20c220 100644
--- a/src/translator/indication/emphasis.rs
+++ b/src/translator/indication/emphasis.rs
@@ -235,7 +235,7 @@ impl ClassIndicator {
         if starts_clean && ends_clean {
             self.emit_clean_words(&words, result);
         } else {
-            self.emit_partial(chars, run_start, run_end, &words, result);
+            self.emit_partial(chars, &words, result);
         }
     }
 
@@ -294,25 +294,28 @@ impl ClassIndicator {
     fn emit_partial(
         &self,
         chars: &[char],
-        run_start: usize,
-        run_end: usize,
         words: &[(usize, usize)],
         result: &mut Vec<(usize, ResolvedTranslation, EmitKind)>,
     ) {
-        let total_chars: usize = words.iter().map(|(s, e)| e - s).sum();
+        let run_start = words[0].0;
+        let (last_start, run_end) = words[words.len() - 1];
 
-        if total_chars == 1
+        if run_end - run_start == 1
             && let Some(t) = &self.emphletter
         {
-            result.push((words[0].0, t.clone(), EmitKind::Unordered));
+            result.push((run_start, t.clone(), EmitKind::Unordered));
             return;
         }
 
-        if let Some(t) = &self.begemphword {
-            result.push((run_start, t.clone(), EmitKind::Unordered));
+        if self.begemphword.is_some() {
+            for &(ws, we) in words {
+                self.emit_single_word(ws, we, result);
+            }
             // endemphword is only needed when emphasis ends mid-word (the next
             // character is not a word boundary and not end-of-string).
+            let is_letter = run_end - last_start == 1 && self.emphletter.is_some();
             if let Some(end_t) = &self.endemphword
+                && !is_letter
                 && run_end < chars.len()
                 && !self.is_emphasis_word_separator(chars[run_end])
             {
-- 
2.43.0


From 0722b2c99255a3b97970bbb87f93c17a962a3a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:20 +0000
Subject: [PATCH 33/36] fix: drop indented comments and blank lines in a parse
 session

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 5e1d4eb..728c705 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -236,7 +236,8 @@ fn repl(handler: Box<dyn Fn(String)>) {
 }
 
 fn parse_line(line: String) {
-    if !line.starts_with('#') && !line.is_empty() {
+    // drop comments and empty lines
+    if !line.trim().starts_with('#') && !line.trim().is_empty() {
         let rule = RuleParser::new(&line).rule();
         match rule {
             Ok(rule) => println!("{:?}", rule),
-- 
2.43.0


From ac1cb0bc6f526eac1f7a85ff14be3760181f6341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:15 +0000
Subject: [PATCH 34/36] fix: look up long rules without recursion

The lookup in the trie recursed once for every character of a rule, so
a rule of some thousand characters overflowed the stack as soon as a
text contained what it translates.
---
 src/translator/trie.rs | 83 +++++++++++++++---------------------------
 1 file changed, 29 insertions(+), 54 deletions(-)

diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index 7ddc358..bae4419 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -272,74 +272,49 @@ impl Trie {
         }
     }
 
-    fn find_translations_from_node(
+    /// Find all translations for the beginning of `input`, together with their insertion order.
+    ///
+    /// The nodes that are still to be visited are kept on the heap, as a rule may be longer than
+    /// what the stack has room for.
+    fn find_ordered_translations(
         &self,
         input: &str,
         prev: Option<char>,
-        node: &TrieNode,
-        match_length: usize,
     ) -> Vec<(usize, ResolvedTranslation)> {
         let mut matching_rules = Vec::new();
-        let mut chars = input.chars();
+        let mut pending = vec![(&self.root, input, prev)];
 
-        // if this node has a translation add it to the list of matching rules
-        if let Some(ref translation) = node.translation {
-            let translation = translation.clone();
-            matching_rules.push((node.order, translation))
-        }
-        let c = chars.next();
-        if let Some(c) = c {
-            let bytes = c.len_utf8();
-            if let Some(node) = node.char_transition(c) {
-                matching_rules.extend(self.find_translations_from_node(
-                    &input[bytes..],
-                    Some(c),
-                    node,
-                    match_length + 1,
-                ));
-            } else if let Some(node) = node.any_transition() {
-                matching_rules.extend(self.find_translations_from_node(
-                    &input[bytes..],
-                    Some(c),
-                    node,
-                    match_length + 1,
-                ));
+        while let Some((node, input, prev)) = pending.pop() {
+            // if this node has a translation add it to the list of matching rules
+            if let Some(ref translation) = node.translation {
+                matching_rules.push((node.order, translation.clone()))
             }
-        }
-        // Class-based non-consuming checks. Iterate only transitions that are class variants to
-        // avoid scanning all transitions on every node visit. The character sets themselves are
-        // already resolved at insert time (see `ResolvedClasses::resolve`), so this is a plain
-        // binary search, not a `CharacterClasses` lookup.
-        for (transition, child_node) in &node.class_transitions {
-            match transition {
-                ResolvedTransition::Start(resolved) => {
-                    if resolved.matches(prev) {
-                        matching_rules.extend(self.find_translations_from_node(
-                            input,
-                            prev,
-                            child_node,
-                            match_length,
-                        ));
-                    }
-                }
-                ResolvedTransition::End(resolved) => {
-                    if resolved.matches(c) {
-                        matching_rules.extend(self.find_translations_from_node(
-                            input,
-                            prev,
-                            child_node,
-                            match_length,
-                        ));
-                    }
+            let c = input.chars().next();
+            if let Some(c) = c
+                && let Some(node) = node.char_transition(c).or_else(|| node.any_transition())
+            {
+                pending.push((node, &input[c.len_utf8()..], Some(c)));
+            }
+            // Class-based non-consuming checks. Iterate only transitions that are class variants to
+            // avoid scanning all transitions on every node visit. The character sets themselves are
+            // already resolved at insert time (see `ResolvedClasses::resolve`), so this is a plain
+            // binary search, not a `CharacterClasses` lookup.
+            for (transition, child_node) in &node.class_transitions {
+                let neighbor = match transition {
+                    ResolvedTransition::Start(resolved) => resolved.matches(prev),
+                    ResolvedTransition::End(resolved) => resolved.matches(c),
+                    _ => false,
+                };
+                if neighbor {
+                    pending.push((child_node, input, prev));
                 }
-                _ => {}
             }
         }
         matching_rules
     }
 
     pub fn find_translations(&self, input: &str, prev: Option<char>) -> Vec<ResolvedTranslation> {
-        let mut translations = self.find_translations_from_node(input, prev, &self.root, 0);
+        let mut translations = self.find_ordered_translations(input, prev);
         // The last one of several translations with the same weight is used. Order them by their
         // insertion and not by the way their paths happen to be arranged in the trie, which
         // depends on unrelated rules.
-- 
2.43.0


From 6150d4a5968b0b549b1800de9de9da7fd08689db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:15 +0000
Subject: [PATCH 35/36] fix: free long rules without recursion

The nodes of a trie were dropped recursively, so a table with a rule of
some ten thousand characters aborted the process when it was freed.
---
 src/translator/trie.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index bae4419..18d5815 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -118,6 +118,20 @@ impl TrieNode {
     }
 }
 
+impl Drop for TrieNode {
+    /// Free the nodes one by one instead of recursively, as a rule may be longer than what the stack
+    /// has room for.
+    fn drop(&mut self) {
+        let mut pending = Vec::new();
+        pending.extend(self.transitions.drain().map(|(_, node)| node));
+        pending.extend(self.class_transitions.drain(..).map(|(_, node)| node));
+        while let Some(mut node) = pending.pop() {
+            pending.extend(node.transitions.drain().map(|(_, node)| node));
+            pending.extend(node.class_transitions.drain(..).map(|(_, node)| node));
+        }
+    }
+}
+
 #[derive(Default, Debug, Clone)]
 pub struct Trie {
     root: TrieNode,
-- 
2.43.0


From b6566fd73bbed004b96c2165ecc7f993771191a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:15 +0000
Subject: [PATCH 36/36] fix: match long patterns without recursion

Both the depth of the expression that is built for the pattern of a match
or the test of a context rule, and that of the search for the next
instructions that consume a character, grew with their length, so that
long ones overflowed the stack.
---
 src/translator/context_pattern.rs |  12 +--
 src/translator/match_pattern.rs   |  14 ++--
 src/translator/regexp.rs          | 119 +++++++++++++++---------------
 3 files changed, 73 insertions(+), 72 deletions(-)

diff --git a/src/translator/context_pattern.rs b/src/translator/context_pattern.rs
index e7ab4f6..e7570bd 100644
--- a/src/translator/context_pattern.rs
+++ b/src/translator/context_pattern.rs
@@ -25,12 +25,12 @@ impl Regexp {
             0 => Regexp::Empty,
             1 => Regexp::from_instruction(&instructions[0], ctx),
             _ => {
-                let mut ast = Regexp::from_instruction(&instructions[0], ctx);
-                for instruction in &instructions[1..] {
-                    let other = Regexp::from_instruction(instruction, ctx);
-                    ast = Regexp::Concat(Box::new(ast), Box::new(other));
-                }
-                ast
+                // concatenate halves, so that the depth of the expression stays small
+                let (left, right) = instructions.split_at(instructions.len() / 2);
+                Regexp::Concat(
+                    Box::new(Regexp::from_instructions(left, ctx)),
+                    Box::new(Regexp::from_instructions(right, ctx)),
+                )
             }
         }
     }
diff --git a/src/translator/match_pattern.rs b/src/translator/match_pattern.rs
index a91fe29..18e24bc 100644
--- a/src/translator/match_pattern.rs
+++ b/src/translator/match_pattern.rs
@@ -54,17 +54,17 @@ impl Regexp {
         }
     }
 
-    fn from_patterns(patterns: &Patterns, ctx: &CharacterClasses) -> Self {
+    fn from_patterns(patterns: &[Pattern], ctx: &CharacterClasses) -> Self {
         match patterns.len() {
             0 => todo!(),
             1 => Regexp::from_pattern(&patterns[0], ctx),
             _ => {
-                let mut regexp = Regexp::from_pattern(&patterns[0], ctx);
-                for pattern in patterns.iter().skip(1) {
-                    let other = Regexp::from_pattern(pattern, ctx);
-                    regexp = Regexp::Concat(Box::new(regexp), Box::new(other));
-                }
-                regexp
+                // concatenate halves, so that the depth of the expression stays small
+                let (left, right) = patterns.split_at(patterns.len() / 2);
+                Regexp::Concat(
+                    Box::new(Regexp::from_patterns(left, ctx)),
+                    Box::new(Regexp::from_patterns(right, ctx)),
+                )
             }
         }
     }
diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index 7ae135d..404dc9b 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -431,77 +431,78 @@ impl CompiledRegexp {
         at_start: bool,
         env: &Environment,
     ) {
-        if list.seen.get(pc) {
-            return;
-        }
-        list.seen.insert(pc);
-        match self.instructions[pc] {
-            Instruction::Jump(target) => {
-                self.add_thread(list, target, capture, sp, input_len, at_start, env)
-            }
-            Instruction::Split(a, b) => {
-                self.add_thread(list, a, capture, sp, input_len, at_start, env);
-                self.add_thread(list, b, capture, sp, input_len, at_start, env);
-            }
-            Instruction::CaptureStart => {
-                self.add_thread(list, pc + 1, (sp, 0), sp, input_len, at_start, env)
+        // The instructions that are still to be followed are kept on the heap, as a path may be longer
+        // than what the stack has room for.
+        let mut pending: SmallVec<[(InstructionIndex, (usize, usize)); 16]> = SmallVec::new();
+        pending.push((pc, capture));
+        while let Some((pc, capture)) = pending.pop() {
+            if list.seen.get(pc) {
+                continue;
             }
-            Instruction::CaptureEnd => {
-                self.add_thread(list, pc + 1, (capture.0, sp), sp, input_len, at_start, env)
-            }
-            Instruction::VariableEqual(var, expected) => {
-                if env.get(var) == Some(&expected) {
-                    self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
+            list.seen.insert(pc);
+            match self.instructions[pc] {
+                Instruction::Jump(target) => pending.push((target, capture)),
+                Instruction::Split(a, b) => {
+                    // the last one that is added is followed first
+                    pending.push((b, capture));
+                    pending.push((a, capture));
                 }
-            }
-            Instruction::NotVariableEqual(var, expected) => {
-                if env.get(var).is_some_and(|&actual| actual != expected) {
-                    self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
+                Instruction::CaptureStart => pending.push((pc + 1, (sp, 0))),
+                Instruction::CaptureEnd => pending.push((pc + 1, (capture.0, sp))),
+                Instruction::VariableEqual(var, expected) => {
+                    if env.get(var) == Some(&expected) {
+                        pending.push((pc + 1, capture));
+                    }
                 }
-            }
-            Instruction::VariableLess(var, limit) => {
-                if env.get(var).is_some_and(|&actual| actual < limit) {
-                    self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
+                Instruction::NotVariableEqual(var, expected) => {
+                    if env.get(var).is_some_and(|&actual| actual != expected) {
+                        pending.push((pc + 1, capture));
+                    }
                 }
-            }
-            Instruction::VariableGreater(var, limit) => {
-                if env.get(var).is_some_and(|&actual| actual > limit) {
-                    self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
+                Instruction::VariableLess(var, limit) => {
+                    if env.get(var).is_some_and(|&actual| actual < limit) {
+                        pending.push((pc + 1, capture));
+                    }
                 }
-            }
-            Instruction::VariableLessEqual(var, limit) => {
-                if env.get(var).is_some_and(|&actual| actual <= limit) {
-                    self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
+                Instruction::VariableGreater(var, limit) => {
+                    if env.get(var).is_some_and(|&actual| actual > limit) {
+                        pending.push((pc + 1, capture));
+                    }
                 }
-            }
-            Instruction::VariableGreaterEqual(var, limit) => {
-                if env.get(var).is_some_and(|&actual| actual >= limit) {
-                    self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
+                Instruction::VariableLessEqual(var, limit) => {
+                    if env.get(var).is_some_and(|&actual| actual <= limit) {
+                        pending.push((pc + 1, capture));
+                    }
                 }
-            }
-            Instruction::AssertEnd => {
-                if sp == input_len {
-                    self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
+                Instruction::VariableGreaterEqual(var, limit) => {
+                    if env.get(var).is_some_and(|&actual| actual >= limit) {
+                        pending.push((pc + 1, capture));
+                    }
                 }
-            }
-            Instruction::AssertMoreInput => {
-                if sp != input_len {
-                    self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
+                Instruction::AssertEnd => {
+                    if sp == input_len {
+                        pending.push((pc + 1, capture));
+                    }
                 }
-            }
-            Instruction::AssertStart => {
-                if at_start && sp == 0 {
-                    self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
+                Instruction::AssertMoreInput => {
+                    if sp != input_len {
+                        pending.push((pc + 1, capture));
+                    }
                 }
-            }
-            Instruction::AssertNotStart => {
-                if !(at_start && sp == 0) {
-                    self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
+                Instruction::AssertStart => {
+                    if at_start && sp == 0 {
+                        pending.push((pc + 1, capture));
+                    }
+                }
+                Instruction::AssertNotStart => {
+                    if !(at_start && sp == 0) {
+                        pending.push((pc + 1, capture));
+                    }
                 }
+                Instruction::Fail => (),
+                // Add a Thread for character consuming instructions. The epsilon closure ends here.
+                _ => list.threads.push(Thread { pc, capture }),
             }
-            Instruction::Fail => (),
-            // Add a Thread for character consuming instructions. The epsilon closure ends here.
-            _ => list.threads.push(Thread { pc, capture }),
         }
     }
 
-- 
2.43.0

