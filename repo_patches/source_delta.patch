From 2e773d319037c04ac6dfba4a44fd05b9361ce9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:32 +0000
Subject: [PATCH 01/18] fix: count nested functions without an 8-bit limit

More than 255 functions nested directly in one function overflowed the
counter, a panic in debug builds and silently wrong operand counts (and
thus evaluation results) in release builds.
---
 src/expr/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index 4b5014e..abf2d16 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -27,7 +27,7 @@ impl Expression {
             parens_index: usize,
             span: std::ops::Range<usize>,
             predicates: SmallVec<[InnerPredicate; 5]>,
-            nest_level: u8,
+            nest_level: usize,
         }
 
         let mut func_stack = SmallVec::<[FuncAndSpan; 5]>::new();
@@ -317,7 +317,7 @@ impl Expression {
                             #[allow(clippy::bool_to_int_with_if)]
                             let num_predicates = top.predicates.len()
                                 + if key.is_some() { 1 } else { 0 }
-                                + top.nest_level as usize;
+                                + top.nest_level;
 
                             let func = match top.func {
                                 Func::All(_) => Func::All(num_predicates),
-- 
2.43.0


From 42380cdeaf1e240142999a8ff643878df1ac2f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:53 +0000
Subject: [PATCH 02/18] fix: reject multiple root predicates when some are
 functions

Functions at the root were not counted, so `all(a), any(b)`, `all(a), b`
and `a, not(b)` were accepted, and evaluated to their last predicate only.
---
 src/expr/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index abf2d16..a0b5dd6 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -348,6 +348,10 @@ impl Expression {
 
                             expr_queue.push(ExprNode::Fn(func));
 
+                            if func_stack.is_empty() {
+                                root_predicate_count += 1;
+                            }
+
                             // This is the only place we go back to the top of the outer loop,
                             // so make sure we correctly record this token
                             last_token = Some(Token::CloseParen);
-- 
2.43.0


From bb149ecc0228bb85466be1756fbd74083a4f7930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:55 +0000
Subject: [PATCH 03/18] fix: reject consecutive commas

A comma directly after another comma, eg `all(a,,b)`, was silently
accepted, which neither rustc nor cargo do.
---
 src/expr/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index a0b5dd6..acbd6fd 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -370,7 +370,12 @@ impl Expression {
                     if matches!(
                         last_token,
                         None | Some(
-                            Token::OpenParen | Token::All | Token::Any | Token::Not | Token::Equals
+                            Token::OpenParen
+                                | Token::All
+                                | Token::Any
+                                | Token::Not
+                                | Token::Equals
+                                | Token::Comma
                         )
                     ) {
                         token_err!(lt.span)
-- 
2.43.0


From f2477c02476dad645777a2ce39daf5bff51e4a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:57 +0000
Subject: [PATCH 04/18] fix: span whole characters in unexpected character
 errors

The span of an unexpected multi-byte character ended inside of it, so
slicing the original text with the error's span panicked.
---
 src/expr/lexer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/expr/lexer.rs b/src/expr/lexer.rs
index 60abc6b..088ba82 100644
--- a/src/expr/lexer.rs
+++ b/src/expr/lexer.rs
@@ -133,12 +133,9 @@ impl<'a> Iterator for Lexer<'a> {
                         other => Some(Ok(Token::Key(other))),
                     }
                 } else {
-                    // clippy tries to help here, but we need
-                    // a Range here, not a RangeInclusive<>
-                    #[allow(clippy::range_plus_one)]
                     Some(Err(ParseError {
                         original: self.original.to_owned(),
-                        span: self.offset..self.offset + 1,
+                        span: self.offset..self.offset + c.len_utf8(),
                         reason: Reason::Unexpected(&["<key>", "all", "any", "not"]),
                     }))
                 }
-- 
2.43.0


From 17ad56381ab3ad24642b7ca48bc3d41a8d423023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:59 +0000
Subject: [PATCH 05/18] fix: report the expected values for an invalid
 target_endian

An unknown endianness was reported as an invalid integer, discarding the
actual reason.
---
 src/expr/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index acbd6fd..5e64176 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -161,10 +161,10 @@ impl Expression {
                         "family" => tp!(Family),
                         "env" => tp!(Env),
                         "endian" => InnerTarget {
-                            which: Which::Endian(val.parse().map_err(|_err| ParseError {
+                            which: Which::Endian(val.parse().map_err(|reason| ParseError {
                                 original: original.to_owned(),
                                 span: vspan,
-                                reason: Reason::InvalidInteger,
+                                reason,
                             })?),
                             span: None,
                         },
-- 
2.43.0


From b00113e869c7d1cb60f556cd963fcecd54797cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:16 +0000
Subject: [PATCH 06/18] fix: reject non-canonical integers in predicate values

`target_pointer_width = "+64"`, `"064"` and the like for
`target_has_atomic` were read as the number and matched targets, while
rustc compares the text and never matches them.
---
 src/expr/parser.rs | 17 ++++++++++++-----
 src/targets.rs     | 13 ++++++-------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index 5e64176..ad5c1f9 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -177,11 +177,18 @@ impl Expression {
                             span: None,
                         },
                         "pointer_width" => InnerTarget {
-                            which: Which::PointerWidth(val.parse().map_err(|_err| ParseError {
-                                original: original.to_owned(),
-                                span: vspan,
-                                reason: Reason::InvalidInteger,
-                            })?),
+                            which: Which::PointerWidth(
+                                // rustc compares the text of the value, so a sign or
+                                // leading zeros would never match any target
+                                val.parse()
+                                    .ok()
+                                    .filter(|width: &u8| width.to_string() == val)
+                                    .ok_or_else(|| ParseError {
+                                        original: original.to_owned(),
+                                        span: vspan,
+                                        reason: Reason::InvalidInteger,
+                                    })?,
+                            ),
                             span: None,
                         },
                         "vendor" => tp!(Vendor),
diff --git a/src/targets.rs b/src/targets.rs
index d107965..f11e80e 100644
--- a/src/targets.rs
+++ b/src/targets.rs
@@ -107,14 +107,13 @@ impl std::str::FromStr for HasAtomic {
     type Err = HasAtomicParseError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if let Ok(size) = s.parse::<u16>() {
-            Ok(Self::IntegerSize(size))
-        } else if s == "ptr" {
-            Ok(HasAtomic::Pointer)
-        } else {
-            Err(HasAtomicParseError {
+        match s.parse::<u16>() {
+            // Signs or leading zeros are not part of any value known to rustc
+            Ok(size) if size.to_string() == s => Ok(Self::IntegerSize(size)),
+            _ if s == "ptr" => Ok(HasAtomic::Pointer),
+            _ => Err(HasAtomicParseError {
                 input: s.to_owned(),
-            })
+            }),
         }
     }
 }
-- 
2.43.0


From f5e6cf123b1966c22ba618dc50a162cb64266689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:40 +0000
Subject: [PATCH 07/18] fix: do not match android triples as target_os =
 "linux"

rustc reports only "android" as the os of android targets, which is also
what the builtin targets say.
---
 src/expr.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index ad17b27..521ba18 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -349,6 +349,12 @@ impl TargetMatcher for target_lexicon::Triple {
                 match os.0.parse::<OperatingSystem>() {
                     Ok(o) => match self.environment {
                         Environment::HermitKernel => os == &targ::Os::hermit,
+                        // rustc only ever reports android as the os for these
+                        Environment::Android | Environment::Androideabi
+                            if self.operating_system == OperatingSystem::Linux =>
+                        {
+                            false
+                        }
                         _ => self.operating_system == o,
                     },
                     Err(_) => {
-- 
2.43.0


From e456c2649e22e83ae50d4e1b0713a1ef18b9e652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 08/18] fix: do not match android triples as target_env = "gnu"

That was how rustc 1.49 reported them, but android targets have no
environment in current releases, nor in the builtin targets.
---
 src/expr.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index 521ba18..8edf452 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -219,14 +219,6 @@ impl TargetMatcher for target_lexicon::Triple {
                                             | Environment::GnuIlp32
                                             | Environment::Gnueabihf
                                             | Environment::GnuLlvm => true,
-                                            // Rust 1.49.0 changed all android targets to have the
-                                            // gnu environment
-                                            Environment::Android | Environment::Androideabi
-                                                if self.operating_system
-                                                    == OperatingSystem::Linux =>
-                                            {
-                                                true
-                                            }
                                             Environment::Kernel => {
                                                 self.operating_system == OperatingSystem::Linux
                                             }
-- 
2.43.0


From 0106b810b620bf8284aa7d42784318c2886bbdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:46 +0000
Subject: [PATCH 09/18] fix: do not match nuttx and rtems triples as target_os
 = "unknown"

They already match their own os, and a target has only one.
---
 src/expr.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index 8edf452..61edf7f 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -347,6 +347,12 @@ impl TargetMatcher for target_lexicon::Triple {
                         {
                             false
                         }
+                        // The os of nuttx and rtems triples is in the vendor field
+                        _ if o == OperatingSystem::Unknown => {
+                            self.operating_system == o
+                                && self.vendor != NUTTX
+                                && self.vendor != RTEMS
+                        }
                         _ => self.operating_system == o,
                     },
                     Err(_) => {
-- 
2.43.0


From 73ac5e7e2fcd203f0ed7bd4bb99dd5af0de2e2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:14 +0000
Subject: [PATCH 10/18] fix: do not match mips r6 triples as target_arch =
 "mips" or "mips64"

---
 src/expr.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index 61edf7f..6fb7571 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -148,6 +148,21 @@ impl TargetMatcher for target_lexicon::Triple {
                 } else {
                     match arch.0.parse::<Architecture>() {
                         Ok(a) => match (self.architecture, a) {
+                            // The r6 variants have their own target_arch
+                            (
+                                Architecture::Mips32(
+                                    Mips32Architecture::Mipsisa32r6
+                                    | Mips32Architecture::Mipsisa32r6el,
+                                ),
+                                _,
+                            )
+                            | (
+                                Architecture::Mips64(
+                                    Mips64Architecture::Mipsisa64r6
+                                    | Mips64Architecture::Mipsisa64r6el,
+                                ),
+                                _,
+                            ) => false,
                             (Architecture::Aarch64(_), Architecture::Aarch64(_))
                             | (Architecture::Mips32(_), Architecture::Mips32(_))
                             | (Architecture::Mips64(_), Architecture::Mips64(_))
-- 
2.43.0


From d7c53022065d095cf18c855a05f7e32ed7ce6988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:17 +0000
Subject: [PATCH 11/18] fix: do not match newlib triples as target_env = ""

---
 src/expr.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index 6fb7571..07c7537 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -208,18 +208,24 @@ impl TargetMatcher for target_lexicon::Triple {
                     OperatingSystem::WasiP2 => env == &targ::Env::p2,
                     OperatingSystem::Wasi => env.0.is_empty() || env == &targ::Env::p1,
                     _ => {
+                        let is_newlib = matches!(
+                            self.operating_system,
+                            OperatingSystem::Horizon | OperatingSystem::Espidf
+                        ) || self.vendor == RTEMS;
+
                         if env.0.is_empty() {
-                            matches!(
-                                self.environment,
-                                Environment::Unknown
-                                    | Environment::Android
-                                    | Environment::Softfloat
-                                    | Environment::Androideabi
-                                    | Environment::Eabi
-                                    | Environment::Eabihf
-                                    | Environment::Sim
-                                    | Environment::None
-                            )
+                            !is_newlib
+                                && matches!(
+                                    self.environment,
+                                    Environment::Unknown
+                                        | Environment::Android
+                                        | Environment::Softfloat
+                                        | Environment::Androideabi
+                                        | Environment::Eabi
+                                        | Environment::Eabihf
+                                        | Environment::Sim
+                                        | Environment::None
+                                )
                         } else {
                             match env.0.parse::<Environment>() {
                                 Ok(e) => {
@@ -255,10 +261,7 @@ impl TargetMatcher for target_lexicon::Triple {
                                                 | Environment::Uclibceabihf
                                         )
                                     } else if env == &targ::Env::newlib {
-                                        matches!(
-                                            self.operating_system,
-                                            OperatingSystem::Horizon | OperatingSystem::Espidf
-                                        ) || self.vendor == RTEMS
+                                        is_newlib
                                     } else {
                                         self.environment == e
                                     }
-- 
2.43.0


From 922dd0f4f38c39d6291c20ab596f503687835597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:20 +0000
Subject: [PATCH 12/18] fix: do not match esp triples as target_vendor =
 "unknown"

---
 src/expr.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index 07c7537..e99803c 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -403,8 +403,7 @@ impl TargetMatcher for target_lexicon::Triple {
                         true
                     } else if let target_lexicon::Vendor::Custom(custom) = &self.vendor {
                         matches!(custom.as_str(), "esp" | "esp32" | "esp32s2" | "esp32s3")
-                            && (v == target_lexicon::Vendor::Espressif
-                                || v == target_lexicon::Vendor::Unknown)
+                            && v == target_lexicon::Vendor::Espressif
                     } else {
                         false
                     }
-- 
2.43.0


From 7903c2bb869c9a7a3e93345cb77ec0adc538a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:21 +0000
Subject: [PATCH 13/18] fix: match operating systems regardless of their
 deployment target

---
 src/expr.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index e99803c..893a1b2 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -371,7 +371,17 @@ impl TargetMatcher for target_lexicon::Triple {
                                 && self.vendor != NUTTX
                                 && self.vendor != RTEMS
                         }
-                        _ => self.operating_system == o,
+                        // The deployment target is not part of the OS rustc reports
+                        _ => match (self.operating_system, o) {
+                            (OperatingSystem::Darwin(_), OperatingSystem::Darwin(None))
+                            | (OperatingSystem::IOS(_), OperatingSystem::IOS(None))
+                            | (OperatingSystem::MacOSX(_), OperatingSystem::MacOSX(None))
+                            | (OperatingSystem::TvOS(_), OperatingSystem::TvOS(None))
+                            | (OperatingSystem::VisionOS(_), OperatingSystem::VisionOS(None))
+                            | (OperatingSystem::WatchOS(_), OperatingSystem::WatchOS(None))
+                            | (OperatingSystem::XROS(_), OperatingSystem::XROS(None)) => true,
+                            (a, b) => a == b,
+                        },
                     },
                     Err(_) => {
                         // Handle special case for darwin/macos, where the triple is
-- 
2.43.0


From 68995fddd59c70c99061b779e8b575b49c30e6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:51 +0000
Subject: [PATCH 14/18] fix: read the version of compilers which report no
 commit

---
 update/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/update/src/main.rs b/update/src/main.rs
index 166b84c..5fa8f01 100644
--- a/update/src/main.rs
+++ b/update/src/main.rs
@@ -441,7 +441,7 @@ fn read_rustc_version() -> Result<(String, String), String> {
 
     let version = String::from_utf8(output.stdout).unwrap();
 
-    Ok((version.splitn(3, ' ').nth(1).unwrap().into(), rustc))
+    Ok((version.split_whitespace().nth(1).unwrap().into(), rustc))
 }
 
 fn assemble_readme(rustc_version: &str) -> Result<String, String> {
-- 
2.43.0


From da2232b73d4b3fa411b8be6e6460165730e81a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:27 +0000
Subject: [PATCH 15/18] fix: end the tokens of a text after its first error

---
 src/expr/lexer.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/expr/lexer.rs b/src/expr/lexer.rs
index 088ba82..8a1cd3e 100644
--- a/src/expr/lexer.rs
+++ b/src/expr/lexer.rs
@@ -141,19 +141,24 @@ impl<'a> Iterator for Lexer<'a> {
                 }
             }
         }
-        .map(|tok| {
-            tok.map(|tok| {
+        .map(|tok| match tok {
+            Ok(tok) => {
                 let len = tok.len();
 
                 let start = self.offset;
                 self.inner = &self.inner[len..];
                 self.offset += len;
 
-                LexerToken {
+                Ok(LexerToken {
                     token: tok,
                     span: start..self.offset,
-                }
-            })
+                })
+            }
+            Err(err) => {
+                // There are no tokens after an error
+                self.inner = "";
+                Err(err)
+            }
         })
     }
 }
-- 
2.43.0


From 2ce7513f07daed17684acf5fc154c7ddeec26127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:05 +0000
Subject: [PATCH 16/18] fix: name target_abi among the expected target keys

---
 src/expr/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index ad5c1f9..6609c2d 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -197,6 +197,7 @@ impl Expression {
                                 original: original.to_owned(),
                                 span,
                                 reason: Reason::Unexpected(&[
+                                    "target_abi",
                                     "target_arch",
                                     "target_feature",
                                     "target_os",
-- 
2.43.0


From 6bd2de5bd71f1e35c82690a09f0b6749b3b38f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 17/18] fix: leave the target table alone when it cannot be
 formatted

---
 update/src/main.rs | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/update/src/main.rs b/update/src/main.rs
index 5fa8f01..1bcbc88 100644
--- a/update/src/main.rs
+++ b/update/src/main.rs
@@ -1,4 +1,8 @@
-use std::{fmt::Write, process::Command};
+use std::{
+    fmt::Write as _,
+    io::Write as _,
+    process::{Command, Stdio},
+};
 
 const BUILTINS: &str = "src/targets/builtins.rs";
 const README: &str = "README.md";
@@ -461,18 +465,37 @@ fn assemble_readme(rustc_version: &str) -> Result<String, String> {
     Ok(replaced)
 }
 
-fn finalize(builtins: String, readme: String) -> Result<(), String> {
-    std::fs::write(BUILTINS, builtins).map_err(|e| format!("failed to write {BUILTINS}: {e}"))?;
+/// Formats the source before anything is written, so that a failure leaves the
+/// previous contents in place.
+fn format(source: &str) -> Result<String, String> {
+    let mut rustfmt = Command::new("rustfmt")
+        .args(&["--edition", "2018"])
+        .stdin(Stdio::piped())
+        .stdout(Stdio::piped())
+        .spawn()
+        .map_err(|e| format!("failed to run rustfmt: {e}"))?;
 
-    let status = Command::new("rustfmt")
-        .args(&["--edition", "2018", "src/targets/builtins.rs"])
-        .status()
+    // rustfmt reads all of its input before it prints anything. If it doesn't,
+    // its status tells why.
+    let written = rustfmt.stdin.take().unwrap().write_all(source.as_bytes());
+
+    let output = rustfmt
+        .wait_with_output()
         .map_err(|e| format!("failed to run rustfmt: {e}"))?;
 
-    if !status.success() {
-        return Err(format!("failed to successfully format: {status}"));
+    if !output.status.success() {
+        return Err(format!("failed to successfully format: {}", output.status));
     }
 
+    written.map_err(|e| format!("failed to pass {BUILTINS} to rustfmt: {e}"))?;
+
+    String::from_utf8(output.stdout).map_err(|e| format!("unable to parse rustfmt output: {e}"))
+}
+
+fn finalize(builtins: String, readme: String) -> Result<(), String> {
+    let builtins = format(&builtins)?;
+
+    std::fs::write(BUILTINS, builtins).map_err(|e| format!("failed to write {BUILTINS}: {e}"))?;
     std::fs::write(README, readme).map_err(|e| format!("failed to write {README}: {e}"))?;
     Ok(())
 }
-- 
2.43.0


From cf3c2caed98d394f1a15739b0d3902730aaa236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:06 +0000
Subject: [PATCH 18/18] fix: leave no trailing whitespace in the generated
 target table

rustfmt fails over it if it cannot format the line, as with names too
long for one line.
---
 update/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/update/src/main.rs b/update/src/main.rs
index 1bcbc88..7d3be68 100644
--- a/update/src/main.rs
+++ b/update/src/main.rs
@@ -397,7 +397,7 @@ fn write_group_impls<T: GroupElement>(
         write!(out, "&[").unwrap();
         for thing in group {
             let value_expr = thing.value_expr();
-            writeln!(out, "{element_type}::{value_expr}, ").unwrap();
+            writeln!(out, "{element_type}::{value_expr},").unwrap();
         }
         writeln!(out, "];").unwrap();
     }
-- 
2.43.0

