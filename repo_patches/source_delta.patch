From 7e7c9a2fbf00defb0f1c1d4912bbadae21356ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:13 +0000
Subject: [PATCH 01/30] fix: keep the statements preceding a top-level return

The parser loop replaced the block parsed so far each time parse_block stopped
at a return, so a misplaced top-level return silently dropped every preceding
statement (itself included) instead of being reported.
---
 src/syntax/parser/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/syntax/parser/mod.rs b/src/syntax/parser/mod.rs
index 0ee6170..8d30e4e 100644
--- a/src/syntax/parser/mod.rs
+++ b/src/syntax/parser/mod.rs
@@ -193,8 +193,13 @@ where
 {
 	/// Parse the input, producing a top-level block.
 	pub fn parse(mut self) -> ast::Block {
+		let mut statements = Vec::new();
+
 		loop {
-			let block = self.parse_block();
+			// A block ends after a return, even if there are more statements to parse.
+			if let ast::Block::Block(block) = self.parse_block() {
+				statements.extend(block.into_vec());
+			}
 
 			match self.token.take() {
 				// If the token is a block terminator, the parse_block won't parse anything.
@@ -206,7 +211,7 @@ where
 				}
 
 				// Stop on EOF.
-				None => return block,
+				None => return statements.into_boxed_slice().into(),
 
 				token => {
 					self.token = token;
-- 
2.43.0


From dfa9171f3b184c1e374ba271a4eb9955e6337efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:14 +0000
Subject: [PATCH 02/30] fix: check duplicate dict keys per dict literal

The set of seen keys was shared with dict literals nested in values, so valid
programs like @[a: @[b: 1], b: 2] were rejected, and duplicates following a
nested literal went unnoticed.
---
 src/semantic/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/semantic/mod.rs b/src/semantic/mod.rs
index b702d78..cf8a83d 100644
--- a/src/semantic/mod.rs
+++ b/src/semantic/mod.rs
@@ -456,7 +456,8 @@ impl<'a> Analyzer<'a> {
 
 			// Dict.
 			ast::Literal::Dict(items) => {
-				self.dict_keys.clear();
+				// Nested dict literals must not interfere with the keys of this one.
+				let outer_keys = std::mem::take(self.dict_keys);
 
 				let items = self.analyze_items(
 					|analyzer, ((symbol, pos), expr)| {
@@ -477,9 +478,11 @@ impl<'a> Analyzer<'a> {
 						Some((symbol, expr))
 					},
 					items.into_vec(), // Use vec's owned iterator.
-				)?;
+				);
+
+				*self.dict_keys = outer_keys;
 
-				Some(Literal::Dict(items))
+				Some(Literal::Dict(items?))
 			}
 
 			// Function.
-- 
2.43.0


From 31036b7e52830948004b7e5b3a60556c40541910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:38 +0000
Subject: [PATCH 03/30] fix: pass empty quoted arguments to commands

'' and "" produced an argument without parts, which expanded to no argument
at all (and made A='' cmd and << '' panic).
---
 src/syntax/parser/command.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/syntax/parser/command.rs b/src/syntax/parser/command.rs
index 10da9ef..99ddcdb 100644
--- a/src/syntax/parser/command.rs
+++ b/src/syntax/parser/command.rs
@@ -363,6 +363,11 @@ where
 		// Push the trailing literal, if any.
 		push_literal(&mut literal, &mut parts);
 
+		// Empty quotes are an empty argument, not a missing one.
+		if parts.is_empty() {
+			parts.push(ast::ArgPart::Unit(ast::ArgUnit::Literal(Default::default())));
+		}
+
 		ast::Argument {
 			parts: parts.into(),
 			pos
-- 
2.43.0


From 3dd1ef3669bb87a1050429e7f17a508877cbf574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:39 +0000
Subject: [PATCH 04/30] fix: drop the globals of a module that panics while
 being imported

Runtime::eval left the module's slots in the stack when it panicked, so after
catching the panic every variable of the importing code resolved to a wrong slot.
---
 src/runtime/mod.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 2b0cd8a..41f4e8a 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -103,15 +103,18 @@ impl Runtime {
 		self.stack.store(mem::SlotIx(0), self.std.copy());
 
 		// Execute the program.
-		let value = match self.eval_block(&program.statements)? {
-			Flow::Regular(value) => value,
-			flow => panic!("invalid flow in root state: {:#?}", flow)
-		};
+		let result = self.eval_block(&program.statements);
 
-		// Drop global variables.
+		// Drop global variables, even when panicking, as the caller may catch the panic.
 		self.stack.shrink(slots);
 
 		debug_assert_eq!(self.stack.len(), initial_stack_len);
+
+		let value = match result? {
+			Flow::Regular(value) => value,
+			flow => panic!("invalid flow in root state: {:#?}", flow)
+		};
+
 		debug_assert_eq!(self.arguments.len(), initial_args_len);
 
 		Ok(value)
-- 
2.43.0


From b191c031175ceed01fb26a0b85981b41a403b959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:59 +0000
Subject: [PATCH 05/30] fix: hash negative zero like zero

0.0 == -0.0, but their hashes differed, so equal floats were different dict keys.
---
 src/runtime/value/float.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/value/float.rs b/src/runtime/value/float.rs
index 604138e..05193d7 100644
--- a/src/runtime/value/float.rs
+++ b/src/runtime/value/float.rs
@@ -67,6 +67,8 @@ impl Hash for Float {
 		let float =
 			if self.is_nan() {
 				f64::NAN // Make sure that the hash equals for all NaN values.
+			} else if self.0 == 0.0 {
+				0.0 // Negative zero equals zero, so the hash must be the same.
 			} else {
 				self.0
 			};
-- 
2.43.0


From 3a17c1d894629ba3e2dff8194ee455d5514f3d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:00 +0000
Subject: [PATCH 06/30] fix: raise a panic when negating the minimum int

Unary minus was the only unchecked int operation: it crashed the interpreter in
debug builds, and wrapped around in release builds.
---
 src/runtime/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 41f4e8a..09c215b 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -667,7 +667,10 @@ impl Runtime {
 
 		match (op, value) {
 			(Minus, Value::Float(ref f)) => Ok(Flow::Regular((-f).into())),
-			(Minus, Value::Int(i)) => Ok(Flow::Regular((-i).into())),
+			(Minus, Value::Int(i)) => i
+				.checked_neg()
+				.map(|i| Flow::Regular(i.into()))
+				.ok_or_else(|| Panic::integer_overflow(operand_pos)),
 			(Minus, value) => Err(Panic::type_error(value, "int or float", operand_pos)),
 
 			(Not, Value::Bool(b)) => Ok(Flow::Regular((!b).into())),
-- 
2.43.0


From 400e8b62af40d1c466edb5ccedf25aef0fe89bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:01 +0000
Subject: [PATCH 07/30] fix: don't overflow in std.range near the limits of int

The iterator computes the next number before knowing whether it is needed,
which crashed the interpreter when that number exceeds the int type.
---
 src/runtime/lib/range.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/runtime/lib/range.rs b/src/runtime/lib/range.rs
index ba229d2..64b92ee 100644
--- a/src/runtime/lib/range.rs
+++ b/src/runtime/lib/range.rs
@@ -7,6 +7,7 @@ use super::{
 	keys,
 	CallContext,
 	Dict,
+	Float,
 	RustFun,
 	NativeFun,
 	Panic,
@@ -52,6 +53,28 @@ impl NativeFun for Range {
 }
 
 
+/// The numeric types that can be iterated by a range.
+trait Step {
+	/// The next number in the range. This must not overflow, as the range may end at the
+	/// boundary of the type.
+	fn advance(&self, step: &Self) -> Self;
+}
+
+
+impl Step for i64 {
+	fn advance(&self, step: &Self) -> Self {
+		self.saturating_add(*step)
+	}
+}
+
+
+impl Step for Float {
+	fn advance(&self, step: &Self) -> Self {
+		self + step
+	}
+}
+
+
 #[derive(Trace, Finalize)]
 struct RangeImpl<T: 'static> {
 	from: GcCell<T>,
@@ -62,7 +85,7 @@ struct RangeImpl<T: 'static> {
 impl<T> NativeFun for RangeImpl<T>
 where
 	T: Trace + Finalize + 'static,
-	T: Clone + Default + Ord + std::ops::Add<Output = T>,
+	T: Clone + Default + Ord + Step,
 	T: Into<Value>,
 {
 	fn name(&self) -> &'static str { "std.range<impl>" }
@@ -87,7 +110,7 @@ where
 			None
 		} else {
 			let value = from.clone();
-			*from = from.clone() + self.step.clone();
+			*from = from.advance(&self.step);
 			Some(value)
 		};
 
-- 
2.43.0


From 7f77d5f300a9cf8eb961a70955fa869da534473b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:21 +0000
Subject: [PATCH 08/30] fix: don't overflow in std.substr with negative indexes

Negative indexes were cast to huge unsigned ones, and adding those overflowed,
crashing the interpreter. As for any other out of bounds index, the result is nil.
---
 src/runtime/lib/substr.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/runtime/lib/substr.rs b/src/runtime/lib/substr.rs
index ea474d6..db04693 100644
--- a/src/runtime/lib/substr.rs
+++ b/src/runtime/lib/substr.rs
@@ -1,3 +1,5 @@
+use std::convert::TryFrom;
+
 use gc::{Finalize, Trace};
 
 use super::{
@@ -17,9 +19,12 @@ struct Substr;
 
 impl Substr {
     fn substr(string: &[u8], start: i64, len: i64) -> Result<Value, Error> {
-        let start = start as usize;
-        let end = start + (len as usize);
-        let substr = string.get(start..end);
+        let start = usize::try_from(start).ok();
+        let len = usize::try_from(len).ok();
+        // There's no such substring when any of the indexes is negative or overflows.
+        let substr = start
+            .zip(len)
+            .and_then(|(start, len)| string.get(start..start.checked_add(len)?));
         Ok(substr.into())
     }
 }
-- 
2.43.0


From 9e98e94d2928a8a6d70dfeaf3b3a049ce8ba41bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:22 +0000
Subject: [PATCH 09/30] fix: raise a panic for an empty range in std.randint

The random generator aborts the interpreter when sampling from an empty range.
Also blame the right argument when the second one is not an int.
---
 src/runtime/lib/rand.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/lib/rand.rs b/src/runtime/lib/rand.rs
index 226b806..b00485e 100644
--- a/src/runtime/lib/rand.rs
+++ b/src/runtime/lib/rand.rs
@@ -51,9 +51,13 @@ impl NativeFun for RandInt {
 
 	fn call(&self, context: CallContext) -> Result<Value, Panic> {
 		match context.args() {
+			[ Value::Int(m), n @ Value::Int(upper) ] if m > upper => Err(
+				Panic::value_error(n.copy(), "upper bound not lower than the lower bound", context.pos)
+			),
 			[ Value::Int(m), Value::Int(n) ] => Ok(Value::Int(
 				RNG.with(|rng| rng.borrow_mut().gen_range(*m..=*n))
 			)),
+			[ Value::Int(_), other ] => Err(Panic::type_error(other.copy(), "int", context.pos)),
 			[ other, _ ] => Err(Panic::type_error(other.copy(), "int", context.pos)),
 			args => Err(Panic::invalid_args(args.len() as u32, 2, context.pos))
 		}
-- 
2.43.0


From 28ea36bb1255869f13a0898d6d105f23568acaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:53 +0000
Subject: [PATCH 10/30] fix: don't deadlock on literal inputs larger than the
 pipe capacity

The whole << input was written to the pipe before spawning the command, so
inputs of 64 KiB or more blocked forever.
---
 src/runtime/command/exec/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index c31304d..de1fe44 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -8,6 +8,7 @@ use std::{
 	io::{self, Write},
 	os::unix::{prelude::{FromRawFd, OsStrExt, ExitStatusExt, IntoRawFd}, process::CommandExt},
 	process,
+	thread,
 };
 
 use crate::io::FileDescriptor;
@@ -347,11 +348,12 @@ impl BasicCommand {
 							let (reader, mut writer) = os_pipe::pipe()
 								.map_err(|error| Error::io(error, pos.copy()))?;
 
-							writer.write_all(source.as_bytes())
-								.map_err(|error| Error::io(error, pos.copy()))?;
+							let mut input = source.as_bytes().to_owned();
+							input.push(b'\n');
 
-							writer.write_all(b"\n")
-								.map_err(|error| Error::io(error, pos.copy()))?;
+							// The input may exceed the pipe capacity, and there's no one reading it yet, so we
+							// can't block here. Write errors mean that the command has stopped reading.
+							thread::spawn(move || writer.write_all(&input));
 
 							reader
 						} else {
-- 
2.43.0


From 41a9f2791ece5712cbc2190d481317d94b65d9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:15 +0000
Subject: [PATCH 11/30] fix: flush stdout before running commands

Text printed without a trailing newline showed up after the output of the
commands that follow it, and was lost when those replace the process (exec).
---
 src/runtime/command/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/runtime/command/mod.rs b/src/runtime/command/mod.rs
index f630e89..4eac9d9 100644
--- a/src/runtime/command/mod.rs
+++ b/src/runtime/command/mod.rs
@@ -6,7 +6,7 @@ use std::{
 	collections::HashMap,
 	os::unix::{ffi::OsStrExt, prelude::OsStringExt},
 	path::PathBuf,
-	ops::DerefMut, io::Read, ffi::{OsStr, OsString}, thread
+	ops::DerefMut, io::{Read, Write}, ffi::{OsStr, OsString}, thread
 };
 
 use super::{
@@ -29,6 +29,12 @@ impl Runtime {
 	) -> Result<Value, Panic> {
 		let command_block = self.build_command_block(&block.head, &block.tail)?;
 
+		// Commands share our stdout, so whatever was printed so far must come first. This is
+		// also the last chance to write it if the command replaces the current process.
+		std::io::stdout()
+			.flush()
+			.map_err(|error| Panic::io(error, pos.copy()))?;
+
 		match block.kind {
 			program::CommandBlockKind::Synchronous => {
 				command_block
-- 
2.43.0


From 4f9b893e1cd4114d13c2a847b5be6529d24c9ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:45 +0000
Subject: [PATCH 12/30] fix: a command that can't be executed is a failed
 command

An unknown program or an invalid redirection aborted the whole block, ignoring
the ? operator, discarding the errors of the preceding commands, and leaving the
other commands of the pipeline running without being waited for.
---
 src/runtime/command/exec/mod.rs | 53 ++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index de1fe44..36be454 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -33,17 +33,21 @@ pub struct ErrorStatus {
 
 
 impl ErrorStatus {
+	/// The status of a command that could not be executed.
+	fn io(error: io::Error, pos: SourcePos) -> Self {
+		Self {
+			description: error.to_string(),
+			status: IO_ERROR_STATUS,
+			pos,
+		}
+	}
+
+
 	/// Wait a child process, and return the status.
 	fn wait_child(mut child: Child) -> Option<Self> {
 		let status = match child.process.wait() {
 			Ok(status) => status,
-			Err(error) => return Some(
-				Self {
-					description: error.to_string(),
-					status: IO_ERROR_STATUS,
-					pos: child.pos,
-				}
-			)
+			Err(error) => return Some(Self::io(error, child.pos)),
 		};
 
 		let code = status
@@ -278,6 +282,17 @@ pub struct BasicCommand {
 
 
 impl BasicCommand {
+	/// Same as exec, except that a command that can't be executed is not an error for the
+	/// whole block, but just a command that has failed.
+	pub fn start(self, stdio: Stdio) -> Result<Result<Child, ErrorStatus>, Error> {
+		match self.exec(stdio) {
+			Ok(child) => Ok(Ok(child)),
+			Err(Error::Io { error, pos }) => Ok(Err(ErrorStatus::io(error, pos))),
+			Err(panic) => Err(panic),
+		}
+	}
+
+
 	pub fn exec(self, stdio: Stdio) -> Result<Child, Error> {
 		let pos = self.pos.copy();
 
@@ -471,7 +486,11 @@ impl Command {
 	) -> Result<CommandExec, Error> {
 		match self {
 			Command::Builtin { program, arguments, abort_on_error, pos } => {
-				let error = program.exec(arguments, pos)?;
+				let error = match program.exec(arguments, pos) {
+					Ok(error) => error,
+					Err(Error::Io { error, pos }) => Some(ErrorStatus::io(error, pos)),
+					Err(panic) => return Err(panic),
+				};
 				let abort = abort_on_error && error.is_some();
 				Ok(
 					CommandExec {
@@ -492,7 +511,9 @@ impl Command {
 					let (pipe_reader, pipe_writer) = os_pipe::pipe()
 						.map_err(|error| Error::io(error, cmd.pos.copy()))?;
 
-					let child = cmd.exec(
+					let pos = cmd.pos.copy();
+
+					let child = cmd.start(
 						Stdio {
 							stdin: pipe_reader,
 							stdout: last_stdout,
@@ -502,7 +523,7 @@ impl Command {
 
 					last_stdout = pipe_writer;
 					last_stderr = os_pipe::dup_stderr()
-						.map_err(|error| Error::io(error, child.pos.copy()))?;
+						.map_err(|error| Error::io(error, pos))?;
 
 					tail_children.push((child, child_abort_on_error));
 				}
@@ -512,7 +533,7 @@ impl Command {
 				let stdin = os_pipe::dup_stdin()
 					.map_err(|error| Error::io(error, head.pos.copy()))?;
 
-				let head_child = head.exec(
+				let head_child = head.start(
 					Stdio {
 						stdin,
 						stdout: last_stdout,
@@ -524,14 +545,14 @@ impl Command {
 				let mut errors = Vec::new();
 
 				// Wait on head command.
-				if let Some(error) = ErrorStatus::wait_child(head_child) {
+				if let Some(error) = head_child.map_or_else(Some, ErrorStatus::wait_child) {
 					abort |= head_abort_on_error;
 					errors.push(error);
 				}
 
 				// Wait on tail commands.
 				for (child, abort_on_error) in tail_children.into_iter().rev() {
-					if let Some(error) = ErrorStatus::wait_child(child) {
+					if let Some(error) = child.map_or_else(Some, ErrorStatus::wait_child) {
 						abort |= abort_on_error;
 						errors.push(error);
 					}
@@ -574,11 +595,7 @@ impl Block {
 			Ok(status) => Ok(status),
 			Err(Error::Panic(panic)) => Err(panic),
 			Err(Error::Io { error, pos }) => {
-				let error = ErrorStatus {
-					description: error.to_string(),
-					status: IO_ERROR_STATUS,
-					pos,
-				};
+				let error = ErrorStatus::io(error, pos);
 
 				Ok(Box::new([PipelineErrors::from(error)]))
 			},
-- 
2.43.0


From 83613b0fb380ba15cee5c1bd921a9a9b2cb89ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:07 +0000
Subject: [PATCH 13/30] fix: report unsupported expansions as lexical errors

An unquoted [ or { in a command argument crashed the interpreter (todo!())
instead of being reported.
---
 src/syntax/lexer/automata/argument.rs  |  8 ++++++++
 src/syntax/lexer/automata/expansion.rs | 12 ++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/syntax/lexer/automata/argument.rs b/src/syntax/lexer/automata/argument.rs
index 94df876..ec1f9b0 100644
--- a/src/syntax/lexer/automata/argument.rs
+++ b/src/syntax/lexer/automata/argument.rs
@@ -635,6 +635,10 @@ impl ExpansionContext for Argument {
 		Transition::rollback(checkpoint, Word::from(self))
 	}
 
+	fn error(self, error: Error) -> Transition {
+		Transition::error(self, error)
+	}
+
 	fn is_expansion_word(value: u8) -> bool {
 		Self::is_word(value)
 	}
@@ -662,6 +666,10 @@ impl ExpansionContext for Word<Argument> {
 		Transition::rollback(checkpoint, self)
 	}
 
+	fn error(self, error: Error) -> Transition {
+		Transition::error(self, error)
+	}
+
 	fn is_expansion_word(value: u8) -> bool {
 		Argument::is_word(value)
 	}
diff --git a/src/syntax/lexer/automata/expansion.rs b/src/syntax/lexer/automata/expansion.rs
index 14eed91..c600a6b 100644
--- a/src/syntax/lexer/automata/expansion.rs
+++ b/src/syntax/lexer/automata/expansion.rs
@@ -4,6 +4,7 @@ use super::{
 	ArgExpansion,
 	Cursor,
 	Checkpoint,
+	Error,
 	State,
 	Transition,
 };
@@ -20,6 +21,8 @@ pub(super) trait ExpansionContext {
 	/// The transition to make when no expansion could be parsed.
 	/// Yield and rollback to the given checkpoint.
 	fn rollback(self, checkpoint: Checkpoint) -> Transition;
+	/// The transition to make when the expansion is invalid.
+	fn error(self, error: Error) -> Transition;
 	/// Check if a character may be consumed inside expansions.
 	fn is_expansion_word(value: u8) -> bool;
 }
@@ -83,12 +86,9 @@ where
 				self.context.produce(ArgExpansion::Percent)
 			}
 
-			Some(b'[') => {
-				todo!() // char class.
-			}
-
-			Some(b'{') => {
-				todo!() // range, collection
+			// Char class, range and collection are not supported yet.
+			Some(c @ b'[') | Some(c @ b'{') => {
+				self.context.error(Error::unexpected(c, cursor.pos()))
 			}
 
 			// Failed to parse expansion.
-- 
2.43.0


From d38e46079f1e1fd2081cf8e266a8e9ea3372201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:08 +0000
Subject: [PATCH 14/30] fix: don't crash on the alias builtin

It is not implemented yet, and reached a todo!(), crashing the interpreter.
---
 src/runtime/command/exec/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index 36be454..d6265de 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -173,7 +173,9 @@ impl Builtin {
 		let mut args = Self::resolve_args(arguments, pos.copy())?;
 
 		match self {
-			Self::Alias => todo!(),
+			Self::Alias => Err(
+				io_error(io::Error::new(io::ErrorKind::Unsupported, "alias is not supported yet"))
+			),
 
 			Self::Cd => {
 				let dir = args
-- 
2.43.0


From e949e884412f927bbd2ee6c0252fd53a92bfd3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:17 +0000
Subject: [PATCH 15/30] fix: comparing a recursive function with itself must
 terminate

---
 src/runtime/value/function.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/value/function.rs b/src/runtime/value/function.rs
index 166ffcf..f19c5d1 100644
--- a/src/runtime/value/function.rs
+++ b/src/runtime/value/function.rs
@@ -111,7 +111,9 @@ impl PartialEq for HushFun {
 		// As the functions are defined in the source code, two functions can't share the same
 		// body.
 		std::ptr::eq(self.body, other.body)
-			&& self.context == other.context
+			// Recursive functions capture themselves, so we can't always compare the contexts by
+			// value.
+			&& (Gc::ptr_eq(&self.context, &other.context) || self.context == other.context)
 	}
 }
 
-- 
2.43.0


From 5de7f326f052a3bf7ca37b0d46b3f4f95af52631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:18 +0000
Subject: [PATCH 16/30] fix: std.export must report an empty key as an invalid
 key

---
 src/runtime/lib/env.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/lib/env.rs b/src/runtime/lib/env.rs
index ba71061..5c89fd8 100644
--- a/src/runtime/lib/env.rs
+++ b/src/runtime/lib/env.rs
@@ -45,7 +45,7 @@ impl NativeFun for Export {
 		match context.args() {
 			[ k @ Value::String(ref key), v @ Value::String(ref value) ] => {
 				let ret = match () {
-					() if key.contains(b'=') || key.contains(b'\0') => {
+					() if key.is_empty() || key.contains(b'=') || key.contains(b'\0') => {
 						Error::new("invalid export key".into(), k.copy()).into()
 					}
 
-- 
2.43.0


From cd45f4d6bf80ea5c3dbf2c2e38f97296834b6942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:37 +0000
Subject: [PATCH 17/30] fix: capture the standard error of every pipeline stage

In a capturing block only the last command of a pipeline had its stderr
captured, that of the others leaked to the shell's own stderr.
---
 src/runtime/command/exec/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index d6265de..d6a2f2b 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -504,7 +504,6 @@ impl Command {
 
 			Command::External { head, tail } => {
 				let mut last_stdout = stdout;
-				let mut last_stderr = stderr;
 
 				let mut tail_children = Vec::new();
 				for cmd in tail.into_vec().into_iter().rev() {
@@ -513,19 +512,19 @@ impl Command {
 					let (pipe_reader, pipe_writer) = os_pipe::pipe()
 						.map_err(|error| Error::io(error, cmd.pos.copy()))?;
 
-					let pos = cmd.pos.copy();
+					// All commands in the pipeline share the block's stderr.
+					let stderr = stderr.try_clone()
+						.map_err(|error| Error::io(error, cmd.pos.copy()))?;
 
 					let child = cmd.start(
 						Stdio {
 							stdin: pipe_reader,
 							stdout: last_stdout,
-							stderr: last_stderr,
+							stderr,
 						}
 					)?;
 
 					last_stdout = pipe_writer;
-					last_stderr = os_pipe::dup_stderr()
-						.map_err(|error| Error::io(error, pos))?;
 
 					tail_children.push((child, child_abort_on_error));
 				}
@@ -539,7 +538,7 @@ impl Command {
 					Stdio {
 						stdin,
 						stdout: last_stdout,
-						stderr: last_stderr,
+						stderr,
 					}
 				)?;
 
-- 
2.43.0


From d692ccacd006132b1e8b2c463341c8d451a33c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:44 +0000
Subject: [PATCH 18/30] fix: wait for the started commands of a pipeline that
 can't be started as a whole

---
 src/runtime/command/exec/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index d6a2f2b..d046ece 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -47,7 +47,7 @@ impl ErrorStatus {
 	fn wait_child(mut child: Child) -> Option<Self> {
 		let status = match child.process.wait() {
 			Ok(status) => status,
-			Err(error) => return Some(Self::io(error, child.pos)),
+			Err(error) => return Some(Self::io(error, child.pos.copy())),
 		};
 
 		let code = status
@@ -68,7 +68,7 @@ impl ErrorStatus {
 				Self {
 					description: "command returned non-zero".into(),
 					status: code,
-					pos: child.pos,
+					pos: child.pos.copy(),
 				}
 			)
 		}
@@ -450,6 +450,14 @@ pub struct Child {
 }
 
 
+impl Drop for Child {
+	/// A child that has not been waited would become a zombie.
+	fn drop(&mut self) {
+		let _ = self.process.wait();
+	}
+}
+
+
 #[derive(Debug)]
 pub struct CommandExec {
 	pub errors: PipelineErrors,
@@ -503,9 +511,10 @@ impl Command {
 			}
 
 			Command::External { head, tail } => {
+				// When bailing out, the children are waited after dropping the pipe they're reading from.
+				let mut tail_children = Vec::new();
 				let mut last_stdout = stdout;
 
-				let mut tail_children = Vec::new();
 				for cmd in tail.into_vec().into_iter().rev() {
 					let child_abort_on_error = cmd.abort_on_error;
 
-- 
2.43.0


From 3742fb3312257375e4364803a20219ec801b6b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:12 +0000
Subject: [PATCH 19/30] fix: keep ignoring SIGPIPE after a failed exec

---
 src/runtime/command/exec/mod.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index d046ece..8ee971d 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -23,6 +23,22 @@ const IO_ERROR_STATUS: i32 = 0x7F;
 const SIGNAL_STATUS_OFFSET: i32 = 0xFF;
 
 
+/// Ignore SIGPIPE, as the Rust runtime does on startup.
+fn ignore_sigpipe() {
+	use std::os::raw::c_int;
+
+	const SIGPIPE: c_int = 13;
+	const SIG_IGN: usize = 1;
+
+	extern "C" {
+		fn signal(signum: c_int, handler: usize) -> usize;
+	}
+
+	// SAFETY: ignoring a signal does not install any handler.
+	unsafe { signal(SIGPIPE, SIG_IGN); }
+}
+
+
 /// Execution status of a single command.
 #[derive(Debug)]
 pub struct ErrorStatus {
@@ -220,6 +236,9 @@ impl Builtin {
 					Ok(ErrorStatus::wait_child(Child { process, pos }))
 				} else {
 					let error = command.exec();
+					// A failed exec has already reset SIGPIPE to the default action, which would now kill
+					// the shell as soon as a command stops reading its input.
+					ignore_sigpipe();
 					Err(io_error(error))
 				}
 			}
-- 
2.43.0


From 1775b79d4e73e057c5f26e96d1d201d4fd686ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:51 +0000
Subject: [PATCH 20/30] fix: resolve imports relative to the importing file
 after a change of directory

---
 src/runtime/lib/import.rs | 18 ++++++++++--------
 src/runtime/mod.rs        |  5 ++++-
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/runtime/lib/import.rs b/src/runtime/lib/import.rs
index 59712de..1a35f1f 100644
--- a/src/runtime/lib/import.rs
+++ b/src/runtime/lib/import.rs
@@ -1,6 +1,6 @@
 use std::{
 	io,
-	path::{Path, PathBuf},
+	path::Path,
 	ffi::OsStr,
 	os::unix::ffi::OsStrExt,
 };
@@ -9,9 +9,10 @@ use gc::{Finalize, Trace};
 
 use crate::{
 	fmt,
+	runtime::Runtime,
 	syntax,
 	semantic,
-	symbol::{self, Symbol}
+	symbol::Symbol
 };
 use super::{
 	CallContext,
@@ -33,7 +34,7 @@ impl Import {
 			::resolve_path(
 				module_path,
 				context.pos.path,
-				context.runtime.interner_mut()
+				context.runtime
 			)
 			.map_err(
 				|error| Panic::io(error, context.pos.copy())
@@ -53,21 +54,22 @@ impl Import {
 	fn resolve_path(
 		target_path: &Path,
 		current_path: Symbol,
-		interner: &mut symbol::Interner,
+		runtime: &mut Runtime,
 	) -> io::Result<Symbol> {
-		let mut path_buf = PathBuf::from(
+		let mut path_buf = runtime.initial_dir.join(
 			OsStr::from_bytes(
-				interner
+				runtime
+					.interner()
 					.resolve(current_path)
 					.expect("failed to resolve symbol")
-			).to_owned()
+			)
 		);
 		path_buf.pop(); // Remove the file name.
 		path_buf.push(target_path);
 
 		let path = path_buf.canonicalize()?;
 
-		let path_symbol = interner.get_or_intern(
+		let path_symbol = runtime.interner_mut().get_or_intern(
 			path
 				.as_os_str()
 				.as_bytes()
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 09c215b..cad6e52 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -12,7 +12,7 @@ pub mod value;
 #[cfg(test)]
 mod tests;
 
-use std::collections::HashMap;
+use std::{collections::HashMap, path::PathBuf};
 
 use crate::symbol::{self, Symbol};
 use super::semantic::program;
@@ -48,6 +48,8 @@ pub struct Runtime {
 	modules: HashMap<Symbol, Value>,
 	/// Command line arguments.
 	args: Value,
+	/// The directory to which relative source paths refer, regardless of std.cd.
+	initial_dir: PathBuf,
 }
 
 
@@ -71,6 +73,7 @@ impl Runtime {
 			std: lib::new(),
 			modules: HashMap::new(),
 			args: args.into(),
+			initial_dir: std::env::current_dir().unwrap_or_default(),
 		}
 	}
 
-- 
2.43.0


From 4542c2391dab59f16a9535ba8780f63b200bccf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:48 +0000
Subject: [PATCH 21/30] fix: raise a panic on circular imports instead of
 overflowing the stack

---
 src/runtime/lib/import.rs | 16 ++++++++++++----
 src/runtime/mod.rs        |  3 ++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/runtime/lib/import.rs b/src/runtime/lib/import.rs
index 1a35f1f..d81a19a 100644
--- a/src/runtime/lib/import.rs
+++ b/src/runtime/lib/import.rs
@@ -41,11 +41,19 @@ impl Import {
 			)?;
 
 		match context.runtime.modules.get(&path) {
-			Some(module) => Ok(module.copy()), // Don't reload module if cached.
+			Some(Some(module)) => Ok(module.copy()), // Don't reload module if cached.
+			Some(None) => Err(Panic::import_failed(path, context.pos)), // Circular import.
 			None => {
-				let module = Self::load(path, &mut context)?;
-				context.runtime.modules.insert(path, module.copy());
-				Ok(module)
+				context.runtime.modules.insert(path, None);
+
+				let result = Self::load(path, &mut context);
+
+				match &result {
+					Ok(module) => context.runtime.modules.insert(path, Some(module.copy())),
+					Err(_) => context.runtime.modules.remove(&path),
+				};
+
+				result
 			}
 		}
 	}
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index cad6e52..9adf8e3 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -45,7 +45,8 @@ pub struct Runtime {
 	arguments: Vec<Value>,
 	std: Value,
 	interner: symbol::Interner,
-	modules: HashMap<Symbol, Value>,
+	/// Imported modules, or none for those still being loaded.
+	modules: HashMap<Symbol, Option<Value>>,
 	/// Command line arguments.
 	args: Value,
 	/// The directory to which relative source paths refer, regardless of std.cd.
-- 
2.43.0


From dbb8dfdc7df92e53cd20b476708c6b0b6ba4b5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:14 +0000
Subject: [PATCH 22/30] hook: forced garbage collection, guarded by
 cfg(hush_verif)

---
 src/main.rs          |  1 +
 src/runtime/mod.rs   |  5 +++++
 src/runtime/verif.rs | 33 +++++++++++++++++++++++++++++++++
 3 files changed, 39 insertions(+)
 create mode 100644 src/runtime/verif.rs

diff --git a/src/main.rs b/src/main.rs
index 8081d44..a6dcf83 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,4 +1,5 @@
 #![allow(dead_code)] // This is temporarily used for the inital development.
+#![allow(unexpected_cfgs)] // Enabled by the verification builds only.
 
 mod args;
 mod fmt;
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 9adf8e3..6c6cf30 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -11,6 +11,8 @@ mod source;
 pub mod value;
 #[cfg(test)]
 mod tests;
+#[cfg(hush_verif)]
+mod verif;
 
 use std::{collections::HashMap, path::PathBuf};
 
@@ -279,6 +281,9 @@ impl Runtime {
 	where
 		F: FnOnce(&mut Self),
 	{
+		#[cfg(hush_verif)]
+		verif::tick();
+
 		macro_rules! regular_expr {
 			($expr: expr, $pos: expr) => {
 				match self.eval_expr($expr)? {
diff --git a/src/runtime/verif.rs b/src/runtime/verif.rs
new file mode 100644
index 0000000..6fb3b67
--- /dev/null
+++ b/src/runtime/verif.rs
@@ -0,0 +1,33 @@
+//! Instrumentation for verification, compiled only with `--cfg hush_verif`.
+
+use std::cell::Cell;
+
+
+thread_local! {
+	/// Collect garbage at every n-th evaluation, or never if zero.
+	static PERIOD: u64 = std::env::var("HUSH_VERIF_GC")
+		.ok()
+		.and_then(|period| period.parse().ok())
+		.unwrap_or(0);
+
+	static COUNT: Cell<u64> = Cell::new(0);
+}
+
+
+/// To be called on every evaluation of an expression.
+pub fn tick() {
+	PERIOD.with(
+		|&period| if period > 0 {
+			let count = COUNT.with(
+				|count| {
+					count.set(count.get() + 1);
+					count.get()
+				}
+			);
+
+			if count % period == 0 {
+				gc::force_collect();
+			}
+		}
+	)
+}
-- 
2.43.0


From 33dd9a4becd1ba027bb58c2e3f6085d473e43fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:40 +0000
Subject: [PATCH 23/30] fix: printing a syntax tree nested deeper than 255
 levels overflowed the indentation

---
 src/fmt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index 93da578..85e4b56 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -80,13 +80,13 @@ where
 
 /// An indentation level. Each level corresponds to one tabulation character.
 #[derive(Debug, Default, Copy, Clone)]
-pub struct Indentation(pub u8);
+pub struct Indentation(pub u16);
 
 
 impl Indentation {
 	/// Increase the identation level by one.
 	pub fn increase(self) -> Self {
-		Indentation(self.0 + 1)
+		Indentation(self.0.saturating_add(1))
 	}
 }
 
-- 
2.43.0


From 8ef2caec60dda38ed5d1d977acc5b60c3cbfafbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:02 +0000
Subject: [PATCH 24/30] fix: reject undeclared variables in the environment of
 a built-in command

---
 src/semantic/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/semantic/mod.rs b/src/semantic/mod.rs
index cf8a83d..e9ee320 100644
--- a/src/semantic/mod.rs
+++ b/src/semantic/mod.rs
@@ -575,10 +575,15 @@ impl<'a> Analyzer<'a> {
 			}
 
 			Ok(builtin) => {
+				// Built-ins don't use the environment, but it must be valid nonetheless.
+				let env = self.analyze_env(command.head.env);
+
 				let arguments = self.analyze_items(
 					Self::analyze_argument,
 					command.head.arguments.into_vec(), // Use vec's owned iterator.
-				)?;
+				);
+
+				let (_, arguments) = env.zip(arguments)?;
 
 				Some(
 					Command::Builtin {
-- 
2.43.0


From 293d0b853445342bdbe31a7cd7d3002d8cc35579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:13 +0000
Subject: [PATCH 25/30] fix: pass the environment assigned before exec, exec0
 and spawn0 to the program

The assignments before these built-ins were checked and then dropped, so
the program ran without them.
---
 src/runtime/command/exec/mod.rs | 41 +++++++++++++++++++++++----------
 src/runtime/command/mod.rs      |  5 +++-
 src/semantic/mod.rs             |  4 ++--
 src/semantic/program/command.rs |  2 ++
 4 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index 8ee971d..1072cc5 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -182,6 +182,7 @@ pub enum Builtin {
 impl Builtin {
 	pub fn exec(
 		self,
+		env: Box<[(Box<OsStr>, Argument)]>,
 		arguments: Box<[Argument]>,
 		pos: SourcePos,
 	) -> Result<Option<ErrorStatus>, Error> {
@@ -225,6 +226,8 @@ impl Builtin {
 					command.arg0(arg0);
 				}
 
+				BasicCommand::set_env(&mut command, env, &pos)?;
+
 				for arg in args {
 					command.arg(arg);
 				}
@@ -326,16 +329,7 @@ impl BasicCommand {
 			),
 		};
 
-		for (key, value) in self.env.into_vec() { // Use vec's owned iterator.
-			let value = value.resolve(pos.copy())?;
-
-			match value.as_ref() {
-				[ value ] => command.env(key, value),
-				other => return Err(
-					Panic::invalid_args("env variable", other.len() as u32, pos.copy()).into()
-				),
-			};
-		}
+		Self::set_env(&mut command, self.env, &pos)?;
 
 		for argument in self.arguments.into_vec() {
 			let args = argument.resolve(pos.copy())?;
@@ -349,6 +343,27 @@ impl BasicCommand {
 	}
 
 
+	/// Set the environment variables of a command, each of which must expand to a single literal.
+	fn set_env(
+		command: &mut process::Command,
+		env: Box<[(Box<OsStr>, Argument)]>,
+		pos: &SourcePos,
+	) -> Result<(), Panic> {
+		for (key, value) in env.into_vec() { // Use vec's owned iterator.
+			let value = value.resolve(pos.copy())?;
+
+			match value.as_ref() {
+				[ value ] => command.env(key, value),
+				other => return Err(
+					Panic::invalid_args("env variable", other.len() as u32, pos.copy())
+				),
+			};
+		}
+
+		Ok(())
+	}
+
+
 	fn spawn(
 		command: &mut process::Command,
 		mut stdio: Stdio,
@@ -490,6 +505,8 @@ pub enum Command {
 	Builtin {
 		/// The program to be executed.
 		program: Builtin,
+		/// Key-value pairs of environment variables.
+		env: Box<[(Box<OsStr>, Argument)]>,
 		/// Arguments to the program. The arguments may expand to an arbitrary number of literals.
 		arguments: Box<[Argument]>,
 		/// Whether to abort the command block execution if the command fails.
@@ -514,8 +531,8 @@ impl Command {
 		stderr: os_pipe::PipeWriter,
 	) -> Result<CommandExec, Error> {
 		match self {
-			Command::Builtin { program, arguments, abort_on_error, pos } => {
-				let error = match program.exec(arguments, pos) {
+			Command::Builtin { program, env, arguments, abort_on_error, pos } => {
+				let error = match program.exec(env, arguments, pos) {
 					Ok(error) => error,
 					Err(Error::Io { error, pos }) => Some(ErrorStatus::io(error, pos)),
 					Err(panic) => return Err(panic),
diff --git a/src/runtime/command/mod.rs b/src/runtime/command/mod.rs
index 4eac9d9..6bfdf5d 100644
--- a/src/runtime/command/mod.rs
+++ b/src/runtime/command/mod.rs
@@ -174,7 +174,9 @@ impl Runtime {
 		command: &'static program::Command
 	) -> Result<exec::Command, Panic> {
 		match command {
-			program::Command::Builtin { program, arguments, abort_on_error, pos } => {
+			program::Command::Builtin { program, env, arguments, abort_on_error, pos } => {
+				let env = self.build_env_vars(env)?;
+
 				let mut args = Vec::new();
 				for argument in arguments.iter() {
 					let arguments = self
@@ -186,6 +188,7 @@ impl Runtime {
 				Ok(
 					exec::Command::Builtin {
 						program: program.into(),
+						env,
 						arguments: args.into(),
 						abort_on_error: *abort_on_error,
 						pos: pos.into(),
diff --git a/src/semantic/mod.rs b/src/semantic/mod.rs
index e9ee320..f5282ca 100644
--- a/src/semantic/mod.rs
+++ b/src/semantic/mod.rs
@@ -575,7 +575,6 @@ impl<'a> Analyzer<'a> {
 			}
 
 			Ok(builtin) => {
-				// Built-ins don't use the environment, but it must be valid nonetheless.
 				let env = self.analyze_env(command.head.env);
 
 				let arguments = self.analyze_items(
@@ -583,11 +582,12 @@ impl<'a> Analyzer<'a> {
 					command.head.arguments.into_vec(), // Use vec's owned iterator.
 				);
 
-				let (_, arguments) = env.zip(arguments)?;
+				let (env, arguments) = env.zip(arguments)?;
 
 				Some(
 					Command::Builtin {
 						program: builtin,
+						env,
 						arguments,
 						abort_on_error: command.head.abort_on_error,
 						pos: command.head.pos,
diff --git a/src/semantic/program/command.rs b/src/semantic/program/command.rs
index 83db273..903915c 100644
--- a/src/semantic/program/command.rs
+++ b/src/semantic/program/command.rs
@@ -133,6 +133,8 @@ pub struct BasicCommand {
 pub enum Command {
 	Builtin {
 		program: Builtin,
+		/// Key-value pairs of environment variables.
+		env: Box<[(ArgUnit, Argument)]>,
 		arguments: Box<[Argument]>,
 		abort_on_error: bool,
 		pos: SourcePos,
-- 
2.43.0


From ab57744d7da9e0571e12af034bcd22a3475cded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:14 +0000
Subject: [PATCH 26/30] fix: report the actual number of items a command word
 expanded to

The item already popped was not counted, so two items were reported as one.
---
 src/runtime/command/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/command/mod.rs b/src/runtime/command/mod.rs
index 6bfdf5d..a3466ea 100644
--- a/src/runtime/command/mod.rs
+++ b/src/runtime/command/mod.rs
@@ -362,7 +362,8 @@ impl Runtime {
 		if args.is_empty() {
 			Ok(arg)
 		} else {
-			Err(panic(args.len() as u32))
+			// One of them has already been popped.
+			Err(panic(args.len() as u32 + 1))
 		}
 	}
 
-- 
2.43.0


From d6b629a508fce6f6980af729a81a011fa3549d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 27/30] fix: report the commands that failed before the shell
 ran out of descriptors

---
 src/runtime/command/exec/mod.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index 1072cc5..5799ec9 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -637,25 +637,29 @@ impl Block {
 		F: FnMut() -> io::Result<os_pipe::PipeWriter>,
 		G: FnMut() -> io::Result<os_pipe::PipeWriter>,
 	{
-		match self._exec(stdout, stderr) {
-			Ok(status) => Ok(status),
-			Err(Error::Panic(panic)) => Err(panic),
-			Err(Error::Io { error, pos }) => {
-				let error = ErrorStatus::io(error, pos);
+		let mut errors = Vec::new();
 
-				Ok(Box::new([PipelineErrors::from(error)]))
-			},
+		match self._exec(stdout, stderr, &mut errors) {
+			Ok(()) => (),
+			Err(Error::Panic(panic)) => return Err(panic),
+			// Keep the errors of the commands which have already failed.
+			Err(Error::Io { error, pos }) => errors.push(ErrorStatus::io(error, pos).into()),
 		}
+
+		Ok(errors.into())
 	}
 
 
-	fn _exec<F, G>(self, mut stdout: F, mut stderr: G,) -> Result<Box<[PipelineErrors]>, Error>
+	fn _exec<F, G>(
+		self,
+		mut stdout: F,
+		mut stderr: G,
+		errors: &mut Vec<PipelineErrors>,
+	) -> Result<(), Error>
 	where
 		F: FnMut() -> io::Result<os_pipe::PipeWriter>,
 		G: FnMut() -> io::Result<os_pipe::PipeWriter>,
 	{
-		let mut errors = Vec::new();
-
 		let pos = self.head.pos();
 		let head = self.head.exec(
 			stdout()
@@ -669,7 +673,7 @@ impl Block {
 		}
 
 		if head.abort {
-			return Ok(errors.into())
+			return Ok(())
 		}
 
 		for command in self.tail.into_vec() { // Use vec's owned iterator.
@@ -690,6 +694,6 @@ impl Block {
 			}
 		}
 
-		Ok(errors.into())
+		Ok(())
 	}
 }
-- 
2.43.0


From 6604b7ef9c2326f22c4db979f27333b05d3d2af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 28/30] fix: sorting an array that contains itself crashed the
 interpreter

---
 src/runtime/value/array.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime/value/array.rs b/src/runtime/value/array.rs
index 545cd35..2114481 100644
--- a/src/runtime/value/array.rs
+++ b/src/runtime/value/array.rs
@@ -108,7 +108,11 @@ impl Array {
 
 	/// Stable sort
 	pub fn sort(&mut self) {
-		self.borrow_mut().sort();
+		// The comparisons may borrow this very array, when it contains itself.
+		let mut values = self.borrow().iter().map(Value::copy).collect::<Vec<_>>();
+		values.sort();
+
+		*self.borrow_mut() = values;
 	}
 }
 
-- 
2.43.0


From 894224e4583ab1d44c6a986aac0f5824ad702366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:36 +0000
Subject: [PATCH 29/30] fix: an unwritable stderr crashed the interpreter
 instead of ending it with its status

---
 src/io.rs                 | 13 ++++++++++++-
 src/main.rs               | 14 +++++++-------
 src/runtime/lib/import.rs |  5 +++--
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index c650688..7f6f2e0 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -1,4 +1,8 @@
-use std::os::unix::prelude::{AsRawFd, RawFd};
+use std::{
+	fmt::Display,
+	io::Write,
+	os::unix::prelude::{AsRawFd, RawFd},
+};
 
 
 pub type FileDescriptor = RawFd;
@@ -8,3 +12,10 @@ pub type FileDescriptor = RawFd;
 pub fn stdout_fd() -> FileDescriptor {
 	std::io::stdout().as_raw_fd()
 }
+
+
+/// Write a message to stderr. Unlike eprint, this doesn't crash when that is not possible, as
+/// there is nowhere else to report to.
+pub fn report<T: Display>(message: T) {
+	let _ = write!(std::io::stderr(), "{}", message);
+}
diff --git a/src/main.rs b/src/main.rs
index a6dcf83..5ef14e0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -45,7 +45,7 @@ fn main() -> ! {
 	let command = match args::parse(std::env::args_os()) {
 		Ok(command) => command,
 		Err(error) => {
-			eprint!("{}", error);
+			io::report(error);
 			std::process::exit(ExitStatus::InvalidArgs.into())
 		}
 	};
@@ -82,13 +82,13 @@ fn run(args: Args) -> ExitStatus {
 	let source = match source {
     Ok(source) => source,
     Err(error) => {
-			eprintln!(
-				"{}",
+			io::report(format_args!(
+				"{}\n",
 				fmt::Show(
 					Panic::io(error, SourcePos::file(path)),
 					&interner
 				)
-			);
+			));
 			return ExitStatus::Panic;
 		}
 	};
@@ -98,7 +98,7 @@ fn run(args: Args) -> ExitStatus {
 	let has_syntax_errors = !syntactic_analysis.is_ok();
 
 	if has_syntax_errors {
-		eprint!("{}", fmt::Show(
+		io::report(fmt::Show(
 			syntactic_analysis.errors,
 			syntax::AnalysisDisplayContext {
 				max_errors: Some(20),
@@ -139,7 +139,7 @@ fn run(args: Args) -> ExitStatus {
 	let program = match semantic::Analyzer::analyze(syntactic_analysis.ast, &mut interner) {
 		Ok(program) => program,
 		Err(errors) => {
-			eprint!("{}", fmt::Show(
+			io::report(fmt::Show(
 				errors,
 				semantic::ErrorsDisplayContext {
 					max_errors: Some(20),
@@ -180,7 +180,7 @@ fn run(args: Args) -> ExitStatus {
 	match runtime.eval(program) {
     Ok(_) => ExitStatus::Success,
     Err(panic) => {
-			eprintln!("{}", fmt::Show(panic, runtime.interner()));
+			io::report(format_args!("{}\n", fmt::Show(panic, runtime.interner())));
 			ExitStatus::Panic
 		}
 	}
diff --git a/src/runtime/lib/import.rs b/src/runtime/lib/import.rs
index d81a19a..84457fa 100644
--- a/src/runtime/lib/import.rs
+++ b/src/runtime/lib/import.rs
@@ -9,6 +9,7 @@ use gc::{Finalize, Trace};
 
 use crate::{
 	fmt,
+	io::report,
 	runtime::Runtime,
 	syntax,
 	semantic,
@@ -105,7 +106,7 @@ impl Import {
 		let has_syntax_errors = !syntactic_analysis.is_ok();
 
 		if has_syntax_errors {
-			eprint!("{}", fmt::Show(
+			report(fmt::Show(
 				syntactic_analysis.errors,
 				syntax::AnalysisDisplayContext {
 					max_errors: Some(20),
@@ -122,7 +123,7 @@ impl Import {
 			)
 			.map_err(
 				|errors| {
-					eprint!("{}", fmt::Show(
+					report(fmt::Show(
 						errors,
 						semantic::ErrorsDisplayContext {
 							max_errors: Some(20),
-- 
2.43.0


From 2a98ed0b52e71f1e72ed5a493484407051ec57ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:28 +0000
Subject: [PATCH 30/30] fix: a thread that could not be started crashed the
 interpreter

---
 src/runtime/command/exec/mod.rs |  4 +++-
 src/runtime/command/mod.rs      | 12 ++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index 5799ec9..f8c3447 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -404,7 +404,9 @@ impl BasicCommand {
 
 							// The input may exceed the pipe capacity, and there's no one reading it yet, so we
 							// can't block here. Write errors mean that the command has stopped reading.
-							thread::spawn(move || writer.write_all(&input));
+							thread::Builder::new()
+								.spawn(move || writer.write_all(&input))
+								.map_err(|error| Error::io(error, pos.copy()))?;
 
 							reader
 						} else {
diff --git a/src/runtime/command/mod.rs b/src/runtime/command/mod.rs
index a3466ea..56d9d56 100644
--- a/src/runtime/command/mod.rs
+++ b/src/runtime/command/mod.rs
@@ -59,17 +59,17 @@ impl Runtime {
 				let (mut stderr_read, stderr_write) = os_pipe::pipe()
 					.map_err(|error| Panic::io(error, pos.copy()))?;
 
-				let stdout_reader = thread::spawn(move || {
+				let stdout_reader = thread::Builder::new().spawn(move || {
 					let mut data = Vec::with_capacity(512);
 					stdout_read.read_to_end(&mut data)?;
 					Ok(data)
-				});
+				}).map_err(|error| Panic::io(error, pos.copy()))?;
 
-				let stderr_reader = thread::spawn(move || {
+				let stderr_reader = thread::Builder::new().spawn(move || {
 					let mut data = Vec::with_capacity(512);
 					stderr_read.read_to_end(&mut data)?;
 					Ok(data)
-				});
+				}).map_err(|error| Panic::io(error, pos.copy()))?;
 
 				let errors = command_block
 					.exec(
@@ -129,12 +129,12 @@ impl Runtime {
 					pub static JOIN: Value = "join".into();
 				}
 
-				let join_handle = std::thread::spawn(
+				let join_handle = thread::Builder::new().spawn(
 					|| command_block.exec(
 						os_pipe::dup_stdout,
 						os_pipe::dup_stderr,
 					)
-				);
+				).map_err(|error| Panic::io(error, pos.copy()))?;
 
 				let join_handle = exec::Join
 					::new(join_handle)
-- 
2.43.0

